"""P26: the Python interface (ai_infra/imap_engine.py) next to the shell."""
import concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, tempfile
from . import build, cli as C, lib, sess, tlc
from .clichecks import rd
from .sess import Step

MC = "SPECIFICATION CSpec\nCONSTANTS HistMax = 2\n Len_ = %d\nINVARIANTS SameSession SameRefusals Replayed\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION GSpec\nCONSTANTS HistMax = 5\n Len_ = %d\nINVARIANT EmitLong\nCHECK_DEADLOCK FALSE\n"
CFG = "SPECIFICATION TSpec\nCONSTANT HistMax = 5\nCHECK_DEADLOCK FALSE\n"
INFRA = os.path.join(build.REPO, "ai_infra")
FLAGS = ("level_preserve", "zero_gain", "verbose", "clear", "size", "add")
# method -> command and the short names of its options, in the order of the documentation
SHELL = {"rewrite": ("rewrite", "PClz-"), "refactor": ("refactor", "ICl z-".replace(" ", "")), "balance": ("balance", "-"), "lut_opt": ("lut_opt", "PCGLz-"),
         "map_fpga": ("map_fpga", "PCGLt-"), "history": ("history", "csar"), "clean_up": ("cleanup", "-"), "print_stats": ("print_stats", "t"), "read": ("read_aiger", "")}
LONG = {"rewrite": ["priority_size", "cut_size", "level_preserve", "zero_gain", "verbose"], "refactor": ["max_input_size", "max_cone_size", "level_preserve", "zero_gain", "verbose"],
        "balance": ["verbose"], "lut_opt": ["priority_size", "cut_size", "global_area_iterations", "local_area_iterations", "zero_gain", "verbose"],
        "map_fpga": ["priority_size", "cut_size", "global_area_iterations", "local_area_iterations", "type", "verbose"], "history": ["clear", "size", "add", "replace"],
        "clean_up": ["verbose"], "print_stats": ["type"], "read": []}

def shell_step(m, given, src):
    """the same command typed in the shell, what is not given left away"""
    op, short = SHELL[m]
    if m == "read": return Step("read_aiger", aig=src[0], data=src[1], stim=[])
    a = {}
    for n, v in given.items():
        s = short[LONG[m].index(n)]
        if s == "-" or (n == "replace" and v == -1): continue
        a[s] = bool(v) if n in FLAGS else v
    return Step(op, {k: v for k, v in a.items() if v is not False})

OBS = [("write_aiger", 0), ("print_stats", 0), ("write_fpga", 0), ("print_stats", 1), ("write_primary", 0), ("write_dot", 0), ("write_dot", 1)]
def obs_steps(): return [Step(o, {"t": 1} if t else {}) for o, t in OBS]

class Play:
    """one process driven from Python -> events"""
    def __init__(s, mod, srcs, calls, keep=None): s.mod, s.srcs, s.calls, s.keep = mod, srcs, calls, keep
    def run(s):
        d = s.keep or tempfile.mkdtemp(prefix="pyx-"); s.d = d; s.ev = [dict(op="start", args=0, resp=OK(), line="(python)")]; s.n = 0
        p = subprocess.Popen([sys.executable, os.path.join(build.VERIF, "harness", "pyx.py"), s.mod, INFRA], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d, env=C.ENV)
        s.p = p
        try:
            for i, (g, data) in enumerate(s.srcs, 1):
                with open(os.path.join(d, "in%d.aig" % i), "wb") as h: h.write(data)
            for c in s.calls:
                if not s.one(c): break
            return s.ev
        finally:
            p.kill(); p.wait(); p.stdin.close(); p.stdout.close()
            if not s.keep: shutil.rmtree(d, ignore_errors=True)
    def ask(s, **c):
        import select
        try:
            s.p.stdin.write(json.dumps(c).encode() + b"\n"); s.p.stdin.flush()
            if not select.select([s.p.stdout], [], [], 60)[0]: return None
            r = s.p.stdout.readline(); return json.loads(r) if r else None
        except OSError: return None
    def put(s, r, **e):
        e = dict({"resp": CRASH, "file": "none", "obs": "", "id": "", "valid": False}, **e)
        if r and not r["err"]: e["resp"] = C.resp(r["out"].split("\n"))
        if r and r["err"]: e["why"] = r["err"]
        if r: e["said"] = r["out"]
        s.ev.append(e); return r is not None and e["resp"]["kind"] != "crash"
    def called(s, r, eng, m, given, path):
        seen = [{"name": n, "opts": [{"n": k, "v": (1 if v == path else 0) if k == "filename" else int(v) if isinstance(v, (bool, int)) else -12345} for k, v in ks.items()] + [{"n": "?", "v": 0} for _ in a]} for n, a, ks in (r["seen"] if r else [])]
        x = {}
        if m == "read": g = s.srcs[eng - 1]; x = dict(valid=g[0] is not None, id=hashlib.sha256(g[1]).hexdigest()[:12])
        if m == "print_stats" and r: x = dict(obs=json.dumps(C.resp(r["out"].split("\n"))["v"]))
        return s.put(r, op="call", eng=eng, m=m, given=given, seen=seen, line="engine%d.%s(%s)" % (eng, m, ", ".join("%s=%s" % q for q in given.items())), **x)
    def one(s, c):
        k = c[0]
        if k == "new":
            r = s.ask(op="new", eng=c[1], **{"in": "in%d.aig" % c[1], "out": "out%d.seq" % c[1]}); return r is not None and not r["err"]
        if k == "call":
            _, eng, m, given = c
            r = s.ask(op="call", eng=eng, m=m, k={n: bool(v) if n in FLAGS else v for n, v in given.items()})
            return s.called(r, eng, m, given, "in%d.aig" % eng)
        if k == "seq":
            r = s.ask(op="call", eng=c[1], m="add_sequence", a=[c[2]]); return s.put(r, op="add_sequence", eng=c[1], text=c[2], line="engine%d.add_sequence(%r)" % c[1:])
        if k == "write":
            r = s.ask(op="call", eng=c[1], m="write"); return s.put(r, op="write", eng=c[1], texts=s.texts("out%d.seq" % c[1]), line="engine%d.write()" % c[1])
        if k == "obs":
            for o, t in OBS:
                s.n += 1; f = "o%d" % s.n; kw = {} if o == "print_stats" else {"filename": f}
                if o in ("print_stats", "write_dot") and t: kw["type"] = t
                r = s.ask(op="raw", m=o, k=kw); x = {}
                if o == "print_stats": x["obs"] = json.dumps(C.resp(r["out"].split("\n"))["v"]) if r else ""
                else:
                    try:
                        with open(os.path.join(s.d, f), "rb") as h: x = dict(obs=hashlib.sha256(h.read()).hexdigest()[:16], file="some")
                    except OSError: x = dict(obs="nothing")
                if not s.put(r, op=o, args={} if o in ("write_aiger", "write_fpga") else {"t": 1 if t else sess.UNSET}, line="imap.%s(%s)" % (o, kw), **x): return False
            return True
        if k == "demo":
            r = s.ask(op="demo", **{"in": "in1.aig"})
            if r is None or r["err"]: s.put(r, op="add_sequence", eng=1, text="", line="Demo.run()"); return False
            for x in r["log"]:
                if x["m"] == "add_sequence": s.put(x, op="add_sequence", eng=1, text=x["a"][0], line="demo: add_sequence(%r)" % x["a"][0])
                elif x["m"] == "write": s.put(x, op="write", eng=1, texts=s.texts(x["io"][1]), line="demo: write()")
                else:
                    given = {n: int(v) for n, v in list(zip(LONG[x["m"]], x["a"])) + list(x["k"].items())}
                    s.called(x, 1, x["m"], given, "in1.aig")
            return True
    def texts(s, f):
        try:
            with open(os.path.join(s.d, f)) as h: t = h.read()
        except OSError: return ["(no file)"]
        s.written = t
        return [x.strip() for x in t.split(";")][:-1] if t.strip().endswith(";") else [x.strip() for x in t.split(";")] if t else []
def OK(): return {"kind": "ok", "v": [], "warn": False}
CRASH = {"kind": "crash", "v": [], "warn": False}

def text_step(t):
    """a recorded command text as a step of the shell"""
    w = t.split(); a = {}; i = 1
    while i < len(w):
        k = w[i][1:]
        if i + 1 < len(w) and w[i + 1].lstrip("-").isdigit(): a[k] = int(w[i + 1]); i += 2
        else: a[k] = True; i += 1
    return Step(w[0], a) if w[0] in sess.OPTS and all(k in "".join(sess.OPTS[w[0]]) for k in a) else Step("bogus", {"line": t})

def engine(ctx):
    from .p_session2 import det_events
    ctx.level = "model_checking"; rng = ctx.rng
    m = tlc.run("MCEngine", MC % (2 if ctx.quick else 3))
    if m.violated: raise tlc.TlcError("MCEngine " + str(m.violated))
    ctx.add(states=m.distinct, transitions=m.generated); ctx.log("front ends model-checked:", m.distinct, "states")
    with cf.ThreadPoolExecutor(2) as ex: mod, plain = ex.map(lambda f: f(), (build.pymodule, lambda: build.plain_cli("fast")))
    def walks(n, k):
        r = tlc.run("MCEngine", GEN % n, extra=["-simulate", "num=%d" % k, "-depth", str(n + 1), "-seed", str(rng.randrange(1 << 30))], workers=1)
        seen = {}
        for x in r.paths:
            p = json.loads(x.replace('\\"', '"')); seen.setdefault(json.dumps(p[:-1]), p)
        return [[(s["m"], dict(zip(s["n"], s["v"]))) for s in p] for p in seen.values()][:k]
    def src():
        while True:
            s = rd(rng, .02)
            if s.aig: return s.aig, s.data
    def group(path):
        """a session from Python and the same one typed in the shell, in one episode"""
        srcs = [src(), src()]; calls = [("new", 1), ("new", 2)]; st = []; texts = []
        if rng.random() < .85: path = [("read", {})] + path
        for m, g in path:
            if m == "peek": calls.append(("obs",)); st += obs_steps(); continue
            eng = 1 if rng.random() < .85 else 2
            calls.append(("call", eng, m, g)); s = shell_step(m, g, srcs[eng - 1]); st.append(s)
            if m != "read" and rng.random() < .6: texts.append((eng, s.line())); calls.append(("seq", *texts[-1]))
            if rng.random() < .1: calls.append(("write", eng))
        calls += [("write", 1), ("write", 2), ("obs",)]
        return srcs, calls, [st + obs_steps()]
    def demo(_):
        s = src()
        return [s], [("demo",), ("obs",)], "replay"
    def play(G, keep=None):
        srcs, calls, shells = G; P = Play(mod, srcs, calls, keep and os.path.join(keep, "python"))
        if keep: os.makedirs(P.keep, exist_ok=True)
        ev = P.run()
        if ev[-1].get("resp", OK())["kind"] == "crash": return ev
        if shells == "replay":      # the written sequence, played in the shell on the same circuit
            t = next((e["texts"] for e in reversed(ev) if e["op"] == "write"), [])
            shells = [[Step("read_aiger", aig=srcs[0][0], data=srcs[0][1], stim=[])] + [text_step(x) for x in t] + obs_steps()]
        for j, st in enumerate(shells):
            k = None
            if keep: k = os.path.join(keep, "shell%d" % j); os.makedirs(k, exist_ok=True)
            e, _ = det_events(st, plain, False, None, 120, k); ev += e
            if e[-1]["resp"]["kind"] == "crash": break
        return ev
    def strip(ev): return [{k: v for k, v in e.items() if k not in ("line", "said", "why")} for e in ev]
    def batch(Gs):
        with cf.ThreadPoolExecutor(8) as ex: evs = list(ex.map(play, Gs))
        f, r = tlc.validate("EngineTrace", [strip(e) for e in evs], CFG)
        n = {}
        for e in evs:
            for x in e: n[x.get("m") or x["op"]] = n.get(x.get("m") or x["op"], 0) + 1
        ctx.add(states=r.distinct, transitions=r.generated, traces_validated_against_impl=len(evs), events=sum(map(len, evs)), calls=n)
        if len(ctx.cov.get("samples", [])) < 2: ctx.add(samples=[[x["line"] for x in evs[0]][:40]])
        done = {}
        for (ep, l), tags in sorted(f.items()):
            t = tuple(sorted(tags))
            if done.get(t, 0) >= 2: continue
            d = ctx.replay_dir(); e2 = play(Gs[ep - 1], d); f2, _ = tlc.validate("EngineTrace", [strip(e2)], CFG)
            hit = [(k[1], v) for k, v in f2.items() if set(v) & set(tags)]
            if not hit: ctx.add(unconfirmed=1); shutil.rmtree(d); continue
            done[t] = done.get(t, 0) + 1; l2, v = hit[0]
            with open(os.path.join(d, "trace.json"), "w") as h: json.dump([strip(e2)], h)
            ctx.violation("%s:%s" % (t[0], hashlib.sha256(json.dumps([x["line"] for x in e2[:l2]]).encode()).hexdigest()[:12]),
                          "%s at `%s`, after %s" % (v, e2[l2 - 1]["line"], [x["line"] for x in e2[:l2 - 1]][-8:]), dir=d)
    batch([group(p) for p in walks(6, 150)] + [demo(0) for _ in range(15)]); ctx.log("histories played")
    while not ctx.quick and ctx.left(700) > 0 and len(ctx.viol) < 8:
        batch([group(p) for p in walks(rng.choice([4, 8, 12]), 120)] + [demo(0) for _ in range(20)])

CHECKS = {"P26": engine}
