"""F25: the packaged flow (flow_manager), run on files and on folders of variants."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, tempfile
from . import aig as A, build, cli as C, sess, tlc, lib

MC = "SPECIFICATION Spec\nINVARIANTS Delivered VerdictTrue AskedOnly Reported\nPROPERTY Forward\nCHECK_DEADLOCK FALSE\n"
KEYS = {"flow_manager": ("debug", "iterations", "use_balance", "use_rewrite", "verbose", "very_verbose"),
        "klut_mapping": ("cut_size", "cut_limit", "uGlobal_round", "uLocal_round", "debug", "verbose"),
        "rewrite": ("cut_size", "cut_limit", "min_candidate_cut_size", "use_zero_gain", "preserve_depth")}

def config(rng, debug):
    b = lambda p=.5: rng.random() < p
    return {"flow_manager": {"debug": debug, "iterations": rng.randrange(1, 4), "use_balance": b(), "use_rewrite": b(), "verbose": b(.3), "very_verbose": b(.3)},
            "klut_mapping": {"cut_size": rng.choice([6, 6, 5, 4, 3, 2]), "cut_limit": rng.choice([10, 8, 6, 20, rng.randrange(6, 21)]), "uGlobal_round": rng.choice([1, 1, 2]),
                             "uLocal_round": rng.choice([1, 2, 3]), "debug": False, "verbose": b(.2)},
            "rewrite": {"cut_size": 4, "cut_limit": 8, "min_candidate_cut_size": rng.choice([0, 1]), "use_zero_gain": b(), "preserve_depth": b()}}

class Case:
    """circuits: the loaded circuit, for a folder followed by the other two variants"""
    def __init__(s, aigs, cfg, stim=None, inn=None, outn=None, deflt=False):
        s.aigs, s.cfg, s.stim, s.deflt = aigs, cfg, stim or [], deflt
        s.inn = inn or [""] * aigs[0]["ni"]; s.outn = outn or [""] * len(aigs[0]["outs"])
    def files(s):
        d = [sess.read(g, inn=s.inn, outn=s.outn).data for g in s.aigs]
        r = {"c.json": json.dumps(s.cfg).encode()}
        if len(d) == 1: r["x.aig"] = d[0]
        else: r.update({"x/original.aig": d[0], "x/compress.aig": d[1], "x/compress2.aig": d[2]})
        return r
    def args(s, d):
        i = d + ("/x.aig" if len(s.aigs) == 1 else "/x")
        return [i, d + "/c.json"] + (["", ""] if s.deflt else [d + "/out/m.v", d + "/out/l.v"])

STEPS = {"Configuration": "configure", "Load network": "load", "Technology mapping": "map", "Formal Verfication": "verify", "Download result": "download"}
def slurp(p, f, bad):
    try:
        with open(p, "rb") as h: return f(h.read())
    except (OSError, ValueError, IndexError): return bad
def run(exe, c, timeout=120):
    """one run -> its phases"""
    d = tempfile.mkdtemp(prefix="flow-")
    try:
        for n, b in c.files().items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), "wb") as h: h.write(b)
        a = c.args(d)
        try:
            p = subprocess.run([exe] + a, cwd=d, env=C.ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout); out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e: out, rc = e.stdout or b"", -1
        ev = []
        for l in out.decode("latin1").split("\n"):
            m = re.search(r"\[STEP\]: (.*) ing\.\.\.", l)
            if m:
                op = STEPS.get(m.group(1), m.group(1)); e = {"op": op}; ev.append(e)
                if op == "configure": e.update(debug=c.cfg["flow_manager"]["debug"], cutsize=c.cfg["klut_mapping"]["cut_size"], folder=len(c.aigs) > 1)
                elif op == "load": e.update(aigs=c.aigs, stim=c.stim, inn=c.inn, outn=c.outn)
                elif op == "map": e.update(area=-1, sizes=[])
                elif op == "verify": e.update(said="none")
                elif op == "download": e.update(lut={"bad": 1}, gate={"bad": 1}, aig=sess.BADNET)
                continue
            op = ev[-1]["op"] if ev else ""; e = ev[-1] if ev else {}
            if op == "map":
                m = re.match(r"\s*Area :\s*(\d+)", l)
                if m: e["area"] = int(m.group(1))
                m = re.match(r"\s*LUT fanins:(\d+)\s*numbers :(\d+)", l)
                if m and int(m.group(1)) == len(e["sizes"]) + 1: e["sizes"].append(int(m.group(2)))
            elif op == "verify" and l.strip() in ("equivalent", "unequivalent"): e["said"] = l.strip()
        if rc == 0: ev.append({"op": "end"})
        else: ev.append({"op": "crash"})
        for e in ev:
            if e["op"] == "download":
                v, l = (a[0] + "_ifpga.v", a[0] + "_ifpga_lut.v") if c.deflt else (a[2], a[3])
                e["gate"] = slurp(v, lambda b: C.parse_gate_verilog(b.decode("latin1")), {"bad": 1})
                e["lut"] = slurp(l, lambda b: C.parse_lut_verilog(b.decode("latin1")), {"bad": 1})
                e["aig"] = slurp(d + "/x/awc.aig", A.parse, sess.BADNET)
        return ev
    finally: shutil.rmtree(d, ignore_errors=True)

def flow(ctx):
    """F25"""
    r = tlc.run("MCFlow", MC)
    if r.violated: raise tlc.TlcError("MCFlow: %s violated\n%s" % (r.violated, r.out[-3000:]))
    ctx.add(states=r.distinct, transitions=r.generated)
    exe = build.driver("flowx", "fast"); rng = ctx.rng; cases = []
    n = 1400 if ctx.quick else 12000
    for k in range(n):
        x = rng.random(); deb = rng.random() < .5; stim = None
        if x < .06: g = A.big(rng, rng.randrange(10, 24), rng.randrange(80, 300)); stim = A.stimuli(rng, g["ni"], 6)
        elif x < .12: g = A.mk(ni := rng.randrange(1, 4), [], [rng.randrange(2 * ni + 2) for _ in range(rng.randrange(1, 4))])
        else:
            g = A.sample(rng, 1.0, 7)
            if g["ni"] > 10: stim = A.stimuli(rng, g["ni"], 8)
        aigs = [g]
        if rng.random() < .85:
            aigs += [A.restructured(rng, g), A.restructured(rng, g)]
            if rng.random() < .3: aigs[1] = A.restructured(rng, aigs[1])
            if rng.random() < .15:
                h = aigs[rng.choice([1, 2])]; j = rng.randrange(len(h["outs"])); h["outs"][j] ^= 1
            rng.shuffle(aigs) if rng.random() < .5 else None
        inn = outn = None
        if rng.random() < .3:
            inn = ["a%d" % i if rng.random() < .8 else "" for i in range(g["ni"])]; outn = ["z%d" % i if rng.random() < .8 else "" for i in range(len(g["outs"]))]
            if len(aigs) > 1 and rng.random() < .3: inn = ["p[%d]" % i for i in range(g["ni"])]
        cases.append(Case(aigs, config(rng, deb), stim, inn, outn, rng.random() < .1))
    calls = {}; fails = {}
    for b in range(0, n, 2000):
        with cf.ThreadPoolExecutor(8) as ex: eps = list(ex.map(lambda c: run(exe, c), cases[b:b + 2000]))
        for ev in eps:
            for e in ev: calls[e["op"]] = calls.get(e["op"], 0) + 1
        for (i, l), t in lib.judge(ctx, "FlowTrace", eps, maxev=250).items(): fails[b + i, l] = t
    ctx.add(phases=calls, folder_runs=sum(len(c.aigs) > 1 for c in cases), verified_runs=sum(c.cfg["flow_manager"]["debug"] for c in cases),
            samples=[{"config": cases[i].cfg, "circuits": [[g["ni"], len(g["ands"]), len(g["outs"])] for g in cases[i].aigs]} for i in (0, 1)])
    seen = {}
    for (i, l), t in sorted(fails.items()): seen.setdefault(tuple(sorted(t)), []).append((sum(len(g["ands"]) for g in cases[i].aigs), i))
    for t, lst in sorted(seen.items()):
        for _, i in sorted(lst)[:3]:
            c = cases[i]; ev = run(exe, c, 300)
            f, _ = tlc.validate("FlowTrace", [ev], workers=1)
            got = sorted({x for v in f.values() for x in v})
            if not set(got) & set(t): continue
            d = ctx.replay_dir()
            for n_, b_ in c.files().items():
                os.makedirs(os.path.dirname(os.path.join(d, n_)), exist_ok=True)
                with open(os.path.join(d, n_), "wb") as h: h.write(b_)
            key = "%s:%s" % (t[0], hashlib.sha256(b"".join(v for _, v in sorted(c.files().items()))).hexdigest()[:12])
            ctx.violation(key, "%s (%d runs); flowx %s" % (",".join(got), len(lst), " ".join(x or '""' for x in c.args("."))), {"trace.json": [ev]}, dir=d)
            break
        else: raise tlc.TlcError("flow: %s not reproduced" % (t,))

CHECKS = {"F25": flow}
