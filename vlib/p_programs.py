"""X27: the standalone programs and the shell's batch modes next to recorded sessions."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, tempfile
from . import aig as A, build, cli as C, sess, tlc
from .clichecks import gbig
from .p_session2 import named, special
from .sess import Step, read

CFG = "SPECIFICATION TSpec\nCONSTANT HistMax = 5\nCHECK_DEADLOCK FALSE\n"
MC = "SPECIFICATION CSpec\nCONSTANTS HistMax = 2\n Small = TRUE\nINVARIANTS BeforeKept AfterSound\nPROPERTY Stays\nCHECK_DEADLOCK FALSE\n"
PROGS = ("rewrite", "refactor", "balance", "compress", "compress2")
CRASH = {"kind": "crash", "v": [], "warn": False}; OK = {"kind": "ok", "v": [], "warn": False}

def numbers(name, t):
    """(before, after, verdict) as printed"""
    if name in ("rewrite", "refactor"):
        m = [re.search(w + r" aig\s*, area : (\d+)\s*, level: (\d+)", t) for w in ("origin", name)]
        if not all(m): return None
        v = re.search(r"equivalence checking result : (\w+)", t)
        return [[int(x) for x in y.groups()] for y in m] + [v.group(1) if v else ""]
    if name in ("batch", "stdin"):
        m = C.RX.findall(t)
        return [[int(x) for x in y[3:]] for y in (m[0], m[-1])] + [""] if len(m) == 2 else None
    a, l = re.search(r"area\(before/after\)\s*: (\d+)/(\d+)", t), re.search(r"level\(before/after\)\s*: (\d+)/(\d+)", t)
    if not a or not l: return None
    return [[int(a.group(i)), int(l.group(i))] for i in (1, 2)] + [""]

def programs(ctx):
    ctx.level = "model_checking"; rng = ctx.rng
    m = tlc.run("MCPrograms", MC)
    if m.violated: raise tlc.TlcError("MCPrograms " + str(m.violated))
    ctx.add(states=m.distinct, transitions=m.generated); ctx.log("model-checked:", m.distinct, "states")
    with cf.ThreadPoolExecutor(7) as ex:
        jobs = {p: ex.submit(build._build, os.path.join(build.REPO, "examples", p + ".cpp"), "prog-" + p, "chk") for p in PROGS}
        inp_ = ex.submit(build.driver, "inplacex", "chk"); cli_ = ex.submit(build.cli, "chk"); plain_ = ex.submit(build.plain_cli, "chk")
        bins = {p: j.result() for p, j in jobs.items()}; shell = cli_.result()[0]; bins["imap"] = plain_.result(); inplace = inp_.result()
    ctx.log("programs built")
    def prog(name, n, d, i):
        """one run -> event"""
        e = dict(op="program", name=name, n=1 if name[0] == "c" else n, form="documented" if name[0] == "c" and n == 1 else "", inplace=[0, 0], resp=OK, before=[0, 0], after=[0, 0], verdict="", post={"nofile": 1}, file="none")
        f = "out%d.v" % i; inp = None
        script = "read_aiger -f in.aig; print_stats; " + "balance; " * n + "print_stats"
        a = {"balance": [str(n), "in.aig", f], "batch": ["-c", script], "stdin": []}.get(name, ["in.aig"] if name[0] == "r" or n == 1 else ["1", "in.aig"])
        if name == "stdin": inp = (script.replace("; ", "\n") + "\nquit\n").encode()
        e["line"] = "%s %s" % (name, " ".join(a)); b = bins.get(name, bins["imap"])
        try: p = subprocess.run([b] + a, cwd=d, input=inp if inp is not None else b"", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=C.ENV, timeout=120)
        except subprocess.TimeoutExpired: e["resp"] = CRASH; return e
        x = numbers(name, p.stdout.decode("latin1")); e["text"] = p.stdout.decode("latin1")[-600:]
        if p.returncode or not x: e["resp"] = CRASH; return e
        e["before"], e["after"], e["verdict"] = x
        if name[0] == "c":
            try: y = re.findall(r"inplace (\d+) (\d+)", subprocess.run([inplace, "in.aig"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=C.ENV, timeout=120).stdout.decode("latin1"))
            except subprocess.TimeoutExpired: y = []
            if len(y) == 2: e["inplace"] = [int(v) for v in y[name == "compress2"]]
        try:
            with open(os.path.join(d, f), encoding="latin1") as h: e["post"] = C.parse_gate_verilog(h.read())
        except OSError: pass
        except (ValueError, IndexError): e["post"] = {"bad": 1}
        return e
    def plan():
        r = rng.random()
        g = special(rng) if r < .3 else gbig(rng, 600) if r > .95 else A.sample(rng)
        inn, outn = named(rng, g); s = read(g, [] if g["ni"] <= 9 else A.stimuli(rng, g["ni"], 5), inn, outn)
        steps, at = [s], []
        for n in range(1, rng.choice([1, 2, 3]) + 1):
            steps.append(Step("balance")); at += [(len(steps) - 1, "balance", n), (len(steps) - 1, rng.choice(["batch", "stdin"]), n)]
        for name in rng.sample(["compress", "compress2", "refactor", "balance"], 2):
            for n in {"refactor": (1, 1), "balance": (1, 2)}.get(name, (1, 2, 2)): at.append((0, name, n))
        second = [read(g, s.stim, inn, outn), Step("rewrite", {"z": True})], [(1, "rewrite", 1), (0, "refactor", 1)]
        return [(steps, at), second]
    def play(P, keep=None):
        """-> episodes"""
        res = []
        for k, (steps, at) in enumerate(P):
            d = os.path.join(keep, str(k)) if keep else tempfile.mkdtemp(prefix="prog-"); os.makedirs(d, exist_ok=True)
            try:
                r = sess.record(shell, steps, slots=False, timeout=90)
                with open(os.path.join(d, "in.aig"), "wb") as h: h.write(steps[0].data)
                ev = []
                for i, e in enumerate(r.events):
                    ev.append(e)
                    ev += [prog(name, n, d, j) for j, (w, name, n) in enumerate(at) if w == i]
                res.append(ev)
            finally:
                if not keep: shutil.rmtree(d, ignore_errors=True)
        return res
    def strip(ev): return sess.strip(ev)
    done = {}
    def batch(n):
        Ps = [plan() for _ in range(n)]
        with cf.ThreadPoolExecutor(8) as ex: eps = list(ex.map(play, Ps))
        flat = [(pi, k, e) for pi, es in enumerate(eps) for k, e in enumerate(es)]
        f, r = tlc.validate("ProgramsTrace", [strip(e) for _, _, e in flat], CFG)
        runs = {}
        for _, _, ev in flat:
            for e in ev:
                if e["op"] == "program": runs[e["name"]] = runs.get(e["name"], 0) + 1
        ctx.add(states=r.distinct, transitions=r.generated, traces_validated_against_impl=len(flat), events=sum(len(e) for _, _, e in flat), runs=runs)
        if not ctx.cov.get("samples"): ctx.add(samples=[[e.get("line", e["op"]) for e in flat[0][2]]])
        for (ep, l), tags in sorted([*f.items(), *tlc.fails(r, "NOTE").items()]):
            pi, k, ev = flat[ep - 1]
            if not any(t.startswith(("program.", "known.")) for t in tags):     # the session itself died or the read failed: other checks
                ctx.add(other_tags=1); continue
            t = tuple(sorted(tags))
            if t[0][:6] == "known.": t = ("%s:%s" % (t[0], ev[l - 1]["name"]),)
            if done.get(t, 0) >= (1 if t[0][:6] == "known." else 2): continue
            d = ctx.replay_dir(); e2 = play([Ps[pi][k]], d)[0]; f2, r2 = tlc.validate("ProgramsTrace", [strip(e2)], CFG); f2.update(tlc.fails(r2, "NOTE"))
            hit = [(q[1], v) for q, v in f2.items() if set(v) & set(tags) and e2[q[1] - 1].get("name") == ev[l - 1].get("name")]
            if not hit: ctx.add(unconfirmed=1); shutil.rmtree(d); continue
            done[t] = done.get(t, 0) + 1; l2, v = hit[0]
            with open(os.path.join(d, "trace.json"), "w") as h: json.dump([strip(e2)], h)
            if t[0][:6] == "known.":
                ctx.violation(t[0], "`%s`: %s" % (e2[l2 - 1]["line"], json.dumps({x: e2[l2 - 1][x] for x in ("before", "after", "inplace", "resp")})), dir=d); continue
            ctx.violation("%s:%s:%s" % (t[0], e2[l2 - 1]["name"], hashlib.sha256(Ps[pi][k][0][0].data).hexdigest()[:12]),
                          "%s by `%s`: %s" % (v, e2[l2 - 1]["line"], json.dumps({x: e2[l2 - 1][x] for x in ("before", "after", "verdict")})), dir=d)
    batch(90); ctx.log("runs judged")
    while not ctx.quick and ctx.left(700) > 0 and len(ctx.viol) < 8: batch(80)

CHECKS = {"X27": programs}
