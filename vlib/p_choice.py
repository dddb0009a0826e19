"""M09: merged networks, choice classes."""
import random
from . import build, lib
from .p_lib import emitted, parse, calls_of
from .p_equiv import text, rnd, same

MCC = "SPECIFICATION Spec\nCONSTANTS\n NPi=%d\n MaxGate=%d\nVIEW NoPath\nINVARIANTS Sound\nPROPERTIES Emit\nCHECK_DEADLOCK FALSE\n"
SHOWN = ("cmiter", "choice", "cinit", "setc", "mux")

def run(d, lines):
    ev = []
    for ln in lines:
        op = ln.split()[0]
        try: r = d.call(ln)
        except lib.Crash: r = dict(op=op, res=-2)
        if op in SHOWN: ev.append(dict(r, line=ln))
        elif r["res"] == -2: raise lib.tlc.TlcError("driver died on " + ln)
        else: ev.append(None); ev[-1:] = []
        if r["res"] == -2: break
    # the whole text of the history travels with its first event
    if ev: ev[0]["script"] = lines
    return ev
def script(lines): return lambda d: run(d, ["reset"] + lines)

def conf(rng):
    return "choice %d %d %d %d %d" % (rng.choice([1, 1, 2, 8]), rng.choice([1000, 1000, 1000, 1, 3]), rng.choice([5000, 5000, 10, 30]), rng.choice([100, 0, 2]), rng.choice([1, 1, 1, 0]))
def merged(rng, ops, variants):
    lines = ["net " + text(ops)] + ["net " + text(v) for v in variants]
    how = rng.choice([0, 0, 1]); lines += ["cmiter %d" % how, conf(rng)]
    if rng.random() < .15: lines += ["cmiter 0", conf(rng)]
    if rng.random() < .15: lines += ["drop"] + lines[:1 + rng.randrange(len(variants) + 1)] + ["cmiter 1", conf(rng)]
    return script(lines)
def redundant(rng, ops):
    """the same outputs, from a network that also contains other implementations of its gates"""
    ops = same(rng, ops, "aig"); return ops
def rmerge(rng):
    npi = rng.choice([1, 2, 3, 4, 4, 5, 6]); ng = rng.randrange(1, 22); a = rnd(rng, "aig", npi, ng, rng.choice([1, 1, 2, 3, 5]))
    r = rng.random()
    vs = [same(rng, a, "aig") for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    if vs and r < .3: vs[-1] = same(rng, vs[-1], "aig")
    if vs and r > .85: vs[0] = list(a)
    return merged(rng, a, vs)
def wide(rng):
    """rare differences: candidates that random patterns cannot tell apart, refuted by the solver"""
    npi = rng.choice([8, 9, 10]); ops = [["pi"] for _ in range(npi)]; n = npi + 1; cur = 2 + rng.randrange(2); tops = []
    for p in rng.sample(range(2, npi + 1), npi - 1):
        ops.append(["and", cur, 2 * p + rng.randrange(2)]); cur = 2 * n; n += 1; tops.append(cur)
    x = tops[-1]
    for _ in range(rng.randrange(1, 4)):
        k = rng.randrange(3)
        ops.append(["or", x ^ rng.randrange(2), rng.choice(tops)] if k == 0 else ["xor", x, rng.choice(tops[:3])] if k == 1 else ["and", x ^ 1, 2 * rng.randrange(1, npi + 1) + rng.randrange(2)]); tops.append(2 * n); n += 1
    ops += [["po", t ^ rng.randrange(2)] for t in rng.sample(tops, min(len(tops), rng.randrange(1, 5)))]
    return merged(rng, ops, [same(rng, ops, "aig") for _ in range(rng.choice([1, 2]))])

def numbering(ops):
    """node numbers of a network built by ANDs on fresh inputs (for sequences whose every AND is new)"""
    return sum(o[0] == "pi" for o in ops)
def joins(npi, p, rng):
    gates = [c for c in p if c[0] == "and"]; js = [c for c in p if c[0] == "setc"]
    lines = ["rnet " + text([["pi"]] * npi + gates), "cinit"] + ["mux %d" % (npi + 1 + i) for i in range(len(gates))] + ["setc %d %d" % (c[1], c[2]) for c in js]
    return script(lines)
def rjoin(rng):
    npi = rng.choice([2, 3, 4]); a = rnd(rng, "aig", npi, rng.randrange(3, 14), 0); v = same(rng, a, "aig")
    ops = a + [[o[0]] + [x for x in o[1:]] for o in []]
    def work(d):
        ev = run(d, ["reset", "rnet " + text(a if rng.random() < .5 else v), "cinit"])
        net = ev[0]["net"]; gates = [n for n, f in enumerate(net["fi"]) if f]; eq, rep = list(ev[0]["eq"]), list(ev[0]["rep"]); lines = list(ev[0]["script"])
        def step(ln):
            try: r = d.call(ln)
            except lib.Crash: r = dict(op=ln.split()[0], res=-2)
            ev.append(dict(r, line=ln)); lines.append(ln); return r
        for n in gates:
            if step("mux %d" % n)["res"] == -2: break
        for _ in range(rng.randrange(2, 16)):
            ns = [n for n in gates if eq[n] == -1 and rep[n] == n]; rs = [n for n in gates if rep[n] == n]
            if not ns or not rs: break
            r = step("setc %d %d" % (rng.choice(ns), rng.choice(rs)))
            if r["res"] == -2: break
            eq, rep = r["eq"], r["rep"]
        ev[0]["script"] = lines
        return ev
    return work
def replayer(exe, eps):
    def f(i):
        d = lib.Driver(exe)
        try: return run(d, eps[i][0]["script"])
        finally: d.stop()
    return f
def choices(ctx):
    """M09"""
    exe = build.driver("choicex", "asan"); rng = ctx.rng; q = ctx.quick; R = lambda: random.Random(rng.random()); tasks = []
    for c in ([(2, 3)] if q else [(2, 4), (3, 3)]):
        ps = emitted(ctx, "MCChoice", MCC % c, timeout=800); tasks += [joins(c[0], p, R()) for p in parse(rng.sample(ps, min(len(ps), 500 if q else 6000))) if ["cinit"] in p]
    tasks += [rjoin(R()) for _ in range(150 if q else 3000)] + [rmerge(R()) for _ in range(500 if q else 10000)] + [wide(R()) for _ in range(40 if q else 800)]
    rng.shuffle(tasks)
    lib.campaign(ctx, "ChoiceTrace", exe, tasks, replayer, lambda ev, l: "; ".join(ev[0]["script"])[:400], maxev=600)

CHECKS = {"M09": choices}
