"""V24: factoring, the NPN library, SOP balancing."""
import random
from . import build, lib
from .p_lib import emitted, parse, calls_of
from .p_equiv import text, rnd

MCS = "SPECIFICATION Spec\nCONSTANTS\n NVar=%d\n MaxLen=%d\n Prime=%d\nINVARIANTS Kernel Factored\nPROPERTIES Emit\nCHECK_DEADLOCK FALSE\n"

def call(d, ev, line):
    try: r = d.call(line)
    except lib.Crash: r = {"op": line.split()[0], "res": -2, "post": {}}
    ev.append(dict(r, line=line)); return r["res"] != -2
def hexs(n, v): return "%0*x" % (max(1, (1 << n) // 4), v)
def ask(op, n, v, leaves, x=0, y=0, lev=()): return "%s %d %s %d %d %s %s" % (op, n, hexs(n, v), x, y, " ".join(map(str, leaves)), " ".join(map(str, lev)))
def calls(lines):
    def work(d):
        ev = []
        for l in lines:
            if not call(d, ev, l): break
        return ev
    return work
def replayer(exe, eps):
    def f(i):
        d = lib.Driver(exe)
        try: return calls([e["line"] for e in eps[i]])(d)
        finally: d.stop()
    return f

def cover(n, F):
    """the function of a cover of literal lists"""
    v = 0
    for a in range(1 << n):
        if any(all((a >> (l >> 1) & 1) == (l & 1) for l in c) for c in F): v |= 1 << a
    return v
def rfun(rng, n):
    """functions with algebraic structure: sums of few products, products of sums, and arbitrary ones"""
    m = (1 << (1 << n)) - 1; x = rng.random()
    if x < .25: v = rng.getrandbits(1 << n)
    elif x < .3: v = rng.choice([0, m])
    else:
        F = []
        for _ in range(rng.randrange(1, 4)):
            G = []
            for _ in range(rng.randrange(1, 5)):
                vs = rng.sample(range(n), min(n, rng.randrange(1, 5))) if n else []
                G.append([2 * i + rng.randrange(2) for i in vs])
            F.append(cover(n, G))
        v = F[0]
        for f in F[1:]: v = v & f if rng.random() < .6 else v | f if rng.random() < .7 else v ^ f
    return v if rng.random() < .5 else v ^ m
def lits(rng, size, n, npi): return [2 * (rng.randrange(1, npi + 1) if rng.random() < .4 else rng.randrange(0 if rng.random() < .1 else 1, size)) + rng.randrange(2) for _ in range(n)]
def sizeof(ops): return 1 + sum(o[0] != "po" for o in ops)

def mixed(rng):
    """several requests over the literals of a random network"""
    npi = rng.choice([2, 3, 4, 5, 6]); ops = rnd(rng, "aig", npi, rng.randrange(0, 7), rng.randrange(0, 2)); L = ["net " + text(ops)]
    def work(d):
        ev = []
        if not call(d, ev, L[0]): return ev
        for _ in range(rng.randrange(2, 7)):
            size = ev[-1]["post"]["size"]; op = rng.choice(["fact", "npn", "reb", "fact", "reb"]); n = rng.randrange(0 if rng.random() < .1 else 1, 5 if op == "npn" else 7)
            lv = lits(rng, size, n, npi); v = rfun(rng, n)
            if op == "reb":
                m = {}; l = [m.setdefault(x >> 1, rng.randrange(6)) for x in lv]
                line = ask(op, n, v, lv, rng.choice([1000000, 1000000, rng.randrange(8)]), rng.randrange(12), l)
            else: line = ask(op, n, v, lv, rng.choice([0, 0, 1, 2]) if op == "npn" else 0)
            if not call(d, ev, line): break
        return ev
    return work
def table(fs, op, rng):
    """functions of four inputs, in a fresh network of inputs only"""
    ls = [2 * i for i in range(1, 5)]; L = ["net " + text([["pi"]] * 4)]
    for v in fs:
        l = [x + rng.randrange(2) for x in ls]
        if rng.random() < .5: rng.shuffle(l)
        L.append(ask(op, 4, v, l, *((1000000, 0, [rng.randrange(4) for _ in range(4)]) if op == "reb" else (0,))))
    return calls(L)
def big(rng):
    n = rng.choice([6, 7, 7, 8, 8, 9]); l = [2 * i + rng.randrange(2) for i in range(1, n + 1)]; rng.shuffle(l); op = rng.choice(["fact", "fact", "reb"])
    return calls(["net " + text([["pi"]] * n), ask(op, n, rfun(rng, n), l, *((1000000, 0, [rng.randrange(4) for _ in range(n)]) if op == "reb" else (0,)))])
def balance(rng):
    npi = rng.choice([2, 3, 4, 5, 6]); ops = rnd(rng, "aig", npi, rng.randrange(1, 22), rng.randrange(1, 4))
    return calls(["net " + text(ops)] + ["balance %d %d %d %d" % (rng.randrange(2, 7), rng.choice([2, 3, 5, 8, 15, 25]), int(rng.random() < .3), int(rng.random() < .3)) for _ in range(rng.randrange(1, 3))])

def resyn(ctx):
    """V24"""
    exe = build.driver("resynx", "asan"); rng = ctx.rng; q = ctx.quick; R = lambda: random.Random(rng.random()); tasks = []
    for n, k, p in ([(2, 4, 0), (3, 3, 0), (3, 4, 1)] if q else [(2, 6, 0), (3, 4, 0), (3, 5, 1)]):
        fs = sorted({cover(n, F) for F in parse(emitted(ctx, "MCSop", MCS % (n, k, p), timeout=850))})
        for op in ("fact", "reb"):
            for i in range(0, len(fs), 8):
                tasks.append(calls(["net " + text([["pi"]] * n)] + [ask(op, n, v, [2 * j for j in range(1, n + 1)], *((1000000, 0, [rng.randrange(3) for _ in range(n)]) if op == "reb" else (0,))) for v in fs[i:i + 8]]))
    alls = list(range(65536)); rng.shuffle(alls)
    for op, m in (("npn", 2400 if q else 65536), ("fact", 1600 if q else 65536), ("reb", 800 if q else 65536)):
        tasks += [table(alls[i:i + 8], op, R()) for i in range(0, m, 8)]
    tasks += [mixed(R()) for _ in range(500 if q else 10000)] + [big(R()) for _ in range(80 if q else 1500)] + [balance(R()) for _ in range(400 if q else 8000)]
    rng.shuffle(tasks)
    lib.campaign(ctx, "ResynTrace", exe, tasks, replayer, lambda ev, l: calls_of(ev, l), maxev=1200)

CHECKS = {"V24": resyn}
