"""M10: cuts, cut sets, enumeration, the truth table cache."""
import random
from . import build, lib
from .p_lib import emitted, parse, calls_of
from .p_equiv import text, rnd

MCS = "SPECIFICATION Spec\nCONSTANTS\n Leaves = {%s}\n Cap=%d\n MaxCalls=%d\n MaxLen=%d\nVIEW NoPath\nINVARIANTS Pure Bounded\nPROPERTIES Emit\nCHECK_DEADLOCK FALSE\n"
MCN = "SPECIFICATION Spec\nCONSTANTS\n NPi=%d\n MaxGate=%d\n K=%d\nVIEW NoPath\nINVARIANTS Exact\nPROPERTIES Emit\nCHECK_DEADLOCK FALSE\n"

def fmt(c): return "%d %s" % (len(c), " ".join(map(str, c))) if c else "0"
def call(d, ev, line, **crash):
    try: r = d.call(line)
    except lib.Crash: r = dict(crash, op=line.split()[0], res=-2, set=[], size=0, args=[0], cut=[], d=0)
    ev.append(dict(r, line=line)); return r
def op(d, ev, o, n=0, cut=()): return call(d, ev, "%s %d %s" % (o, n, fmt(sorted(cut))))

MAPS = [lambda x: x, lambda x: 64 * x + 1, lambda x: 3 * x + 64 * (x % 2), lambda x: [5, 69, 6, 70, 133, 7, 71, 8, 4096, 4101][x % 10] + 10000 * (x // 10)]
def setpath(p, cap, m):
    """a cut-set history of the specification, leaves renamed (renamings with equal leaf signatures included)"""
    def work(d):
        ev = []; op(d, ev, "new", cap)
        for i, c in enumerate(p):
            r = op(d, ev, "ins", i, [m(x) for x in c[1]]) if c[0] == "ins" else op(d, ev, c[0], c[1])
            if r["res"] == -2: return ev
        return ev
    return work
def sethistory(rng):
    def work(d):
        ev = []; cap = rng.choice([1, 2, 3, 4, 6, 26]); r = op(d, ev, "new", cap); univ = rng.choice([4, 6, 9]); m = rng.choice(MAPS); disciplined = rng.random() < .5
        def rc(): return sorted({m(x) for x in rng.sample(range(univ), rng.choice([0, 1, 1, 2, 2, 3, 3, 4]))}) if rng.random() < .97 else []
        for i in range(rng.randrange(5, 45)):
            s = r["set"]; x = rng.random()
            if x < .5:
                c = rc()
                if disciplined and any(set(t["c"]) <= set(c) for t in s): continue
                r = op(d, ev, "ins", i, c)
            elif x < .6: r = op(d, ev, "isdom", 0, rc())
            elif x < .66 and len(s) < cap: r = op(d, ev, "add", i, rc())
            elif x < .72 and s: r = op(d, ev, "best", rng.randrange(len(s)))
            elif x < .8 and s: r = op(d, ev, "rem", rng.randrange(len(s)))
            elif x < .84: r = op(d, ev, "limit", rng.randrange(1, 8))
            elif x < .86 and s: r = op(d, ev, "resize", rng.randrange(len(s) + 1))
            elif x < .88: r = op(d, ev, "clear")
            else:
                u = [sorted({m(y) for y in rng.sample(range(univ), rng.choice([0, 1, 2, 3, 3, 4]))}) for _ in range(2)]
                if rng.random() < .3: u[1] = sorted(set(u[0]) | set(u[1][:1]))
                if rng.random() < .2: u[0] = sorted(set(u[1]) - set(u[1][:1]))
                k = rng.choice([2, 3, 4, 5, 6, 7]); u = [z[:k] for z in u]
                r = call(d, ev, "pair %d %s %s" % (k, fmt(u[0]), fmt(u[1])), a=u[0], b=u[1])
            if r["res"] == -2: return ev
        return ev
    return work

def enumerate_(ops, confs):
    def work(d):
        ev = []
        for k, p, mi, t in confs:
            e = dict(k=k, p=p, min=mi, truth=t)
            try:
                d.call("net " + text(ops)); r = d.call("enum %d %d %d %d" % (k, p, mi, t))
            except lib.Crash: r = dict(op="enum", res=-2)
            ev.append(dict(r, **e, line="net %s|enum %d %d %d %d" % (text(ops), k, p, mi, t)))
            if r["res"] == -2: break
        return ev
    return work
def renum(rng, big):
    npi = rng.choice([2, 3, 4, 5, 6]); ng = rng.randrange(3, 26 if big else 14); ops = rnd(rng, "aig", npi, ng, 0)
    kp = lambda: (rng.choice([2, 3, 4, 4, 5, 6] + ([7] if ng < 10 else [])), rng.choice([2, 3, 4, 5, 8, 10, 15, 20, 25, 25, 25]), int(rng.random() < .2), 1)
    return enumerate_(ops, [kp() for _ in range(rng.choice([1, 2]))] + ([(4, 25, 0, 0)] if rng.random() < .2 else []))
def reconv(rng):
    """few nodes, much reconvergence: many cuts, limits reached"""
    npi = rng.choice([3, 4, 5, 6]); ops = [["pi"] for _ in range(npi)]; n = npi + 1
    for _ in range(rng.randrange(4, 12)):
        a, b = rng.sample(range(max(1, n - 4), n), 2) if n > 4 else rng.sample(range(1, n), 2)
        ops.append(["and", 2 * a + rng.randrange(2), 2 * b + rng.randrange(2)]); n += 1
    return enumerate_(ops, [(rng.choice([3, 4, 5, 6]), rng.choice([3, 4, 6, 10, 25]), int(rng.random() < .15), 1) for _ in range(2)])

def cachehistory(rng):
    def work(d):
        ev = []; call(d, ev, "cnew"); pool = []
        for _ in range(rng.randrange(5, 40)):
            if pool and rng.random() < .5:
                n, v = rng.choice(pool)
                if rng.random() < .4: v ^= (1 << (1 << n)) - 1
                if rng.random() < .15: v ^= 1 << rng.randrange(1 << n)
                if rng.random() < .15 and n < 6: v |= v << (1 << n); n += 1
            else: n = rng.randrange(0, 8); v = rng.choice([0, (1 << (1 << n)) - 1, rng.getrandbits(1 << n)])
            pool.append((n, v))
            r = call(d, ev, "cache %d %0*x" % (n, max(1, (1 << n) // 4), v))
            if r["res"] == -2: return ev
        return ev
    return work
def replayer(exe, eps):
    def f(i):
        d = lib.Driver(exe); ev = []
        try:
            for e in eps[i]:
                if e["op"] == "enum":
                    n, c = e["line"].split("|")
                    try: d.call(n); r = d.call(c)
                    except lib.Crash: r = dict(op="enum", res=-2)
                    ev.append(dict(r, **{k: e[k] for k in ("k", "p", "min", "truth", "line")}))
                else: call(d, ev, e["line"], **{k: e[k] for k in ("a", "b") if k in e})
                if ev[-1]["res"] == -2 and ev[-1]["op"] != "cnew": break
        finally: d.stop()
        return ev
    return f

def cuts(ctx):
    """M10"""
    exe = build.driver("cutx", "asan"); rng = ctx.rng; q = ctx.quick; R = lambda: random.Random(rng.random())
    tasks = []
    for conf in ([("1,2,3", 2, 3, 2), ("1,2,3", 3, 3, 2)] if q else [("1,2,3", 3, 4, 2), ("1,2,3", 2, 4, 2), ("1,2,3,4", 4, 3, 3)]):
        ps = parse(rng.sample(*(lambda x: (x, min(len(x), 700 if q else 6000)))(emitted(ctx, "MCCuts", MCS % conf, timeout=800))))
        tasks += [setpath(p, conf[1], rng.choice(MAPS)) for p in ps]
    for conf in ([(2, 4, 3), (3, 3, 2), (3, 3, 4)] if q else [(2, 4, 2), (2, 5, 3), (3, 4, 3), (3, 4, 4)]):
        ps = parse(rng.sample(*(lambda x: (x, min(len(x), 150 if q else 2000)))(emitted(ctx, "MCCutEnum", MCN % conf, timeout=800))))
        tasks += [enumerate_([["pi"]] * conf[0] + p, [(max(conf[2], 2), 25, 0, 1), (4, rng.choice([2, 3, 4]), 0, 1), (4, 25, 1, 1)]) for p in ps]
    tasks += [sethistory(R()) for _ in range(800 if q else 15000)] + [cachehistory(R()) for _ in range(80 if q else 1500)]
    tasks += [renum(R(), not q) for _ in range(250 if q else 5000)] + [reconv(R()) for _ in range(150 if q else 3000)]
    rng.shuffle(tasks)
    lib.campaign(ctx, "CutsTrace", exe, tasks, replayer, lambda ev, l: calls_of(ev, l) if ev[l]["op"] != "enum" else ev[l]["line"][:300], maxev=1200)

CHECKS = {"M10": cuts}
