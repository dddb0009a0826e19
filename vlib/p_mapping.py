"""M28: mapping views, the mapper, conversions and checkers of mapped networks."""
import os, random, tempfile
from . import build, lib
from .p_lib import emitted, parse
from .p_equiv import text, rnd, same

MCM = "SPECIFICATION Spec\nCONSTANTS\n MaxCalls=%d\n NNet=%d\nVIEW NoPath\nINVARIANTS Compose ClosedUsed\nPROPERTIES Emit\nCHECK_DEADLOCK FALSE\n"

class Views:
    """a driver and what it showed; every call is recorded"""
    def __init__(s, d): s.d, s.ev, s.lines, s.dead = d, [], [], False
    def silent(s, ln): s.lines.append(ln); s.d.call(ln)
    def do(s, ln):
        s.lines.append(ln)
        try: r = s.d.call(ln)
        except lib.Crash: r = dict(op=ln.split()[0], res=-2, v=int((ln.split() + ["0"])[1]) if not ln.startswith("begin") else 0, how=int(ln.split()[-1]) if ln.split()[0] in ("klut", "check") else 0, n=0, l=[], k=0, tt=[0])
        if r["op"] == "begin": s.net = r.get("post")
        s.ev.append(dict(r, line=ln)); s.dead = r["res"] == -2; s.views = r.get("views", [])
        return r
    def done(s): s.ev[0]["script"] = s.lines; return s.ev
def run(d, lines):
    x = Views(d)
    for ln in lines:
        if ln.startswith("net"): x.silent(ln)
        else: x.do(ln)
        if x.dead: break
    return x.done()

# ------------------------------------------------------------------ what the driver needs to know to stay within the specification
def tfi(net, n):
    s, st = set(), [n]
    while st:
        x = st.pop()
        if x in s: continue
        s.add(x); st += [l >> 1 for l in net["fi"][x]]
    return s
def legal(net, v):
    """(drivers have cells, conversions in index order are meaningful, those in the network's order too)"""
    g = [bool(f) for f in net["fi"]]; roots = {n for n, r in enumerate(v["root"]) if r}; ins = set(net["pis"]); dr = {l >> 1 for l in net["outs"] if g[l >> 1]}
    ok = dr <= roots and all(g[n] and v["lv"][n] and len(set(v["lv"][n])) == len(v["lv"][n]) == v["fn"][n][0] and all(0 < x < n and (x in ins or x in roots) for x in v["lv"][n]) for n in roots)
    return dr <= roots, ok, ok and all(set(v["lv"][n]) <= tfi(net, n) for n in roots)
def local(net, n, L):
    """the function of n over L, None if L does not cut it off"""
    k = len(L); m = (1 << (1 << k)) - 1; val = {}
    for j, x in enumerate(L): val[x] = sum(((i >> j) & 1) << i for i in range(1 << k))
    val.setdefault(0, 0)
    def f(x):
        if x not in val:
            if not net["fi"][x]: raise KeyError
            a, b = [f(l >> 1) ^ (m if l & 1 else 0) for l in net["fi"][x]]; val[x] = a & b
        return val[x]
    try: return f(n)
    except KeyError: return None
def words(t, k): return "%0*x" % (max(1, (1 << k) // 4), t)
def put(x, rng, v, n, L, wrong=False, order=True):
    L = list(L)
    if not order: rng.shuffle(L)
    t = local(x.net, n, L)
    if t is None: t = rng.getrandbits(1 << len(L))
    if wrong: t ^= 1 << rng.randrange(1 << len(L))
    x.do("add %d %d %d %s" % (v, n, len(L), " ".join(map(str, L))))
    if not x.dead: x.do("setf %d %d %d %s" % (v, n, len(L), words(t, len(L))))
def reads(x, rng, v, share=1.0):
    """conversions and checks of view v, as far as they are meaningful"""
    if x.dead or not x.views: return
    d, order, cone = legal(x.net, x.views[v - 1])
    todo = []
    if not d: todo = ["klut %d %d" % (v, h) for h in range(4)]
    elif order: todo = ["klut %d 1" % v, "klut %d 3" % v, "aig %d" % v, "check %d 0" % v, "check %d 1" % v, "check %d 2" % v] + (["klut %d 0" % v, "klut %d 2" % v] if cone else [])
    for ln in todo:
        if rng.random() < share and not x.dead: x.do(ln)
def randcut(net, rng, n, k):
    """leaves that cut n off: expand from {n}"""
    L = {l >> 1 for l in net["fi"][n]}
    for _ in range(rng.randrange(0, 8)):
        c = [x for x in L if net["fi"][x] and len(L - {x} | {l >> 1 for l in net["fi"][x]}) <= k]
        if not c: break
        x = rng.choice(c); L = L - {x} | {l >> 1 for l in net["fi"][x]}
    return sorted(L)
def cover(x, rng, v, k, wrong=0.0, full=False):
    """cells for everything the outputs need (or every gate)"""
    net = x.net; need = [l >> 1 for l in net["outs"] if net["fi"][l >> 1]]; seen = set()
    if full: need = [n for n, f in enumerate(net["fi"]) if f]
    while need and not x.dead:
        n = need.pop()
        if n in seen: continue
        seen.add(n); L = randcut(net, rng, n, k)
        if 0 in L: continue
        put(x, rng, v, n, L, rng.random() < wrong, rng.random() < .5); need += [y for y in L if net["fi"][y]]
def kp(rng): return rng.choice([2, 3, 4, 5, 6, 6]), rng.choice([2, 3, 4, 6, 8, 10, 12, 20])

def of_path(p, seed):
    """a history of the specification, then everything that can be read"""
    def work(d):
        rng = random.Random(seed); x = Views(d); net = p["net"]
        x.silent("net " + text([["pi"]] * len(net["pis"]) + [["and"] + f for f in net["fi"] if f] + [["po", l] for l in net["outs"]]))
        x.do("begin 0"); x.do("new 0")
        for c in p["path"]:
            if x.dead: break
            if c["op"] == "add": x.do("add %d %d %d %s" % (c["v"], c["n"], len(c["l"]), " ".join(map(str, c["l"]))))
            elif c["op"] == "setf": x.do("setf %d %d %d %s" % (c["v"], c["n"], c["k"], words(c["tt"][0] & ((1 << (1 << c["k"])) - 1), c["k"])))
            elif c["op"] == "rem": x.do("rem %d %d" % (c["v"], c["n"]))
            else: x.do("%s %d" % (c["op"], c["v"]))
        for v in range(1, len(x.views) + 1): reads(x, rng, v)
        return x.done()
    return work
def dags(rng):
    npi = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7]); ng = rng.choice([1, 2, 4, 6, 9, 12, 16, 22, 30]); return rnd(rng, "aig", npi, ng, rng.choice([1, 1, 2, 3, 5]))
def history(rng):
    def work(d):
        x = Views(d); ops = dags(rng); x.silent("net " + text(ops)); how = 0
        if rng.random() < .3:
            how = 1
            for _ in range(rng.choice([0, 1, 1, 2])): x.silent("net " + text(same(rng, ops, "aig")))
        x.do("begin %d" % how)
        if x.dead: return x.done()
        x.do("new 0"); g = [n for n, f in enumerate(x.net["fi"]) if f]
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            if x.dead: break
            v = rng.randrange(1, len(x.views) + 1); r = rng.random()
            if r < .4: x.do("map %d %d %d %d" % (v, *kp(rng), how))
            elif r < .55: x.do("clear %d" % v); x.dead or cover(x, rng, v, rng.choice([2, 3, 4, 6]), rng.choice([0, 0, .1]), rng.random() < .15)
            elif r < .6: x.do("%s %d" % (rng.choice(["copy", "new"]), v)) if len(x.views) < 3 else None
            elif r < .65: x.do("clear %d" % v)
            elif g and r < .8:
                n = rng.choice(g); L = randcut(x.net, rng, n, 6); 0 in L or put(x, rng, v, n, L, rng.random() < .3, rng.random() < .5)
            elif g and r < .9:
                roots = [n for n in g if x.views[v - 1]["root"][n]]; x.do("rem %d %d" % (v, rng.choice(roots if roots and rng.random() < .8 else g)))
            elif g:   # any leaves at all, then a function of that many variables
                n = rng.choice(g); L = rng.sample(range(1, n), min(n - 1, rng.randrange(1, 5))); put(x, rng, v, n, L, order=False)
            for w in range(1, len(x.views) + 1): reads(x, rng, w, .6)
        return x.done()
    return work
def replayer(exe, eps):
    def f(i):
        d = lib.Driver(exe)
        try: return run(d, eps[i][0]["script"])
        finally: d.stop()
    return f
def mapping(ctx):
    """M28"""
    exe = build.driver("mapx", "asan"); rng = ctx.rng; q = ctx.quick; R = lambda: random.Random(rng.random()); tasks = []
    for c in ([(3, 2)] if q else [(4, 3)]):
        ps = emitted(ctx, "MCMapping", MCM % c, timeout=800); tasks += [of_path(p, rng.random()) for p in parse(rng.sample(ps, min(len(ps), 300 if q else 5000)))]
    tasks += [history(R()) for _ in range(400 if q else 9000)]; rng.shuffle(tasks)
    with tempfile.TemporaryDirectory() as scratch:
        os.environ["MAPX_DIR"] = scratch
        lib.campaign(ctx, "MappingTrace", exe, tasks, replayer, lambda ev, l: "; ".join(ev[0]["script"])[:400], maxev=800)

CHECKS = {"M28": mapping}
