"""N29: reading a network (lists, indices, registers, values, marks, cones, node maps); V30: clause encodings."""
import random
from . import build, lib
from .p_lib import emitted, parse

MCA = "SPECIFICATION Spec\nCONSTANTS\n NPi=%d\n MaxRo=%d\n MaxGate=%d\n MaxOut=%d\n MaxUse=%d\n MaxMap=%d\nVIEW NoPath\nINVARIANTS Dominated Balance Back\nPROPERTIES Emit\nCHECK_DEADLOCK FALSE\n"

class Net:
    """the driver's network; knows what it has to in order to stay within the specification"""
    def __init__(s, d, kind): s.d, s.kind, s.ev, s.dead, s.rm, s.cone, s.maps = d, kind, [], False, set(), False, []; s.do("begin", kind)
    def do(s, op, *a):
        if s.dead: return None
        line = " ".join(map(str, (op,) + a))
        try: r = s.d.call(line)
        except lib.Crash: r = dict(op=op, kind=s.kind, a=list(a), res=-2, seen=[], maps=[], clauses=[], lits=[], olits=[], back=0, post=s.post if s.ev else {})
        s.ev.append(dict(r, line=line)); s.dead = r["res"] == -2; s.post = r["post"]
        if op in ("pi", "ro", "po", "ri", "and", "xor", "node", "subst", "setval", "incval", "decval", "clrval"): s.cone, s.rm = False, set()
        elif op == "reset": s.cone, s.rm = True, set()
        elif op == "deref": s.rm.add(a[0])
        elif op == "ref": s.rm.discard(a[0])
        return r
    def node(s, l): return l >> 1 if s.kind == 0 else l
    def size(s): return len(s.post["fi"])
    def nodes(s): return [n for n in range(s.size()) if not s.post["dead"][n]]
    def gates(s): return [n for n in s.nodes() if n > s.kind and not s.post["isci"][n]]
    def lits(s): return [l for n in s.nodes() for l in ((2 * n, 2 * n + 1) if s.kind == 0 else (n,))]
    def cis(s): return len(s.post["cis"])
    def lit(s, rng):
        L = s.lits(); return rng.choice(L[-12:] if rng.random() < .6 else L)
    def gone(s, R):
        """what letting go of R takes with it"""
        out, cut, todo = set(), {}, list(R); fi, refs = s.post["fi"], s.post["refs"]; g = set(s.gates())
        while todo:
            n = todo.pop()
            if n in out: continue
            out.add(n)
            for l in fi[n]:
                x = s.node(l); cut[x] = cut.get(x, 0) + 1
                if x in g and cut[x] == refs[x] and x not in out: todo.append(x)
        return out
    def below(s, n):
        out, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x not in out: out.add(x); todo += [s.node(l) for l in s.post["fi"][x]]
        return out

def grow(x, rng, npi, ng, nro=0):
    for _ in range(npi): x.do("pi")
    for _ in range(nro): x.do("ro")
    for _ in range(ng):
        if x.dead: return
        if x.kind == 1 and rng.random() < .7:
            k = rng.randrange(1, 5); x.do("node", "x%0*x" % (max(1, (1 << k) // 4), rng.getrandbits(1 << k)), *[x.lit(rng) for _ in range(k)])
        else: x.do("xor" if rng.random() < .25 else "and", x.lit(rng), x.lit(rng))
def outs(x, rng, npo, nri=0):
    for _ in range(npo): x.dead or x.do("po", x.lit(rng))
    for _ in range(nri): x.dead or x.do("ri", x.lit(rng), rng.choice([0, 1, 1, 3]))
LISTS = ["node", "gate", "ci", "pi", "ro", "co", "po", "ri", "fanin", "reg"]
def walk(x, rng):
    w = rng.choice(LISTS); reg = x.cis() - x.post["npi"] == len(x.post["cos"]) - x.post["npo"]
    if w == "reg" and not reg: w = "fanin"
    n = rng.choice(x.gates() or [0]) if rng.random() < .8 else rng.choice(x.nodes())
    x.do("walk", w, rng.randrange(4), rng.choice([0, 1, 1, 2, 3, 5]), n)
def mark(x, rng):
    n = rng.choice(x.nodes()); r = rng.random()
    if r < .2: x.do("setval", n, rng.choice([0, 1, 2, 7, 1 << 20]))
    elif r < .35: x.do("incval", n)
    elif r < .5: x.post["val"][n] and x.do("decval", n)
    elif r < .55: x.do("clrval")
    elif r < .7: x.do("setvis", n, rng.choice([0, 1, 5, x.post["trav"]]))
    elif r < .73: x.do("clrvis")
    elif r < .8: x.do("inctrav")
    elif x.kind == 0: x.do(rng.choice(["mka", "mkb", "mka", "mkb", "pha"]), n, rng.randrange(2))
def cone(x, rng):
    if not x.cone: x.do("reset"); return
    g = x.gates()
    if not g: return
    r = rng.random(); here = x.gone(x.rm); free = [n for n in g if n not in here and all(r not in x.gone((x.rm | {n}) - {r}) for r in x.rm)]; back = [n for n in x.rm if n not in x.gone(x.rm - {n})]
    if r < .3 and free: x.do("deref", rng.choice(free))
    elif r < .6 and back: x.do("ref", rng.choice(back))
    elif r < .75 and free: x.do("dsize", rng.choice(free))
    elif r < .85 and back: x.do("rsize", rng.choice(back))
    elif not x.rm: n = rng.choice(g); b = sorted(x.below(n)); x.do("csize", n, *rng.sample(b, min(len(b), rng.randrange(0, 4))))
def nmap(x, rng):
    M = x.maps; r = rng.random(); N = x.size()
    if not M or (len(M) < 5 and r < .12):
        if rng.random() < .5: x.do("mvec", rng.randrange(2), rng.randrange(1, 99)); M.append(dict(vec=True, n=[N], p=None))
        else: x.do("muno"); M.append(dict(vec=False, n=None, p=[set()]))
        return
    i = rng.randrange(len(M)); m = M[i]; n = rng.choice(x.nodes()); sg = 0 if x.kind else rng.choice([0, 0, 1, 2])
    if r < .2 and len(M) < 6:
        own = rng.randrange(2); x.do("mdup", i, own)
        M.append(dict(vec=m["vec"], n=list(m["n"]) if own and m["vec"] else m["n"], p=[set(m["p"][0])] if own and not m["vec"] else m["p"]))
    elif r < .5:
        if m["vec"] and n >= m["n"][0]: return
        x.do("mset", i, n, rng.randrange(1, 1000), sg); m["vec"] or m["p"][0].add(n)
    elif r < .75:
        if m["vec"]:
            if n < m["n"][0]: x.do("mget", i, n, sg)
        elif n in m["p"][0]: x.do("mget", i, n, sg)
        else: x.do("mhas", i, n, sg)
    elif r < .85:
        if m["vec"]: x.do("mresize", i, rng.choice([0, 5, 6])); m["n"][0] = max(m["n"][0], N)
        else: x.do("mdel", i, n); m["p"][0].discard(n)
    elif r < .9:
        x.do("mreset", i, rng.choice([0, 8]) if m["vec"] else 0)
        if m["vec"]: m["n"][0] = N
        else: m["p"][0].clear()
    else: x.do("and", x.lit(rng), x.lit(rng))
def history(rng):
    def work(d):
        x = Net(d, rng.choice([0, 0, 1])); seq = rng.random() < .4; nro = rng.choice([1, 1, 2, 3]) if seq else 0
        grow(x, rng, rng.choice([1, 2, 3, 4, 5]), rng.choice([0, 2, 5, 9, 14, 25]), nro)
        outs(x, rng, rng.choice([0, 1, 2, 3]), rng.choice([nro, nro, max(0, nro - 1)]))
        if x.dead: return x.ev
        acts = rng.choice([[walk, mark, cone, nmap], [walk], [mark, mark, walk], [cone], [nmap], [cone, walk]])
        for _ in range(rng.choice([6, 12, 25])):
            if x.dead: break
            rng.choice(acts)(x, rng)
            if not x.dead and rng.random() < .06:
                g = x.gates(); r = rng.random()
                if r < .4 and g and x.kind == 0:
                    n = rng.choice(g); c = [l for l in x.lits() if n not in x.below(l >> 1)]
                    if c: x.do("subst", n, rng.choice(c))
                elif r < .7: x.do("and", x.lit(rng), x.lit(rng))
                elif r < .8 and x.cis() == x.post["npi"]: x.do("pi")
                elif r < .9 and len(x.post["cos"]) == x.post["npo"]: x.do("po", x.lit(rng))
                else: x.do("ri", x.lit(rng), 0)
        return x.ev
    return work
def of_path(p):
    def work(d):
        x = Net(d, 0)
        for c in p: x.do(*c)
        for w in (["ci", "co", "gate"] if not x.dead else []): x.do("walk", w, 3, 2, 0)
        return x.ev
    return work
def encode(rng):
    def work(d):
        x = Net(d, rng.choice([0, 0, 1])); big = rng.random() < .35
        grow(x, rng, rng.choice([1, 2, 3, 4, 5, 6]) if not big else rng.choice([5, 6, 7, 8]), rng.choice([0, 1, 2, 3, 4, 5]) if not big else rng.choice([12, 20, 35]))
        outs(x, rng, rng.choice([1, 1, 2, 3]))
        for _ in range(rng.choice([1, 2, 3])):
            if x.dead: break
            if x.kind == 0 and rng.random() < .3:
                g = x.gates()
                if g:
                    n = rng.choice(g); c = [l for l in x.lits() if n not in x.below(l >> 1)]
                    if c: x.do("subst", n, rng.choice(c))
            if not x.dead: x.do("cnf", rng.randrange(4), x.cis() + 1 + rng.choice([0, 0, 1, 5, 100]))
        return x.ev
    return work
def every4(funcs):
    """all functions of a few variables as one node: the general encoding"""
    def work(d):
        x = Net(d, 1)
        for _ in range(4): x.do("pi")
        for k, f in funcs: x.do("node", "x%0*x" % (max(1, (1 << k) // 4), f), *range(2, 2 + k))
        x.do("po", x.size() - 1); x.do("cnf", 0, 9); x.do("cnf", 3, 9); return x.ev
    return work
def replayer(exe, eps):
    def f(i):
        d = lib.Driver(exe)
        try:
            x = Net(d, eps[i][0]["kind"])
            for e in eps[i][1:]: x.do(*e["line"].split())
            return x.ev
        finally: d.stop()
    return f
def key(ev, l): return "; ".join(e["line"] for e in ev[:l + 1])[-400:]
def access(ctx):
    """N29"""
    exe = build.driver("accx", "asan"); rng = ctx.rng; q = ctx.quick; R = lambda: random.Random(rng.random())
    ps = emitted(ctx, "MCAccess", MCA % (2, 1, 2, 1, 3, 3 if q else 4), timeout=600)
    tasks = [of_path(p) for p in parse(rng.sample(ps, min(len(ps), 400 if q else 2000)))]
    tasks += [history(R()) for _ in range(700 if q else 3000)]; rng.shuffle(tasks)
    lib.campaign(ctx, "AccessTrace", exe, tasks, replayer, key, maxev=1500)
def encodings(ctx):
    """V30"""
    exe = build.driver("accx", "asan"); rng = ctx.rng; q = ctx.quick; R = lambda: random.Random(rng.random())
    emitted(ctx, "MCAccess", MCA % (2, 0, 2, 1, 1, 1), timeout=300)
    fs = [(k, f) for k in (1, 2, 3) for f in range(1 << (1 << k))]; fs += [(4, f) for f in (rng.sample(range(65536), 400) if q else range(0, 65536, 13))]
    tasks = [every4([f]) for f in fs] + [encode(R()) for _ in range(700 if q else 3000)]; rng.shuffle(tasks)
    lib.campaign(ctx, "AccessTrace", exe, tasks, replayer, key, maxev=600)
CHECKS = {"N29": access, "V30": encodings}
