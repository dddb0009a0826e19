"""V23: miters, equivalence checking, simulators, the circuit validator."""
import random
from . import build, lib, tlc
from .p_lib import do, redo, calls_of, emitted, parse, replayer, history, khistory, EMPTY, values, live_lits, subok, ARITY

MCE = "SPECIFICATION Spec\nCONSTANTS\n MaxPi=%d\n MaxGate=%d\n MaxAsk=%d\n Total=%d\nVIEW View\nINVARIANTS Truth Closed\nPROPERTIES Emit\nCHECK_DEADLOCK FALSE\n"
MCM = "SPECIFICATION Spec\nCONSTANTS\n NPi=%d\n MaxGateA=%d\n MaxGateB=%d\nVIEW Pair\nINVARIANTS Exact\nPROPERTIES Emit\nCHECK_DEADLOCK FALSE\n"

# ------------------------------------------------------------------ pairs of networks, as calls on registers
def text(ops): return ";".join(" ".join(map(str, o)) for o in ops)
def pair(d, ka, a, kb, b, dest):
    try:
        d.call("net 0 %s %s" % (ka, text(a))); d.call("net 1 %s %s" % (kb, text(b))); r = d.call("equiv " + dest)
    except lib.Crash: r = {"op": "equiv", "res": -2}
    return [dict(r, args=[], line="equiv %s | %s | %s | %s | %s" % (dest, ka, text(a), kb, text(b)), src=[ka, a, kb, b, dest])]
def of_path(p):
    ops = [["pi"], ["pi"]] if True else []
    for c in p: ops.append(list(c))
    return ops
def rnd(rng, kind, npi, ng, npo):
    ops = [["pi"] for _ in range(npi)]; n = npi + 1
    def l(): return 2 * (rng.randrange(max(0, n - 6), n) if rng.random() < .6 else rng.randrange(n)) + rng.randrange(2)
    for _ in range(ng):
        if kind == "klut" and rng.random() < .6:
            k = rng.randrange(1, 5); ops.append(["node"] + [l() for _ in range(k)] + ["x%0*x" % (max(1, (1 << k) // 4), rng.getrandbits(1 << k))])
        else:
            op = rng.choice(["and", "and", "and", "or", "xor", "maj", "ite"]); ops.append([op] + [l() for _ in range(3 if op in ("maj", "ite") else 2)])
        n += 1
    for _ in range(npo): ops.append(["po", l()])
    return ops
def same(rng, ops, kind):
    """other calls that build the same functions: gates expanded and permuted, redundancies added"""
    out, m = [], {0: 0}; n = 1
    def emit(*c):
        nonlocal n
        out.append(list(c)); n += 1
        return 2 * (n - 1)
    def t(l): return m[l >> 1] ^ (l & 1)
    k = 1
    for o in ops:
        if o[0] == "pi": m[k] = emit("pi"); k += 1; continue
        if o[0] == "po": out.append(["po", t(o[1])]); continue
        hexs = [x for x in o[1:] if isinstance(x, str)]; a = [t(x) for x in o[1:] if not isinstance(x, str)]; r = rng.random()
        if o[0] == "node": m[k] = emit("node", *a, *hexs); k += 1; continue
        if o[0] == "and":
            x, y = a
            if r < .2: v = emit("and", x, emit("and", y, x))
            elif r < .4: v = emit("or", x ^ 1, y ^ 1) ^ 1
            elif r < .6: v = emit("and", x, emit("or", y, x ^ 1))
            elif r < .7: v = emit("ite", x, y, 0)
            elif r < .8 and out: z = 2 * rng.randrange(n); v = emit("and", emit("and", x, y), emit("or", x, z))
            else: v = emit("and", y, x)
        elif o[0] == "or":
            x, y = a
            v = emit("and", x ^ 1, y ^ 1) ^ 1 if r < .4 else emit("ite", x, 1, y) if r < .6 else emit("or", y, x)
        elif o[0] == "xor":
            x, y = a
            v = emit("or", emit("and", x, y ^ 1), emit("and", y, x ^ 1)) if r < .4 else emit("and", emit("or", x, y), emit("and", x, y) ^ 1) if r < .7 else emit("xor", x ^ 1, y) ^ 1
        elif o[0] == "maj":
            x, y, z = a
            v = emit("or", emit("and", x, y), emit("and", z, emit("or", x, y))) if r < .3 else emit("maj", z, x, y) if r < .6 else emit("ite", emit("xor", x, y), z, x) if r < .8 else emit("maj", x ^ 1, y ^ 1, z ^ 1) ^ 1
        else:
            x, y, z = a
            v = emit("or", emit("and", x, y), emit("and", x ^ 1, z)) if r < .4 else emit("ite", x ^ 1, z, y)
        m[k] = v; k += 1
    return out
def minterm(rng, ops):
    """one output differs on one assignment (of some inputs)"""
    npi = sum(o[0] == "pi" for o in ops); pos = [i for i, o in enumerate(ops) if o[0] == "po"]
    if not pos: return ops
    n = 1 + sum(o[0] != "po" for o in ops); i = rng.choice(pos); head, tail = ops[:pos[0]], [list(o) for o in ops[pos[0]:]]
    if any(o[0] != "po" for o in ops[pos[0]:]): return ops
    cur = 1
    for p in range(1, npi + 1):
        if rng.random() < .93: head.append(["and", cur, 2 * p + rng.randrange(2)]); cur = 2 * n; n += 1
    head.append(["xor", tail[i - pos[0]][1], cur]); tail[i - pos[0]][1] = 2 * n
    return head + tail
def rpair(rng):
    npi = rng.choice([0, 1, 2, 3, 4, 5, 6, 7]); npo = rng.choice([0, 1, 1, 2, 3, 5]); ka = rng.choice(["aig", "aig", "klut"])
    a = rnd(rng, ka, npi, rng.randrange(0, 25), npo); r = rng.random()
    if r < .35: kb = rng.choice([ka, "klut"]); b = same(rng, a, kb)
    elif r < .7: kb = rng.choice([ka, "klut"]); b = minterm(rng, same(rng, a, kb))
    else: kb = rng.choice(["aig", "klut"]); b = rnd(rng, kb, npi if rng.random() < .7 else rng.randrange(8), rng.randrange(0, 20), npo if rng.random() < .7 else rng.randrange(4))
    dest = "aig" if ka == kb == "aig" and rng.random() < .6 else "klut"
    return lambda d: pair(d, ka, a, kb, b, dest)

# ------------------------------------------------------------------ the validator
def vdo(d, ev, op, args, net, circuit=None):
    e = do(d, ev, op, args, net)
    e["circuit"] = circuit or {"divs": [], "gates": [], "neg": 0}
    for k in ("cex", "pats"): e.setdefault(k, [])
    return e
def vargs(op, root, c):
    a = [root, c["neg"], len(c["divs"])] + [2 * n for n in c["divs"]] + [len(c["gates"])]
    for t, f in c["gates"]: a += [t, len(f)] + f
    return a
def vpath(path, rng):
    kind, seed = rng.randrange(3), rng.randrange(5)
    def work(d):
        ev = []; vdo(d, ev, "new", [], EMPTY); net = ev[0]["post"]
        for c in path:
            op, a = c[0], list(c[1:])
            if op == "vnew": a = [kind, rng.choice([0, 3, 1000]), seed]
            if op == "gen":
                if kind == 0: op = "valc"
                else: a += [rng.randrange(1, 6)] + rng.sample(range(1 << len(net["pis"])), rng.randrange(0, 2))
            e = vdo(d, ev, op, a, net)
            if e["res"] == -2: return ev
            net = e["post"]
        return ev
    return work
def vhistory(rng):
    npi = rng.choice([1, 2, 3, 4, 4, 5, 6]); total = rng.randrange(5, 70)
    def work(d):
        ev = []; vdo(d, ev, "new", [], EMPTY); net = ev[0]["post"]; val = None; stale = False; lits = [0]
        def step(op, a, circuit=None):
            nonlocal net
            e = vdo(d, ev, op, a, net, circuit)
            if e["res"] == -2: return False
            net = e["post"]
            return True
        for _ in range(npi):
            if not step("pi", []): return ev
        def lit():
            v = [n for n in range(len(net["fi"])) if not net["dead"][n]]
            return 2 * (rng.choice(v[-6:]) if rng.random() < .5 else rng.choice(v)) + rng.randrange(2)
        for _ in range(total):
            r = rng.random()
            if r < .3 or not val:
                if r < .25 or val: op = rng.choice(["and", "and", "and", "xor", "ite", "maj", "or"]); a = [lit() for _ in range(ARITY[op])]
                else: op, a = "vnew", [rng.choice([0, 1, 1, 2]), rng.choice([0, 0, 20, 1000]), rng.randrange(9)]; val = a[0] + 1; stale = False
                if not step(op, a): return ev
                continue
            if r < .33:
                if not step("po", [lit()]): return ev
                continue
            if r < .35:
                if not step("vend", []): return ev
                val = None; continue
            if r < .39:
                o, m = lit() & ~1, lit()
                if not net["fi"][o >> 1] or not subok(net, [(o >> 1, m)]): continue
                if not step("subst", [o, m]): return ev
                stale = True
            if stale or rng.random() < .03:
                if not step("upd", []): return ev
                stale = False
            if r < .6:     # pairs that agree are rare: look for them
                f, g = lit(), lit()
                if rng.random() < .6:
                    v = values(net); c = {}
                    for n in range(len(net["fi"])):
                        if not net["dead"][n]: c.setdefault(min(v[n], ~v[n] & v[-1]), []).append(n)
                    big = [s for s in c.values() if len(s) > 1]
                    if big: x, y = rng.sample(rng.choice(big), 2); f = 2 * x; g = 2 * y + (v[x] != v[y]); k = rng.random() < .2; g ^= k
                op, a, c = rng.choice(["val", "valn"]), [f, g], None
            elif r < .72: op, a, c = rng.choice(["valc", "valnc"]), [lit(), rng.randrange(2)], None
            elif r < .86:
                divs = [lit() >> 1 for _ in range(rng.randrange(1, 4))]; gates = []; root = lit()
                if rng.random() < .5:      # the root's own structure over its fanins
                    gs = [n for n in range(len(net["fi"])) if net["fi"][n] and not net["dead"][n]]
                    if gs:
                        n = rng.choice(gs); f = net["fi"][n]; divs = [f[0] >> 1, f[1] >> 1]; gates = [[0, [f[0] & 1, 2 + (f[1] & 1)]]]; root = 2 * n
                        if rng.random() < .5: x, y = [f[0] & 1, 2 + (f[1] & 1)]; gates = [[1, [x, y]], [2, [x, y, 5]]] if rng.random() < .5 else [[2, [x, y, x]], [0, [4, y]]]
                else:
                    for k in range(rng.randrange(0, 4)):
                        t = rng.randrange(3); nf = 2 if t == 0 else 3 if t == 2 else rng.choice([2, 3]); gates.append([t, [rng.randrange(2 * (len(divs) + k)) for _ in range(nf)]])
                op = rng.choice(["valx", "valnx"]); c = {"divs": divs, "gates": gates, "neg": rng.randrange(2) if rng.random() < .3 else root & 1 if op == "valx" else 0}
                a = vargs(op, root, c)
            else:
                if val == 1: continue
                op, c = "gen", None; a = [lit(), rng.randrange(2), rng.randrange(1, 8)] + rng.sample(range(1 << npi), rng.randrange(0, min(4, 1 << npi)))
            if not step(op, a, c): return ev
        return ev
    return work
def vreplay(exe, eps):
    def f(i):
        if eps[i][0]["op"] == "equiv":
            d = lib.Driver(exe)
            try: return pair(d, *eps[i][0]["src"])
            finally: d.stop()
        d = lib.Driver(exe); ev = []; net = EMPTY
        try:
            for e in eps[i]:
                r = vdo(d, ev, e["op"], [int(x) for x in e["line"].split()[1:]], net, e["circuit"])
                if r["res"] == -2: break
                net = r["post"]
        finally: d.stop()
        return ev
    return f

# ------------------------------------------------------------------ the simulators
def shistory(rng):
    base = history(rng, rng.choice(["build", "build", "edit"]))
    def work(d):
        ev = base(d)
        if ev[-1]["res"] == -2: return ev
        net = next(e["post"] for e in reversed(ev) if e["op"] != "cleanup")
        if all(not f or net["dead"][i] or max(f) >> 1 < i for i, f in enumerate(net["fi"])): do(d, ev, "sim", [], net)
        return ev
    return work

def equiv(ctx):
    xe, xa, xk = build.driver("equivx", "asan"), build.driver("aigx", "asan"), build.driver("klutx", "asan"); rng = ctx.rng; q = ctx.quick
    R = lambda: random.Random(rng.random())
    p1 = emitted(ctx, "MCEquiv", MCE % ((2, 2, 2, 2) if q else (2, 3, 2, 2)), timeout=800)
    p2 = emitted(ctx, "MCMiter", MCM % ((2, 1, 2) if q else (2, 2, 2)), timeout=800)
    rng.shuffle(p1); rng.shuffle(p2); p1 = parse(p1[:1200 if q else 12000]); p2 = parse(p2[:1500 if q else 20000])
    tasks = [vpath(p, R()) for p in p1] + [(lambda d, p=p: pair(d, "aig", of_path(p[0]), "aig", of_path(p[1]), rng.choice(["aig", "klut"]))) for p in p2]
    tasks += [vhistory(R()) for _ in range(500 if q else 8000)] + [rpair(R()) for _ in range(1500 if q else 20000)]
    want = lambda t: t.split(".")[0] in ("equiv", "val", "valn", "valc", "valnc", "valx", "valnx", "gen", "vnew", "vend", "upd") or t.endswith(".crash")
    lib.campaign(ctx, "EquivTrace", xe, tasks, vreplay, calls_of, want, maxev=2500)
    for exe, module, mk in ((xa, "AigNetTrace", shistory), (xk, "KlutTrace", khistory)):
        lib.campaign(ctx, module, exe, [mk(R()) for _ in range(350 if q else 5000)], replayer, calls_of, lambda t: t.startswith("sim."))

CHECKS = {"V23": equiv}
