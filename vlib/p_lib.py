"""D11, D12: the AIG class."""
import random
from . import build, lib, tlc

OPS2 = ["and", "nand", "or", "nor", "lt", "le", "xor", "xnor"]
OPS3 = ["ite", "maj", "xor3"]
ARITY = {**{o: 2 for o in OPS2}, **{o: 3 for o in OPS3}, "buf": 1, "not": 1, "const": 1, "po": 1, "pi": 0, "find": 2}

def subok(net, sub):
    """the driver only issues substitutions the specification accepts (it re-checks)"""
    fi, dead = net["fi"], net["dead"]; olds = {o for o, _ in sub}; m = dict(sub)
    if len(olds) != len(sub): return False
    for o, l in sub:
        if o == 0 or o >= len(fi) or dead[o] or l >> 1 >= len(fi) or dead[l >> 1]: return False
    def r(l):
        for _ in range(len(sub)):
            if l >> 1 in m: l = m[l >> 1] ^ (l & 1)
        return l
    if any(r(2 * o) >> 1 in olds for o in olds): return False
    col = {}
    for s in range(len(fi)):
        if not fi[s] or dead[s] or s in col: continue
        st = [(s, 0)]; col[s] = 1
        while st:
            n, k = st.pop()
            if k == 2: col[n] = 2; continue
            st.append((n, k + 1)); c = r(fi[n][k]) >> 1
            if fi[c] and not dead[c]:
                if col.get(c) == 1: return False
                if c not in col: col[c] = 1; st.append((c, 0))
    return True

def do(d, ev, op, args, net, tt=None):
    """one call; the event carries whatever the driver showed"""
    line = " ".join([op] + [str(x) for x in args] + (["x" + tthex(tt, len(args))] if tt is not None else []))
    try: r = d.call(line)
    except lib.Crash as e: r = {"res": -2, "add": [], "mod": [], "del": [], "post": net, "op": op, "on": 0, "lev": [], "depth": 0, "cis": [], "ris": []}
    e = dict(r, op=op, args=[] if op == "substs" else list(args), line=line)
    if op == "substs": e["sub"] = [[args[i] >> 1, args[i + 1]] for i in range(0, len(args), 2)]
    if op in ("topo", "tkeep", "tupdate"): e["root"] = 0 if not args else args[0] >> 1 if "dead" in net else args[0]
    if tt is not None: e["tt"] = tt
    ev.append(e)
    return e
def tthex(tt, k):
    if k < 2: return "%x" % (tt[0] & 3)
    v = sum(w << (16 * i) for i, w in enumerate(tt))
    return "%0*x" % (max(1, (1 << k) // 4), v)
def redo(e): return dict(tt=e["tt"]) if "tt" in e else {}

EMPTY = {"fi": [[]], "dead": [0], "pis": [], "outs": []}
def history(rng, kind):
    """a policy: next call from the network seen so far"""
    npi = rng.choice([1, 2, 3, 3, 4, 5, 6]); ng = rng.randrange(3, 26 if kind != "build" else 16)
    def work(d):
        ev = []; do(d, ev, "new", [], EMPTY); net = ev[0]["post"]
        lits = [0]
        def arg():
            n = rng.choice(lits[-6:]) if rng.random() < .5 else rng.choice(lits)
            return n ^ rng.randrange(2)
        def step(op, args):
            nonlocal net
            e = do(d, ev, op, args, net)
            if e["res"] == -2: return False
            if op != "cleanup": net = e["post"]
            if op in ("and", "or", "xor", "ite", "maj", "pi", "nand", "nor", "lt", "le", "xnor", "xor3", "nary_and", "nary_or", "nary_xor"):
                if e["res"] >= 0 and e["res"] >> 1 < len(net["fi"]): lits.append(e["res"] & ~1)
            return True
        for _ in range(npi):
            if not step("pi", []): return ev
        while sum(1 for f in net["fi"] if f) < ng and len(ev) < 90:
            r = rng.random()
            if kind == "build" and r < .1: op, a = rng.choice(["buf", "not", "const", "find", "cleanup", "pi"]), 1
            elif r < .14: op = "po"
            elif r < .5 or kind == "edit" and r < .85: op = "and" if kind == "edit" else rng.choice(OPS2)
            elif r < .85: op = rng.choice(OPS3)
            else: op = rng.choice(["nary_and", "nary_or", "nary_xor"])
            if op == "const": a = [rng.randrange(2)]
            elif op == "pi": a = []
            elif op == "cleanup": a = [rng.randrange(2), rng.randrange(2)]
            elif op.startswith("nary"): a = [arg() for _ in range(rng.randrange(0, 5))]
            else: a = [arg() for _ in range(ARITY[op])]
            if op == "xor" and kind == "edit": op = "and"
            if not step(op, a): return ev
        for _ in range(rng.randrange(1, 4)):
            if not step("po", [arg()]): return ev
        if rng.random() < .6:     # every dangling gate becomes an output: rich fanouts
            ref = {l >> 1 for f in net["fi"] for l in f} | {l >> 1 for l in net["outs"]}
            for n in range(1, len(net["fi"])):
                if net["fi"][n] and n not in ref and len(net["outs"]) < 8:
                    if not step("po", [2 * n + rng.randrange(2)]): return ev
        if kind == "build":
            step("cleanup", [rng.randrange(2) * rng.randrange(2), rng.randrange(2) * rng.randrange(2)]); return ev
        for _ in range(rng.randrange(1, 7)):
            live = [n for n in range(1, len(net["fi"])) if not net["dead"][n]]
            gates = [n for n in live if net["fi"][n]]
            if not gates: break
            for _try in range(12):
                k = 1 if kind == "edit" or rng.random() < .3 else rng.randrange(2, 4)
                sub = []
                if rng.random() < .5:      # pairs of nodes with the same function
                    v = values(net); cls = {}
                    for n in live: cls.setdefault(min(v[n], ~v[n] & v[-1]), []).append(n)
                    pool = [(o, n) for c in cls.values() for o in c for n in c if o != n and o in gates and o != 0]
                    rng.shuffle(pool)
                    for o, n in pool:
                        if len(sub) < k and all(o != x for x, _ in sub): sub.append((o, 2 * n + (v[o] != v[n])))
                    if sub and subok(net, sub): break
                    sub = []
                for _ in range(k):
                    o = rng.choice(gates) if rng.random() < .93 else rng.choice(live)
                    r = rng.random()
                    if r < .12: n = 0
                    elif r < .3 and net["fi"][o]: n = rng.choice(net["fi"][o]) & ~1     # its own fanin
                    elif r < .4: n = rng.choice(net["pis"]) * 2
                    else: n = 2 * rng.choice(live)
                    sub.append((o, n ^ rng.randrange(2)))
                if subok(net, sub): break
            else: continue
            many = len(sub) > 1 or kind == "multi"
            if not step("substs" if many else "subst", [x for o, l in sub for x in (2 * o, l)]): return ev
            if rng.random() < .6:      # the hash table still knows every live gate
                gs = [n for n in range(len(net["fi"])) if net["fi"][n] and not net["dead"][n]]; ms = [m[0] for m in ev[-1]["mod"] if not net["dead"][m[0]]]
                for n in (rng.sample(ms, min(2, len(ms))) + rng.sample(gs, min(1, len(gs)))):
                    a = list(net["fi"][n]); rng.shuffle(a)
                    if not step("and", a): return ev
            if rng.random() < .35:
                if not step("and" if rng.random() < .6 else rng.choice(OPS2), [rng.choice(live_lits(net)) ^ rng.randrange(2) for _ in range(2)]): return ev
            if rng.random() < .25 and not step("cleanup", [rng.randrange(2) * rng.randrange(2), rng.randrange(2) * rng.randrange(2)]): return ev
            lits = live_lits(net)
        step("cleanup", [rng.randrange(2) * rng.randrange(2), rng.randrange(2) * rng.randrange(2)])
        return ev
    return work
def values(net):
    """functions of the nodes, to find interesting substitutions (never to judge); the last entry is the constant 1"""
    np = len(net["pis"]); w = 1 << np; ones = (1 << w) - 1; v = {0: 0}
    for k, n in enumerate(net["pis"]): v[n] = sum(1 << x for x in range(w) if x >> k & 1)
    def go(n):
        st = [n]
        while st:
            m = st[-1]
            if m in v: st.pop(); continue
            need = [l >> 1 for l in net["fi"][m] if l >> 1 not in v]
            if need: st += need; continue
            a, b = [(v[l >> 1] ^ (ones if l & 1 else 0)) for l in net["fi"][m]]; v[m] = a & b; st.pop()
        return v[n]
    r = [go(n) if not net["dead"][n] else -5 for n in range(len(net["fi"]))]
    return r + [ones]
def live_lits(net): return [2 * n for n in range(len(net["fi"])) if not net["dead"][n]]

def path_history(path):
    """a call sequence of the specification: arguments 2*register + c"""
    def work(d):
        ev = []; do(d, ev, "new", [], EMPTY); net = ev[0]["post"]; regs = [0]
        for op, a in path:
            if op == "subst":
                o, n = regs[a[0] >> 1] & ~1, regs[a[1] >> 1] ^ (a[1] & 1)
                if not subok(net, [(o >> 1, n)]): break
                args = [o, n]
            else: args = [regs[x >> 1] ^ (x & 1) for x in a]
            if any(x >> 1 >= len(net["fi"]) for x in args): break
            e = do(d, ev, op, args, net)
            if e["res"] == -2: return ev
            net = e["post"]
            if op not in ("po", "subst") and e["res"] >= 0 and not any(r >> 1 == e["res"] >> 1 for r in regs): regs.append(e["res"])
        else: do(d, ev, "cleanup", [0, 0], net)
        return ev
    return work

def replayer(exe, eps, do=do):
    def f(i):
        d = lib.Driver(exe); ev = []; net = EMPTY
        try:
            for e in eps[i]:
                args = [int(x) for x in e["line"].split()[1:] if x[0] != "x"]
                r = do(d, ev, e["op"], args, net, **redo(e))
                if r["res"] == -2: break
                if e["op"] not in ("cleanup", "cleanluts"): net = r["post"]
        finally: d.stop()
        return ev
    return f

MC = """SPECIFICATION MSpec
CONSTANTS
  MaxPi = %d
  MaxGate = %d
  MaxPo = %d
  MaxSub = %d
  Wide = %s
VIEW NetView
CONSTRAINT StopAfterSub
INVARIANTS Sound
PROPERTIES Means Keeps Subs%s
CHECK_DEADLOCK FALSE
"""
import json, re
def paths(ctx, cfg, **kw): return emitted(ctx, "MCAigNet", MC % (*cfg, " Emit"), **kw)

# ---------------------------------------------------------------- LUT networks
KEMPTY = {"fi": [[], []], "tt": [[], []], "pis": [], "outs": []}
KNAMED = {"not": 1, "and": 2, "or": 2, "lt": 2, "le": 2, "xor": 2, "maj": 3, "ite": 3, "xor3": 3}
def rtt(rng, k):
    n = 1 << k; r = rng.random()
    if r < .08: v = rng.choice([0, (1 << n) - 1])
    elif r < .2: j = rng.randrange(k) if k else 0; v = sum(1 << i for i in range(n) if i >> j & 1); v ^= rng.choice([0, (1 << n) - 1])
    elif r < .35: v = sum(1 << i for i in range(n) if bin(i).count("1") & 1) ^ rng.choice([0, (1 << n) - 1])
    elif r < .5:      # few minterms
        v = 0
        for _ in range(rng.randrange(1, 4)): v |= 1 << rng.randrange(n)
    else: v = rng.getrandbits(n)
    return [v >> (16 * i) & 0xffff for i in range(max(1, n // 16))] if n >= 16 else [v]
def kacyclic(fi):
    col = {}
    for s in range(len(fi)):
        if s in col: continue
        st = [(s, 0)]; col[s] = 1
        while st:
            n, k = st.pop()
            if k == len(fi[n]): col[n] = 2; continue
            st.append((n, k + 1)); c = fi[n][k]
            if col.get(c) == 1: return False
            if c not in col: col[c] = 1; st.append((c, 0))
    return True
def khistory(rng):
    npi = rng.choice([0, 1, 2, 3, 4, 4, 5, 6]); ng = rng.randrange(1, 16)
    def work(d):
        ev = []; do(d, ev, "new", [], KEMPTY); net = ev[0]["post"]
        def step(op, args, tt=None):
            nonlocal net
            e = do(d, ev, op, args, net, tt)
            if e["res"] == -2: return False
            if op not in ("cleanup", "cleanluts"): net = e["post"]
            return True
        def arg():
            n = len(net["fi"])
            return rng.randrange(2) if rng.random() < .06 else rng.randrange(max(0, n - 5), n) if rng.random() < .5 else rng.randrange(n)
        for _ in range(npi):
            if not step("pi", []): return ev
        for _ in range(ng):
            r = rng.random(); tt = None
            if r < .45: k = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6]); op, a, tt = "node", [arg() for _ in range(k)], rtt(rng, k)
            elif r < .5: op, a, tt = "node", [], [rng.randrange(2)]
            elif r < .65: op = rng.choice(list(KNAMED)); a = [arg() for _ in range(KNAMED[op])]
            elif r < .73: op = rng.choice(["nary_and", "nary_or", "nary_xor"]); a = [arg() for _ in range(rng.randrange(0, 6))]
            elif r < .8:
                gs = [n for n in range(len(net["fi"])) if net["fi"][n]]
                if not gs: continue
                g = rng.choice(gs); op, a = "clone", [g] + [arg() for _ in net["fi"][g]]
            elif r < .84: op, a = "buf", [arg()]
            elif r < .86: op, a = "const", [rng.randrange(2)]
            elif r < .9: op, a = "pi", []
            else: op, a = "po", [arg()]
            if op == "pi" and len(net["pis"]) > 6: continue
            if not step(op, a, tt): return ev
        for _ in range(rng.randrange(0, 4)):
            if not step("po", [arg()]): return ev
        gs = [n for n in range(2, len(net["fi"])) if net["fi"][n]]
        for _ in range(rng.randrange(0, 3)):
            if gs and not step("po", [rng.choice(gs)]): return ev
        def looks():
            fw = all(x < n for n, f in enumerate(net["fi"]) for x in f)
            for op, a in [("cleanup", [rng.randrange(2) * rng.randrange(2), rng.randrange(2) * rng.randrange(2)]), ("cleanluts", []), ("toaig", []), ("sim", [])]:
                if op in ("toaig", "sim") and not fw: continue
                if not step(op, a): return False
            return True
        if not looks(): return ev
        for _ in range(rng.choice([0, 1, 1, 2])):
            o, n = arg(), arg()
            if o < 2 or o == n: continue
            if not kacyclic([[n if x == o else x for x in f] for f in net["fi"]]): continue
            if not step("subst", [o, n]): return ev
            if rng.random() < .4 and not step("not", [arg()]): return ev
            if not looks(): return ev
        return ev
    return work
def kpath(path):
    def work(d):
        ev = []; do(d, ev, "new", [], KEMPTY); net = ev[0]["post"]
        for c in path:
            e = do(d, ev, c[0], c[2:] if c[0] == "node" else c[1:], net, [c[1]] if c[0] == "node" else None)
            if e["res"] == -2: return ev
            net = e["post"]
        for op in (["cleanluts", "cleanup"] if path and path[-1][0] == "subst" else ["cleanluts", "cleanup", "toaig", "sim"]):
            if do(d, ev, op, [0, 0] if op == "cleanup" else [], net)["res"] == -2: break
        return ev
    return work
MCK = "SPECIFICATION Spec\nCONSTANTS\n MaxPi=%d\n MaxGate=%d\n MaxPo=%d\n Funcs = {%s}\nVIEW NoPath\nINVARIANT Consistent\nPROPERTIES Stable Emit\nCHECK_DEADLOCK FALSE\n"
MCV = "SPECIFICATION Spec\nCONSTANTS\n MaxPi=%d\n MaxGate=%d\n MaxPo=%d\n Pol=%s\n Params<-%s\nVIEW NoPath\nINVARIANT Exact\nPROPERTIES GrowIs Emit\nCHECK_DEADLOCK FALSE\n"
def emitted(ctx, module, cfg, sample=20000, **kw):
    """explore the specification; a sample of the call sequences it emits, and their number"""
    r = tlc.run(module, cfg, sample=sample, **kw)
    if r.violated: raise tlc.TlcError("%s: %s" % (module, r.violated))
    ctx.add(states=r.distinct, transitions=r.generated)
    ctx.log(module, "explored:", r.distinct, "states,", r.npaths, "call sequences")
    return r.paths
def parse(ps): return [json.loads(p.replace('\\"', '"')) for p in ps]

def calls_of(ev, l): return ";".join(e["line"] for e in ev[:l + 1])[:300]

def klut(ctx):
    """D13"""
    exe = build.driver("klutx", "asan"); rng = ctx.rng; ps = []
    for c in ([(2, 1, 1, ",".join(map(str, range(16)))), (1, 2, 1, "1,6,13")] if ctx.quick else [(2, 1, 2, ",".join(map(str, range(16)))), (2, 2, 1, "6,8,13")]):
        ps += emitted(ctx, "MCKlut", MCK % c, timeout=800)
    rng.shuffle(ps); ps = parse(ps[:1200 if ctx.quick else 15000])
    tasks = [kpath(p) for p in ps] + [khistory(random.Random(rng.random())) for _ in range(700 if ctx.quick else 12000)]
    lib.campaign(ctx, "KlutTrace", exe, tasks, replayer, calls_of, lambda t: not t.startswith("sim."))

# ---------------------------------------------------------------- views
def vhistory(rng, aig):
    npi = rng.choice([1, 2, 3, 4, 5]); n = rng.randrange(5, 40); seq = rng.random() < .25; nro = rng.choice([1, 1, 2, 3]) if seq else 0
    def work(d):
        ev = []; do(d, ev, "new", [], EMPTY if aig else KEMPTY); net = ev[0]["post"]; on = False; kept = None
        def step(op, args, tt=None):
            nonlocal net
            e = do(d, ev, op, args, net, tt)
            if e["res"] == -2: return False
            if op != "cleanup": net = e["post"]
            return True
        def nodes(): return [k for k in range(len(net["fi"])) if not (aig and net["dead"][k])]
        def params(): return [] if rng.random() < .3 else [rng.randrange(2), rng.randrange(3)]
        def arg():
            v = nodes(); k = rng.choice(v[-6:]) if rng.random() < .6 else rng.choice(v)
            return 2 * k + rng.randrange(2) if aig else k
        for _ in range(npi):
            if rng.random() < .1:
                if not step("view", params()): return ev
                on = True
            if not step("pi", []): return ev
        for _ in range(nro):
            if not step("ro", []): return ev
        for i in range(n + nro):
            r = rng.random(); tt = None
            if i >= n: op, a = "ri", [arg()]
            elif r < .45:
                if aig: op = rng.choice(["and", "and", "and", "xor", "or", "maj", "ite"]); a = [arg() for _ in range(ARITY[op])]
                elif rng.random() < .5: k = rng.randrange(1, 5); op, a, tt = "node", [arg() for _ in range(k)], rtt(rng, k)
                else: op = rng.choice(list(KNAMED)); a = [arg() for _ in range(KNAMED[op])]
            elif r < .6: op, a = "po", [arg()]
            elif r < .63:
                if seq: continue                # inputs come before registers
                op, a = "pi", []
            elif r < .75:
                op, a = "topo", [] if rng.random() < .5 else [arg()]
                if rng.random() < .6:
                    if kept is None or rng.random() < .3: op, kept = "tkeep", a
                    else: op, a = "tupdate", kept
            elif r < .82: op, a = "view", params()
            elif r < .92:
                if not on: continue
                op, a = rng.choice(["vcopy", "vupdate", "vupdate", "vdrop"]), []
            elif r < .96:
                o, m = arg(), arg()
                if aig:
                    o &= ~1
                    if not subok(net, [(o >> 1, m)]): continue
                elif o < 2 or o == m or not kacyclic([[m if x == o else x for x in f] for f in net["fi"]]): continue
                if seq: continue
                op, a = "subst", [o, m]
                if kept: kept = None            # its root may be gone
            elif seq: continue
            else: op, a = "cleanup", [0, 0]
            if op == "view": on = True
            if op == "vdrop": on = False
            if not step(op, a, tt): return ev
        step("topo", [])
        if kept is not None and step("tupdate", kept) and on: step("vupdate", [])
        return ev
    return work
def vpath(path, aig, rng):
    """a view history of the specification (literals as in an AIG; LUT networks have one more constant)"""
    flip = rng.random() < .5 and not any(x % 2 for c in path if c[0] != "view" for x in c[1:])        # complement edges at random
    def work(d):
        ev = []; do(d, ev, "new", [], EMPTY if aig else KEMPTY); net = ev[0]["post"]
        if flip: do(d, ev, "tkeep", [], net)
        for c in path:
            m = (lambda x: x ^ int(flip and rng.randrange(2))) if aig else (lambda x: x // 2 + 1 if x > 1 else 0)
            e = do(d, ev, c[0], c[1:] if c[0] == "view" else [m(x) for x in c[1:]], net)
            if e["res"] == -2: return ev
            net = e["post"]
        do(d, ev, "tupdate" if flip else "topo", [], net)
        return ev
    return work
def views(ctx):
    """D14"""
    xa, xk = build.driver("aigx", "asan"), build.driver("klutx", "asan"); rng = ctx.rng
    ps = []
    P, E = ("{0}", "OnePlain"), ("{0, 1}", "EveryKind")
    for c in ([(2, 2, 2) + P, (2, 3, 1) + P, (2, 2, 1) + E] if ctx.quick else [(2, 3, 2) + P, (3, 3, 1) + P, (2, 2, 2) + E]): ps += emitted(ctx, "MCViews", MCV % c, timeout=800)
    rng.shuffle(ps); ps = parse(ps[:1500 if ctx.quick else 20000])
    R = lambda: random.Random(rng.random())
    for exe, aig in ((xa, True), (xk, False)):
        tasks = [vpath(p, aig, R()) for p in ps] + [vhistory(R(), aig) for _ in range(350 if ctx.quick else 8000)]
        lib.campaign(ctx, "ViewsTrace", exe, tasks, replayer, lambda ev, l: ("aig " if aig else "klut ") + calls_of(ev, l), maxev=4000)

class AigCheck:
    level = "exploration"
    def __init__(s, pid): s.pid = pid
    def run(s, ctx):
        exe = build.driver("aigx", "asan")
        ctx.log("built")
        small = [(2, 2, 1, 1, "FALSE")] if ctx.quick else [(2, 3, 1, 1, "FALSE"), (2, 2, 0, 0, "TRUE")]
        ps = []
        for c in small: ps += paths(ctx, c, timeout=800)
        rng = ctx.rng; rng.shuffle(ps)
        if s.pid == "D11": kinds = ["build"] * 5 + ["edit"]; ps = [p for p in ps if "subst" not in p]
        else: kinds = ["edit"] * 5 + ["multi"] * 4
        ps = parse(ps[:1500 if ctx.quick else 8000])
        n = 400 if ctx.quick else 8000
        tasks = [path_history(p) for p in ps] + [history(random.Random(rng.random()), rng.choice(kinds)) for _ in range(n)]
        # D12: after an edit the ordinary calls are part of the edited history
        edited = lambda ev, l: any(e["op"] in ("subst", "substs") for e in ev[:l + 1]) or ev[l]["op"] == "cleanup"
        want = (lambda t: True) if s.pid == "D12" else lambda t: t.split(".")[0] not in ("subst", "substs", "cleanup")
        lib.campaign(ctx, "AigNetTrace", exe, tasks, replayer, calls_of, want, edited if s.pid == "D12" else None)

CHECKS = {p: AigCheck(p).run for p in ("D11", "D12")}
CHECKS["D13"] = klut; CHECKS["D14"] = views
