"""Test circuits: generation, AIGER bytes, and a plain decoder used to move data (never to judge)."""
import random

class Aig(dict):
    """{"ni","ands":[[a,b]...],"outs":[...]} with AIGER literals"""
    pass
def mk(ni, ands, outs): return {"ni": ni, "ands": [list(x) for x in ands], "outs": list(outs)}

class Bld:
    """small builder; redundant=True switches structural hashing off"""
    def __init__(s, ni, strash=True):
        s.ni, s.ands, s.h, s.strash = ni, [], {}, strash
    def pi(s, i): return 2 * (i + 1)
    def AND(s, a, b):
        if a < b: a, b = b, a
        if s.strash:
            if a == b: return a
            if a ^ b == 1 or b == 0: return 0
            if b == 1: return a
            if (a, b) in s.h: return s.h[a, b]
        s.ands.append([a, b]); l = 2 * (s.ni + len(s.ands))
        s.h[a, b] = l
        return l
    def OR(s, a, b): return s.AND(a ^ 1, b ^ 1) ^ 1
    def XOR(s, a, b): return s.OR(s.AND(a, b ^ 1), s.AND(a ^ 1, b))
    def XOR2(s, a, b): return s.AND(s.AND(a, b) ^ 1, s.AND(a ^ 1, b ^ 1) ^ 1)
    def MUX(s, c, t, e): return s.OR(s.AND(c, t), s.AND(c ^ 1, e))
    def MAJ(s, a, b, c): return s.OR(s.AND(a, b), s.AND(c, s.OR(a, b)))
    def aig(s, outs): return mk(s.ni, s.ands, outs)

def rand(rng, ni, na, no, mode=0):
    ands = []
    for k in range(na):
        hi = 2 * (1 + ni + k)
        def lit():
            if mode == 1 and rng.random() < 0.6: return rng.randrange(max(2, hi - 12), hi) if hi > 2 else 0
            if mode == 2 and rng.random() < 0.04: return rng.randrange(0, 2)
            if mode == 3 and ands and rng.random() < 0.3:  # reuse fanins: redundant structure
                return rng.choice(rng.choice(ands)) ^ rng.randrange(2)
            return rng.randrange(2, hi) if hi > 2 else rng.randrange(0, hi)
        a, b = lit(), lit()
        if a < b: a, b = b, a
        ands.append([a, b])
    tot = 1 + ni + na; outs = []
    for i in range(no):
        r = rng.random()
        if r < 0.72: outs.append(rng.randrange(max(0, 2 * tot - 2 * max(4, no)), 2 * tot))
        elif r < 0.95 or not outs: outs.append(rng.randrange(0, 2 * tot))
        else: outs.append(rng.choice(outs) ^ rng.randrange(2))
    return mk(ni, ands, outs)

def expr(rng, ni, nops, no, ops="axomj", strash=True):
    """random circuit of AND/XOR/OR/MUX/MAJ operators: many reconvergent XOR/MUX structures"""
    b = Bld(ni, strash); sig = [b.pi(i) for i in range(ni)] or [0]
    for _ in range(nops):
        def s():
            x = sig[-rng.randrange(1, min(len(sig), 8) + 1)] if rng.random() < 0.5 else rng.choice(sig)
            return x ^ rng.randrange(2)
        o = rng.choice(ops)
        if o == "a": x = b.AND(s(), s())
        elif o == "o": x = b.OR(s(), s())
        elif o == "x": x = b.XOR(s(), s()) if rng.random() < .5 else b.XOR2(s(), s())
        elif o == "m": x = b.MUX(s(), s(), s())
        else: x = b.MAJ(s(), s(), s())
        sig.append(x)
    return b.aig([rng.choice(sig[-max(3, no):]) ^ rng.randrange(2) for _ in range(no)])

def adder(n, cin=False):
    b = Bld(2 * n + (1 if cin else 0)); c = b.pi(2 * n) if cin else 0; outs = []
    for i in range(n):
        x, y = b.pi(i), b.pi(n + i)
        t = b.XOR(x, y); outs.append(b.XOR(t, c)); c = b.OR(b.AND(x, y), b.AND(t, c))
    return b.aig(outs + [c])
def mult(n):
    b = Bld(2 * n); acc = [0] * (2 * n)
    for i in range(n):
        c = 0
        for j in range(n):
            p = b.AND(b.pi(i), b.pi(n + j)); k = i + j
            t = b.XOR(acc[k], p); s = b.XOR(t, c); c = b.OR(b.AND(acc[k], p), b.AND(t, c)); acc[k] = s
        acc[i + n] = c
    return b.aig(acc)
def parity(n, tree=True):
    b = Bld(n); s = [b.pi(i) for i in range(n)]
    while len(s) > 1:
        s = [b.XOR(s[i], s[i + 1]) if i + 1 < len(s) else s[i] for i in range(0, len(s), 2)] if tree else [b.XOR(s[0], s[1])] + s[2:]
    return b.aig([s[0], s[0] ^ 1])
def chain(n, op="a", outs=1):
    b = Bld(n); x = b.pi(0); xs = [x]
    for i in range(1, n):
        y = b.pi(i)
        x = {"a": b.AND, "o": b.OR, "x": b.XOR}[op if op != "m" else "ao"[i % 2]](x, y); xs.append(x)
    return b.aig([x] + xs[-outs:][:outs - 1])
def muxtree(k):
    b = Bld(k + (1 << k)); d = [b.pi(k + i) for i in range(1 << k)]
    for j in range(k): d = [b.MUX(b.pi(j), d[2 * i + 1], d[2 * i]) for i in range(len(d) // 2)]
    return b.aig(d)
def decoder(k):
    b = Bld(k); d = [1]
    for j in range(k): d = [b.AND(x, b.pi(j) ^ c) for x in d for c in (1, 0)]
    return b.aig(d)
def comparator(n):
    b = Bld(2 * n); lt, eq = 0, 1
    for i in reversed(range(n)):
        x, y = b.pi(i), b.pi(n + i)
        lt = b.OR(lt, b.AND(eq, b.AND(x ^ 1, y))); eq = b.AND(eq, b.XOR(x, y) ^ 1)
    return b.aig([lt, eq, b.OR(lt, eq) ^ 1])
def symmetric(n, k):
    """at least k of n"""
    b = Bld(n); row = [1] + [0] * k
    for i in range(n):
        row = [1] + [b.OR(row[j], b.AND(row[j - 1], b.pi(i))) for j in range(1, k + 1)]
    return b.aig([row[k]])
def sop(rng, n, cubes, no):
    b = Bld(n); outs = []
    for _ in range(no):
        o = 0
        for _ in range(cubes):
            c = 1
            for v in rng.sample(range(n), rng.randrange(1, min(n, 5) + 1)): c = b.AND(c, b.pi(v) ^ rng.randrange(2))
            o = b.OR(o, c)
        outs.append(o)
    return b.aig(outs)
def truth(n, tts):
    """outputs given as integers of 2^n bits, by Shannon expansion"""
    b = Bld(n)
    def rec(t, k):
        if k == 0: return t & 1
        h = 1 << (k - 1); lo = t & ((1 << h) - 1); hi = t >> h
        if lo == hi: return rec(lo, k - 1)
        return b.MUX(b.pi(k - 1), rec(hi, k - 1), rec(lo, k - 1))
    return b.aig([rec(t, n) for t in tts])
def restructured(rng, g):
    """the same functions built differently and side by side (redundancy for choices / strash)"""
    b = Bld(g["ni"], strash=False); m1 = {0: 0}; m2 = {0: 0}
    for i in range(g["ni"]): m1[i + 1] = m2[i + 1] = b.pi(i)
    L = lambda m, l: m[l >> 1] ^ (l & 1)
    for k, (x, y) in enumerate(g["ands"]):
        v = 1 + g["ni"] + k
        m1[v] = b.AND(L(m1, x), L(m1, y))
        p, q = L(m2, x), L(m2, y)
        r = rng.randrange(4)
        if r == 0: m2[v] = b.AND(b.AND(p, q), p)
        elif r == 1: m2[v] = b.AND(p, b.OR(q, p ^ 1))
        elif r == 2: m2[v] = b.AND(q, p)
        else: m2[v] = b.AND(L(m1, x), q)
    return b.aig([L(m1 if rng.random() < .5 else m2, o) for o in g["outs"]])
def dangling(rng, g, extra):
    ands = [list(x) for x in g["ands"]]
    for _ in range(extra):
        hi = 2 * (1 + g["ni"] + len(ands))
        if hi <= 4: break
        a, b = rng.randrange(2, hi), rng.randrange(2, hi)
        ands.append([max(a, b), min(a, b)])
    return mk(g["ni"], ands, g["outs"])

def _vb(n):
    o = bytearray()
    while n > 127: o.append(n & 127 | 128); n >>= 7
    o.append(n); return o
def tobytes(g, sym=b"", tail=b"c\n"):
    ni, ands, outs = g["ni"], g["ands"], g["outs"]
    o = bytearray(b"aig %d %d 0 %d %d\n" % (ni + len(ands), ni, len(outs), len(ands)))
    for p in outs: o += b"%d\n" % p
    for k, (a, b) in enumerate(ands):
        l = 2 * (1 + ni + k); a, b = max(a, b), min(a, b)
        o += _vb(l - a) + _vb(a - b)
    return bytes(o) + sym + tail
def parse(data):
    """decoder for moving written files into traces; raises on malformed data"""
    i = data.index(b"\n"); h = data[:i].split()
    if h[0] != b"aig" or len(h) < 6: raise ValueError("header")
    M, I, L, O, A = map(int, h[1:6])
    if L or M != I + A: raise ValueError("header counts")
    i += 1; outs = []
    for _ in range(O):
        j = data.index(b"\n", i); outs.append(int(data[i:j])); i = j + 1
    def dec():
        nonlocal i
        s = v = 0
        while True:
            c = data[i]; i += 1; v |= (c & 127) << s; s += 7
            if c < 128: return v
    ands = []
    for k in range(A):
        o = 2 * (1 + I + k); a = o - dec(); b = a - dec()
        if not (0 <= b <= a < o): raise ValueError("and %d" % k)
        ands.append([a, b])
    if any(x < 0 or x >= 2 * (1 + I + A) for x in outs): raise ValueError("output")
    return mk(I, ands, outs)

def stimuli(rng, ni, nw=6):
    """random 16-bit words per input; first word structured (all 0, all 1, walking)"""
    res = []
    for w in range(nw):
        if w == 0:
            ws = []
            for i in range(ni):
                x = 0b10  # bit 1: all ones; bit 0: all zeros
                x |= (1 << (2 + i % 14)); ws.append(x)
            res.append(ws)
        elif w == 1: res.append([0xFFFF ^ (1 << (i * 7 % 16)) for i in range(ni)])
        elif w == 2: res.append([rng.getrandbits(16) & rng.getrandbits(16) for _ in range(ni)])
        elif w == 3: res.append([rng.getrandbits(16) | rng.getrandbits(16) for _ in range(ni)])
        else: res.append([rng.getrandbits(16) for _ in range(ni)])
    return res

def sample(rng, size=1.0, maxpi=7):
    """one circuit of the standard mixture (exhaustively simulable)"""
    r = rng.random(); ni = rng.randrange(1, maxpi + 1); no = rng.randrange(1, 6)
    n = int(rng.randrange(1, 70) * size) + 1
    if r < .30: g = rand(rng, ni, n, no, rng.choice([0, 1, 1, 2, 3]))
    elif r < .55: g = expr(rng, ni, n // 3 + 1, no, rng.choice(["axomj", "xm", "ao", "x", "mj", "a"]), rng.random() < .8)
    elif r < .63: g = restructured(rng, expr(rng, ni, n // 6 + 1, no))
    elif r < .70: g = sop(rng, max(2, ni), rng.randrange(1, 7), no)
    elif r < .76:
        k = rng.randrange(1, min(ni, 5) + 1); g = truth(k, [rng.getrandbits(1 << k) for _ in range(no)])
    elif r < .90:
        g = rng.choice([lambda: adder(rng.randrange(1, 4)), lambda: mult(rng.randrange(1, 4)), lambda: parity(rng.randrange(2, 9), rng.random() < .5),
                        lambda: chain(rng.randrange(2, 10), rng.choice("aoxm"), rng.randrange(1, 4)), lambda: muxtree(rng.randrange(1, 3)),
                        lambda: decoder(rng.randrange(1, 5)), lambda: comparator(rng.randrange(1, 5)), lambda: symmetric(rng.randrange(3, 8), rng.randrange(1, 4))])()
    elif r < .95: g = rand(rng, ni, rng.randrange(0, 3), no, 2)
    else: g = mk(ni, [], [rng.randrange(0, 2 * ni + 2) for _ in range(no)])
    if rng.random() < .25: g = dangling(rng, g, rng.randrange(1, 8))
    return g

def big(rng, npi=None, nand=None):
    npi = npi or rng.randrange(12, 60); nand = nand or rng.randrange(150, 700)
    r = rng.random()
    if r < .5: return rand(rng, npi, nand, rng.randrange(4, 40), rng.choice([0, 1, 3]))
    if r < .8: return expr(rng, npi, nand // 3, rng.randrange(4, 30))
    return rng.choice([lambda: adder(rng.randrange(8, 24)), lambda: mult(rng.randrange(4, 7)), lambda: comparator(rng.randrange(8, 24)),
                       lambda: muxtree(rng.randrange(3, 6)), lambda: parity(rng.randrange(16, 48)), lambda: symmetric(rng.randrange(10, 20), 5)])()

def small_all(ni, na):
    """every AIG (up to fanin order) with ni inputs, na ANDs and all useful outputs"""
    import itertools
    def rec(k, ands):
        if k == na:
            yield [list(x) for x in ands]; return
        hi = 2 * (1 + ni + k)
        for a in range(hi):
            for b in range(a + 1):
                yield from rec(k + 1, ands + [(a, b)])
    for ands in rec(0, []):
        top = 2 * (ni + na)
        yield mk(ni, ands, [top, top + 1] if na else list(range(2 * ni + 2)))
