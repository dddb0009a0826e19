"""Helpers of the demonstrations: AIGER files, evaluation, running the tool that build.sh made."""
import os, random, re, subprocess, sys, tempfile
REPO = os.getcwd()
TOOL = os.path.join(REPO, "bin", "imap")
HERE = os.path.dirname(os.path.abspath(__file__))

# a circuit: (ni, ands [(f0, f1)], outs), literals as in AIGER; variable 0 is false
def enc(x):
    b = bytearray()
    while x > 127: b.append(x & 127 | 128); x >>= 7
    b.append(x); return bytes(b)
def tobytes(g, sym=""):
    ni, ands, outs = g
    r = ("aig %d %d 0 %d %d\n" % (ni + len(ands), ni, len(outs), len(ands))).encode() + b"".join(b"%d\n" % o for o in outs)
    for i, (a, b) in enumerate(ands):
        l = 2 * (ni + 1 + i); a, b = max(a, b), min(a, b); r += enc(l - a) + enc(a - b)
    return r + sym.encode() + b"c\n"
def parse(path):
    b = open(path, "rb").read(); p = b.index(b"\n"); m, ni, l, no, na = map(int, b[4:p].split()); p += 1
    assert m == ni + na and l == 0
    outs = []
    for _ in range(no): q = b.index(b"\n", p); outs.append(int(b[p:q])); p = q + 1
    ands = []
    def num():
        nonlocal p
        x = s = 0
        while True:
            c = b[p]; p += 1; x |= (c & 127) << s; s += 7
            if c < 128: return x
    for i in range(na):
        l = 2 * (ni + 1 + i); a = l - num(); c = a - num(); assert 0 <= c <= a < l
        ands.append((a, c))
    return (ni, ands, outs)
def words(ni):
    n = 1 << ni; return n, [sum(1 << k for k in range(n) if k >> i & 1) for i in range(ni)]
def evaluate(g, w=None, n=None):
    """output words on all assignments (or on the given input words of n bits)"""
    ni, ands, outs = g
    if w is None: n, w = words(ni)
    m = (1 << n) - 1; v = [0] + list(w)
    L = lambda x: v[x >> 1] ^ (m if x & 1 else 0)
    for a, b in ands: v.append(L(a) & L(b))
    return [L(o) for o in outs]
def rand(rng, ni, na, no):
    ands = []
    for i in range(na):
        t = 2 * (1 + ni + i)
        a = rng.randrange(2, t)
        b = rng.randrange(2, t)
        while b >> 1 == a >> 1: b = rng.randrange(2, t)
        ands.append((a, b))
    t = 2 * (1 + ni + na)
    return (ni, ands, [rng.randrange(max(2, t - 2 * no - 6), t) for _ in range(no)])
def depth(g):
    ni, ands, outs = g; d = [0] * (ni + 1)
    for a, b in ands: d.append(1 + max(d[a >> 1], d[b >> 1]))
    return max([d[o >> 1] for o in outs] + [0])
def reach(g):
    ni, ands, outs = g; s = set(); st = [o >> 1 for o in outs]
    while st:
        x = st.pop()
        if x <= ni or x in s: continue
        s.add(x); st += [y >> 1 for y in ands[x - ni - 1]]
    return s
def size(g): return len(reach(g))
def run(lines, d, timeout=120):
    with open(os.path.join(d, "s.sc"), "w") as f: f.write("\n".join(lines) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", OMP_NUM_THREADS="1")
    p = subprocess.run([TOOL, "-e", "-f", "s.sc"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    return p.returncode, p.stdout.decode("latin1")
def lutnet(path):
    """(inputs, outputs, luts [(fanins, out, init)], assigns)"""
    t = open(path).read(); ins = re.findall(r"^\s*input (\S+) ;", t, re.M); outs = re.findall(r"^\s*output (\S+) ;", t, re.M)
    init = {m[0]: int(m[2], 16) for m in re.findall(r"defparam (\S+)\.INIT = (\d+)'h([0-9a-fA-F]+);", t)}
    luts = []
    for m in re.finditer(r"LUT(\d+) (\S+) \(([^)]*)\)", t):
        a = [x.strip() for x in m.group(3).split(",")]; luts.append((a[:-1], a[-1], init[m.group(2)]))
    return ins, outs, luts, re.findall(r"assign (\S+) = (\S+?)\s*;", t)
def lutwords(N):
    ins, outs, luts, assigns = N; n, w = words(len(ins)); v = dict(zip(ins, w)); m = (1 << n) - 1
    v["1'b0"] = 0; v["1'b1"] = m
    todo = list(luts)
    while todo:
        rest = []
        for f, o, init in todo:
            if all(x in v for x in f):
                r = 0
                for k in range(n):
                    i = sum((v[x] >> k & 1) << j for j, x in enumerate(f))
                    r |= (init >> i & 1) << k
                v[o] = r
            else: rest.append((f, o, init))
        if len(rest) == len(todo): raise ValueError("undriven or cyclic")
        todo = rest
    a = dict(assigns)
    def val(x): return (m ^ v[x[1:]]) if x[0] in "~!" else v[x]
    return [val(a[o]) if o in a else v[o] for o in outs]
def scratch(): return tempfile.TemporaryDirectory(prefix="demo-")
def put(d, name, data):
    with open(os.path.join(d, name), "wb") as f: f.write(data if isinstance(data, bytes) else data.encode())
def fail(*a): print("BROKEN:", *a); sys.exit(1)
