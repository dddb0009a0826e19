#!/usr/bin/env python3
"""Is the binding real?  Take traces recorded from the code by a check's quick tier, change one recorded value in each
(a number, a boolean, a byte, the length of a list), and count how many of the changed traces the specification rejects.
usage: bindtest.py ID [mutants]      prints the accepted mutants by field, to be explained"""
import copy, json, os, random, re, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True
from vlib import registry, check, tlc
pid, N = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 40
rng = random.Random(7); real = tlc.validate; seen = set()
SKIP = {"line", "script", "src", "stim", "args", "a", "kind", "op", "warn"}
def leaves(x, p):
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in SKIP: yield from leaves(v, p + [k])
    elif isinstance(x, list):
        yield ("len", p)
        for i, v in enumerate(x): yield from leaves(v, p + [i])
    elif isinstance(x, (int, bool)): yield ("val", p)
def mutate(ev):
    ev = copy.deepcopy(ev); i = rng.randrange(len(ev)); ls = [l for l in leaves(ev[i], []) if l[1]]
    if not ls: return None
    by = {}
    for k, p in ls: by.setdefault((k, tuple(re.sub(r"\d+", "#", str(q)) for q in p[:2] if isinstance(q, str))), []).append(p)
    (k, nm) = rng.choice(sorted(by)); p = rng.choice(by[k, nm]); x = ev[i]
    for q in p[:-1]: x = x[q]
    v = x[p[-1]]
    if k == "len":
        if v and rng.random() < .5: v.pop(rng.randrange(len(v)))
        elif v: v.append(copy.deepcopy(v[-1]))
        else: return None
    elif isinstance(v, bool): x[p[-1]] = not v
    else: x[p[-1]] = v ^ 1 if rng.random() < .6 else v + rng.choice([2, 3])
    return ev, "%s %s.%s" % (k, ev[i].get("op", "?"), ".".join(nm))
def hook(module, eps, cfg=None, **kw):
    r = real(module, eps, cfg, **kw)
    if module in seen: return r
    seen.add(module); ms = []
    while len(ms) < N:
        m = mutate(rng.choice([e for e in eps if len(json.dumps(e)) < 60000] or eps))
        if m: ms.append(m)
    def one(m):
        try: f, _ = real(module, [m[0]], cfg, workers=1, mem="2g", timeout=120)
        except tlc.TlcError: return "rejected (not a trace)"
        return "rejected" if f else "ACCEPTED " + m[1]
    with cf.ThreadPoolExecutor(6) as ex: rs = list(ex.map(one, ms))
    print("BIND %s %s: %d of %d changed traces rejected" % (pid, module, sum(x[0] == "r" for x in rs), N))
    for x in sorted({(x, rs.count(x)) for x in rs if x[0] == "A"}): print("    ", *x)
    return r
tlc.validate = hook
ctx = check.Ctx(pid, "quick", 1); ctx.rdir = "/tmp/bindtest-" + pid
registry.CHECKS[pid](ctx)
