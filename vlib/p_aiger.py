"""I15, I16: AIGER files at byte level."""
import os, shutil, tempfile, concurrent.futures as cf
from . import aig as A, build, cli as C, sess, tlc
from .clichecks import gbig, rargs, key_of

CFG = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"
MC = "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS RoundTrip Truncated\nCHECK_DEADLOCK FALSE\n"
CH = [chr(c) for c in range(33, 127)]
KEYW = set("input output wire assign module endmodule defparam reg always begin end top initial function and or not buf".split())

def names(rng, n, used, p):
    res = []
    for i in range(n):
        if rng.random() > p: res.append(""); continue
        while True:
            r = rng.random()
            if r < .25: x = "%s%d" % (rng.choice(["a", "in", "data", "x", "y", "n", "po", "sum_"]), rng.randrange(300))
            elif r < .5: x = "".join(rng.choice("abcdefgXYZ_$") for _ in range(rng.randrange(1, 9)))
            elif r < .7: x = "%s[%d]" % (rng.choice(["bus", "q", "D"]), rng.randrange(64))
            else: x = "".join(rng.choice(CH) for _ in range(rng.randrange(1, 12)))
            if x in used or x in KEYW or x.startswith("_") or x.startswith("LUT"): continue
            if x.startswith("\\"): continue
            if len(x) > 1 and x[0] == "_" : continue
            used.add(x); res.append(x); break
    return res

def reader_file(rng, g):
    """bytes of g with a symbol table and comment of some shape"""
    used = set(); p = rng.choice([0, 0, 0, 1, 1, .5, .2])
    q = rng.choice([p, 0, 1])
    if g["ni"] > 300: p = rng.choice([0, 10 / g["ni"]])
    inn, outn = names(rng, g["ni"], used, p), names(rng, len(g["outs"]), used, q)
    lines = ["i%d %s" % (i, n) for i, n in enumerate(inn) if n]
    lo = ["o%d %s" % (i, n) for i, n in enumerate(outn) if n]
    if rng.random() < .2: rng.shuffle(lines)
    lines = lines + lo if rng.random() < .8 else lo + lines
    sym = "".join(l + "\n" for l in lines).encode("latin1")
    tail = rng.choice([b"", b"c\n", b"c", b"c\ngenerated\n", b"c\ni0 not_a_name\no0 nor_this\n"])
    return A.tobytes(g, sym, tail)

def invalid(rng):
    g = A.tobytes(A.sample(rng))
    return rng.choice([b"", b"\n", b"hello world\n", b"aag" + g[3:], b"AIG" + g[3:], b"aig\n" + g, b" \n" + g, b"blif\n.model x\n.end\n", b"aig x y 0 1 2\n", b"\0\0\0\0" * 5])

def wide(rng):
    """few gates over many inputs: deltas of two and three bytes"""
    ni = rng.choice([70, 200, 1000, 5000, 9000])
    ands = []
    for k in range(rng.randrange(2, 6)):
        hi = 2 * (1 + ni + k)
        a, b = rng.choice([rng.randrange(2, hi), rng.randrange(2, 40), hi - 1 - rng.randrange(3)]), rng.choice([rng.randrange(2, hi), 2, 3])
        if a // 2 == b // 2: b = a ^ 5 if (a ^ 5) // 2 != a // 2 else 2
        ands.append([max(a, b), min(a, b)])
    return A.mk(ni, ands, [2 * (1 + ni + rng.randrange(len(ands))) + rng.randrange(2) for _ in range(3)] + [rng.randrange(2 * ni)])

def scenario(rng, kind):
    """list of files with the commands in between"""
    if kind == "wide": g = wide(rng)
    elif kind == "big": g = gbig(rng, 500)
    else: g = A.sample(rng, 1.2)
    return {"bytes": reader_file(rng, g), "stim": [] if g["ni"] <= 8 else A.stimuli(rng, g["ni"], 2 if g["ni"] > 100 else 5),
            "before": invalid(rng) if rng.random() < .15 else None, "after": invalid(rng) if rng.random() < .15 else None,
            "map": kind != "wide" , "opts": [(o, rargs(rng, o)) for o in [rng.choice(sess.NETOPS) for _ in range(rng.choice([0, 0, 1, 1, 2]))]]}

def run_one(binary, sc, timeout):
    d = tempfile.mkdtemp(prefix="aigr-")
    try:
        cmds = []; ev = []
        def cmd(line, **e): cmds.append(line); ev.append(e)
        def w(name, b):
            with open(os.path.join(d, name), "wb") as f: f.write(b)
        w("in.aig", sc["bytes"])
        if sc["before"] is not None: w("b.aig", sc["before"]); cmd("read_aiger -f b.aig", op="read", file=list(sc["before"]), stim=[])
        cmd("read_aiger -f in.aig", op="read", file=list(sc["bytes"]), stim=sc["stim"])
        if sc["after"] is not None: w("c.aig", sc["after"]); cmd("read_aiger -f c.aig", op="read", file=list(sc["after"]), stim=[])
        cmd("write_aiger -f w0.aig", op="write", out="w0.aig")
        if sc["map"]:
            cmd("map_fpga", op="opt_no"); cmd("write_fpga -f p.v", op="ports", out="p.v")
        cmd("write_aiger -f w1.aig", op="write", out="w1.aig")
        last = "w1.aig"
        for k, (o, a) in enumerate(sc["opts"]):
            cmd(sess.Step(o, a).line(), op="opt")
            last = "v%d.aig" % k; cmd("write_aiger -f " + last, op="write", out=last)
        cmd("read_aiger -f " + last, op="none"); cmd("write_aiger -f back.aig", op="back", out="back.aig")
        r = C.run_script(binary, cmds, d, timeout)
        died = r.rc != 0 or r.timeout
        res = []
        for k in range(min(len(r.segs), len(cmds))):
            e = ev[k]; rp = C.resp(r.segs[k][1]); crash = died and k == len(r.segs) - 1
            x = {"op": e["op"], "crash": crash, "warn": rp["warn"], "line": cmds[k]}
            if e["op"] in ("opt_no", "none"):
                if crash: break
                continue
            if e["op"] == "read": x["file"] = e["file"]; x["stim"] = e["stim"]
            if e["op"] in ("write", "back"):
                try: x["file"] = list(open(os.path.join(d, e["out"]), "rb").read())
                except OSError: x["file"] = []
                if e["op"] == "back" and k and C.resp(r.segs[k - 1][1])["warn"]: x["warn"] = True
            if e["op"] == "ports":
                N = sess.readlut(os.path.join(d, "p.v"))
                if N is None: continue      # judged by I17
                x["ins"] = [list(n.encode("latin1")) for n in N["ins"]]; x["outs"] = [list(n.encode("latin1")) for n in N["outs"]]
            if e["op"] == "opt" and crash: break      # judged elsewhere
            res.append(x)
        return res, cmds, r
    finally: shutil.rmtree(d, ignore_errors=True)

def strip(ev): return [{k: v for k, v in e.items() if k != "line"} for e in ev]

def check(prefixes, kinds):
    def run(ctx):
        ctx.level = "model_checking"
        m = tlc.run("MCAiger", MC % (1 if ctx.quick else 3))
        if m.violated: raise tlc.TlcError("MCAiger " + str(m.violated) + m.out[-2000:])
        ctx.add(states=m.distinct, transitions=m.generated); ctx.log("format model checked")
        b, _ = build.cli("chk")
        rel = lambda tags: [t for t in tags if t.split(".")[0] in prefixes]
        def batch(n, binary=b, timeout=60):
            scs = []
            for _ in range(n):
                k = ctx.rng.choice(kinds); scs.append(scenario(ctx.rng, k))
            with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda s: run_one(binary, s, timeout), scs))
            f, res = tlc.validate("AigerTrace", [strip(r[0]) for r in rs], CFG)
            ctx.add(traces_validated_against_impl=len(rs), events=sum(len(r[0]) for r in rs), trace_states=res.distinct,
                    bytes_decoded=sum(len(e.get("file", [])) for r in rs for e in r[0]))
            if len(ctx.cov.get("samples", [])) < 3: ctx.add(samples=[{"commands": rs[0][1], "file_bytes": len(scs[0]["bytes"])}])
            for (ep, l), tags in sorted(f.items())[:5]:
                t = rel(tags)
                if not t: continue
                sc = scs[ep - 1]; e2, cmds, r2 = run_one(binary, sc, timeout * 3)
                f2, _ = tlc.validate("AigerTrace", [strip(e2)], CFG)
                t2 = [x for v in f2.values() for x in rel(v)]
                if t2:
                    ctx.violation("%s:%s" % (t2[0], build._key(sc["bytes"].hex())[:12]), "%s after %s" % (t2, cmds),
                                  {"in.aig": sc["bytes"], "session.sc": "\n".join(cmds) + "\n", "trace.json": [strip(e2)]})
                    if sc["before"] is not None: open(os.path.join(ctx.rdir, "%03d" % ctx.nrep, "b.aig"), "wb").write(sc["before"])
                    if sc["after"] is not None: open(os.path.join(ctx.rdir, "%03d" % ctx.nrep, "c.aig"), "wb").write(sc["after"])
                else: ctx.add(unconfirmed=1)
        batch(220)
        if not ctx.quick:
            while ctx.left(600) > 0 and len(ctx.viol) < 8: batch(200)
            ba, _ = build.cli("asan")
            while ctx.left(800) > 0 and len(ctx.viol) < 8: batch(60, ba, 240)
    return run

CHECKS = {"I15": check(("read", "write", "ports"), ["small"] * 8 + ["wide", "big"]),
          "I16": check(("write", "back"), ["small"] * 7 + ["wide", "big", "big"])}
