"""Properties decided on sessions of the tool: C01-C06, M07, M08."""
from . import aig as A
from .clichecks import *

def opt_check(op, prefixes, quick_n, big=.03, size=1.0, extra=()):
    """sessions around one optimisation command"""
    def run(ctx):
        ctx.level = "model_checking"
        model_check(ctx); ctx.log("session machine checked")
        ck = CliCheck(ctx, lambda ev, l, t: t.split(".")[0] == op or (t == "write_aiger.crash" and l > 1 and ev[l - 2]["op"] == op))
        rng = ctx.rng
        def scenario(k):
            st = []
            for _ in range(k):
                st.append(rd(rng, big, size))
                for q in range(rng.choice([1, 1, 1, 2, 2, 3])):
                    if rng.random() < .12: o = rng.choice([x for x in sess.NETOPS if x != op]); st.append(Step(o, rargs(rng, o)))
                    st.append(Step(op, rargs(rng, op)))
                if rng.random() < .15: st.append(Step("print_stats"))
            return st
        def batch(n, k=6): ck.run([scenario(k) for _ in range(n)])
        for f in extra: ck.run(f(ctx, rng, op))
        batch(quick_n)
        if not ctx.quick:
            while ctx.left(600) > 0: batch(60)
            ck = CliCheck(ctx, ck.relevant, "asan", timeout=240)
            while ctx.left(800) > 0: batch(24, 4)
        return
    return run

def small_exhaustive(ctx, rng, op):
    """every AIG with two inputs and at most two gates (any fanins), every output polarity; one session per chunk"""
    gs = list(A.small_all(2, 0)) + list(A.small_all(2, 1)) + list(A.small_all(2, 2))
    if op == "rewrite" or ctx.quick: gs = rng.sample(gs, min(len(gs), 240))
    ctx.add(small_circuits=len(gs))
    res = []
    for i in range(0, len(gs), 30):
        st = []
        for g in gs[i:i + 30]: st += [read(g), Step(op, rargs(rng, op))]
        res.append(st)
    return res

def mapped_check(t):
    def run(ctx):
        ctx.level = "model_checking"
        model_check(ctx); ctx.log("session machine checked")
        def rel(ev, l, tag):
            e = ev[l - 1]
            return e["op"] == "map_fpga" and (e["args"]["t"] == 1) == (t == 1)
        ck = CliCheck(ctx, rel)
        rng = ctx.rng
        def one():
            st = [rd(rng, .04, 1.0)]
            if t == 0:
                if rng.random() < .3: o = rng.choice(sess.NETOPS); st.append(Step(o, rargs(rng, o)))
                for _ in range(rng.choice([1, 1, 2, 3])):
                    a = rargs(rng, "map_fpga")
                    if rng.random() < .3: a["t"] = 0
                    st.append(Step("map_fpga", a))
            else:
                nh = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
                for _ in range(nh):
                    for _ in range(rng.choice([0, 1, 1, 2])): o = rng.choice(sess.NETOPS); st.append(Step(o, rargs(rng, o)))
                    h = {"a": True}
                    if rng.random() < .1: h["r"] = rng.randrange(0, 5)
                    if rng.random() < .05: h = {"c": True}
                    st.append(Step("history", h))
                if rng.random() < .6: o = rng.choice(sess.NETOPS); st.append(Step(o, rargs(rng, o)))
                for _ in range(rng.choice([1, 1, 2])): st.append(Step("map_fpga", dict(rargs(rng, "map_fpga"), t=1)))
            return st
        def batch(n, k=6):
            ck.run([[x for _ in range(k) for x in one()] for _ in range(n)])
        batch(70)
        if not ctx.quick:
            while ctx.left(600) > 0: batch(60)
            ck = CliCheck(ctx, rel, "asan", timeout=240)
            while ctx.left(800) > 0: batch(24, 4)
    return run

def scripts(ctx):
    """C05: arbitrary optimisation scripts; compared with the circuit that was read after every command"""
    ctx.level = "model_checking"
    model_check(ctx); ctx.log("session machine checked")
    ck = CliCheck(ctx, lambda ev, l, t: ev[l - 1]["op"] in sess.NETOPS and t.split(".")[1] in ("func", "iface", "wf", "crash"))
    rng = ctx.rng
    ORDERS = ["balance rewrite rewrite balance refactor rewrite balance", "rewrite refactor balance lut_opt cleanup", "lut_opt rewrite balance lut_opt refactor rewrite",
              "refactor rewrite balance refactor", "cleanup rewrite cleanup lut_opt cleanup", "lut_opt lut_opt lut_opt", "rewrite rewrite rewrite rewrite"]
    def one(big):
        st = [rd(rng, big)]
        ops = rng.choice(ORDERS).split() if rng.random() < .4 else [rng.choice(sess.NETOPS) for _ in range(rng.randrange(2, 9))]
        for o in ops:
            st.append(Step(o, rargs(rng, o)))
            r = rng.random()
            if r < .08: st.append(Step("history", {"a": True}))
            elif r < .12: st.append(Step("map_fpga", rargs(rng, "map_fpga")))
            elif r < .16: st.append(Step("print_stats"))
        return st
    def batch(n, k=4, big=.05): ck.run([[x for _ in range(k) for x in one(big)] for _ in range(n)])
    batch(60)
    if not ctx.quick:
        while ctx.left(600) > 0: batch(60, 4, .1)
        ck = CliCheck(ctx, ck.relevant, "asan", timeout=240)
        while ctx.left(800) > 0: batch(24, 3)

CHECKS = {
    "C01": opt_check("rewrite", ("rewrite",), 70, extra=(small_exhaustive,)),
    "C02": opt_check("refactor", ("refactor",), 80, extra=(small_exhaustive,)),
    "C03": opt_check("balance", ("balance",), 100, extra=(small_exhaustive,)),
    "C04": opt_check("lut_opt", ("lut_opt",), 80, extra=(small_exhaustive,)),
    "C05": scripts,
    "C06": opt_check("cleanup", ("cleanup",), 100, extra=(small_exhaustive,)),
    "M07": mapped_check(0),
    "M08": mapped_check(1),
}
