"""I17, I18, S19-S22: outputs, history, refused commands, statistics, determinism."""
import hashlib, json, os, re, shutil, tempfile
from . import aig as A, build, cli as C, sess, tlc
from .clichecks import *
from .p_aiger import names

# ---------------------------------------------------------------- I17, I18
def named(rng, g):
    used = set(); p = rng.choice([0, 0, 1, 1, .5])
    inn = names(rng, g["ni"], used, p); outn = names(rng, len(g["outs"]), used, rng.choice([p, 0, 1]))
    return inn, outn

def special(rng):
    """outputs that are inputs, inverters, constants, duplicates; gate-free circuits"""
    ni = rng.randrange(0, 5)
    g = A.rand(rng, ni, rng.randrange(0, 8) if ni else 0, rng.randrange(1, 5), 2)
    tot = 2 * (1 + ni + len(g["ands"]))
    g["outs"] += [rng.randrange(0, min(tot, 2 * ni + 2)) for _ in range(rng.randrange(1, 5))]
    if rng.random() < .5: o = rng.choice(g["outs"]); g["outs"] += [o, o ^ 1]
    rng.shuffle(g["outs"])
    return g

def out_check(ops, tagpred, quick_n):
    def run(ctx):
        ctx.level = "model_checking"
        model_check(ctx); ctx.log("session machine checked")
        ck = CliCheck(ctx, tagpred)
        rng = ctx.rng
        def one():
            r = rng.random()
            g = special(rng) if r < .35 else (gbig(rng, 400) if r > .96 else A.sample(rng))
            inn, outn = named(rng, g)
            st = [read(g, [] if g["ni"] <= 9 else A.stimuli(rng, g["ni"], 5), inn, outn)]
            def emit():
                if "write_fpga" in ops: st.append(Step("map_fpga", rargs(rng, "map_fpga"))); st.append(Step("write_fpga")); st.append(Step("print_stats", {"t": 1}))
                if "write_primary" in ops:
                    st.append(Step("write_primary")); st.append(Step("write_dot", rng.choice([{}, {"t": 0}])))
                    if rng.random() < .6: st.append(Step("map_fpga", rargs(rng, "map_fpga"))); st.append(Step("write_dot", {"t": 1}))
            emit()
            for _ in range(rng.choice([0, 1, 1, 2])):
                o = rng.choice(sess.NETOPS); st.append(Step(o, rargs(rng, o))); emit()
            if "write_fpga" in ops and rng.random() < .2:
                st += [Step("history", {"a": True}), Step("map_fpga", dict(rargs(rng, "map_fpga"), t=1)), Step("write_fpga")]
            return st
        def batch(n, k=6): ck.run([[x for _ in range(k) for x in one()] for _ in range(n)])
        batch(quick_n)
        if not ctx.quick:
            while ctx.left(600) > 0: batch(60)
            ck = CliCheck(ctx, ck.relevant, "asan", timeout=240)
            while ctx.left(800) > 0: batch(20, 4)
    return run

def rel17(ev, l, t):
    op, name = t.split(".")
    return op == "write_fpga" or (op == "map_fpga" and name not in ("depth", "area", "answer")) or t == "print_stats.lut"
def rel18(ev, l, t): return t.split(".")[0] in ("write_primary", "write_dot")

# ---------------------------------------------------------------- S19
def gen_hist(ctx, sim):
    """command sequences derived from the history machine by TLC"""
    mc = tlc.run("GenHist", "SPECIFICATION GSpec\nCONSTANTS HistMax = 5\n MaxVer = 4\nINVARIANTS Sizes Versions Emit\nPROPERTIES Stable\nVIEW Seen\nCHECK_DEADLOCK FALSE\n", workers=1)
    if mc.violated: raise tlc.TlcError("GenHist " + str(mc.violated))
    ctx.add(states=mc.distinct, transitions=mc.generated)
    paths = [json.loads(x.replace('\\"', '"')) for x in mc.paths]
    full = tlc.run("GenHist", "SPECIFICATION GSpec\nCONSTANTS HistMax = 2\n MaxVer = 2\nINVARIANTS Sizes Versions\nPROPERTIES Stable\nCONSTRAINT Short\nCHECK_DEADLOCK FALSE\n")
    if full.violated: raise tlc.TlcError("GenHist " + str(full.violated))
    ctx.add(states=full.distinct, transitions=full.generated)
    s = tlc.run("GenHist", "SPECIFICATION SimSpec\nCONSTANTS HistMax = 5\n MaxVer = 8\nINVARIANT EmitLong\nCHECK_DEADLOCK FALSE\n",
                extra=["-simulate", "num=%d" % sim, "-depth", "19", "-seed", str(ctx.seed * 1000 + ctx.cov.get("sims", 0))], workers=1)
    ctx.add(sims=1)
    # TLC emits every last step of a walk: keep one of them
    lp = [json.loads(x.replace('\\"', '"')) for x in s.paths]
    seen = {}
    ctx.rng.shuffle(lp)
    for p in lp: seen.setdefault(json.dumps(p[:-1]), p)
    lp = list(seen.values())[:sim]
    ctx.add(model_transitions_replayed=len(paths), model_walks_replayed=len(lp))
    return [p for p in paths if p], lp

def history(ctx):
    ctx.level = "model_checking"
    model_check(ctx)
    rng = ctx.rng
    ck = CliCheck(ctx, lambda ev, l, t: t.split(".")[0] in ("history", "slot") or (t == "write_aiger.same" and l > 1 and ev[l - 2]["op"] in ("history", "slot"))
                  or (t.split(".")[0] == "map_fpga" and ev[l - 1]["op"] == "map_fpga" and ev[l - 1]["args"]["t"] == 1))
    if not ck.slots: ctx.log("slot probe unavailable: slots observed through choice mapping only")
    def change():
        o = rng.choice(["rewrite", "refactor", "balance", "lut_opt", "lut_opt", "lut_opt", "cleanup"]); return Step(o, rargs(rng, o))
    def observe(): return [Step("slot", {"i": i}) for i in range(5)] + [Step("write_aiger")]
    def scen(path, dens):
        st = [read(A.restructured(rng, A.expr(rng, rng.randrange(3, 6), rng.randrange(4, 9), rng.randrange(1, 4))))]
        for c in path:
            if c["op"] == "change" or rng.random() < dens: st += [change()] + (observe() if rng.random() < .5 else [])
            if c["op"] == "history":
                a = c["args"]; last = c is path[-1]
                st.append(Step("history", {"a": bool(a["a"]), "c": bool(a["c"]), "s": bool(a["s"]), "r": None if a["r"] == sess.UNSET else a["r"]}))
                if last: st += observe()
                elif rng.random() < .25: st += [x for x in observe() if rng.random() < .6]
        st.append(Step("history", {"s": True}))
        if rng.random() < .4: st.append(Step("map_fpga", dict(rargs(rng, "map_fpga"), t=1)))
        if rng.random() < .5: st += [change()] + observe()
        return st
    def go(sim, first):
        paths, walks = gen_hist(ctx, sim)
        if ctx.quick: sel = paths
        else: sel = paths
        scs = [scen(p, .35) for p in sel] + [scen(p, .4) for p in walks]
        rng.shuffle(scs)
        # several sessions in one process: reading a file starts afresh
        ck.run([[x for s in scs[i:i + 5] for x in s + [Step("history", {"s": True})]] for i in range(0, len(scs), 5)])
    go(160, True)
    if not ctx.quick:
        while ctx.left(600) > 0: go(200, False)
        ck = CliCheck(ctx, ck.relevant, "asan", timeout=300)
        while ctx.left(800) > 0: go(20, False)

# ---------------------------------------------------------------- sessions over terms (Det)
DET_CFG = "SPECIFICATION TSpec\nCONSTANT HistMax = 5\nCHECK_DEADLOCK FALSE\n"
def det_events(steps, binary, slots, env=None, timeout=60, keep=None):
    """one process: events for Det"""
    d = keep or tempfile.mkdtemp(prefix="det-")
    try:
        cmds = sess.plan(steps, False, slots)
        for line, kind, i, f in cmds:
            if kind == "read" and steps[i].data is not None:
                with open(os.path.join(d, f), "wb") as h: h.write(steps[i].data)
        if keep:
            with open(os.path.join(d, "session.sc"), "w") as h: h.write("".join(c[0] + "\n" for c in cmds))
        old = dict(C.ENV)
        r = C.run_script(binary, [c[0] for c in cmds], d, timeout, env=env)
        died = r.rc != 0 or r.timeout
        ev = [{"op": "start", "args": 0, "resp": {"kind": "ok", "v": [], "warn": False}, "line": "(new process)"}]
        for k in range(min(len(r.segs), len(cmds))):
            line, kind, i, f = cmds[k]; s = steps[i]
            rp = C.resp(r.segs[k][1])
            e = {"op": s.op, "args": sess.eargs(s) if s.op in sess.OPTS else ({"i": s.args["i"]} if s.op == "slot" else 0),
                 "resp": rp, "file": "none", "obs": "", "line": line}
            if died and k == len(r.segs) - 1: e["resp"] = {"kind": "crash", "v": [], "warn": False}
            if kind == "read":
                e["valid"] = s.aig is not None; e["id"] = hashlib.sha256(s.data or b"").hexdigest()[:12]
            elif s.op == "print_stats": e["obs"] = json.dumps(rp["v"])
            elif f:
                try:
                    with open(os.path.join(d, f), "rb") as h: e["obs"] = hashlib.sha256(h.read()).hexdigest()[:16]
                    e["file"] = "some"
                except OSError: e["obs"] = "nothing"
            ev.append(e)
        return ev, r
    finally:
        if not keep: shutil.rmtree(d, ignore_errors=True)

DEFAULTS = {"rewrite": {"P": 10, "C": 4}, "refactor": {"I": 10, "C": 16}, "lut_opt": {"P": 10, "C": 6, "G": 1, "L": 2}, "map_fpga": {"P": 10, "C": 6, "G": 1, "L": 2, "t": 0}}
def explicit(s):
    """the same command with all defaults spelled out"""
    a = dict(s.args)
    for k, v in DEFAULTS.get(s.op, {}).items():
        if a.get(k) is None: a[k] = v
    return Step(s.op, a)

def refused(rng):
    """a command that has to be refused whatever the session has done"""
    r = rng.random()
    if r < .55:
        op = rng.choice(["rewrite", "refactor", "lut_opt", "map_fpga"]); a = rargs(rng, op)
        k, vals = rng.choice({"rewrite": [("P", [0, 1, 5, 21, 100, -1, -7, 2000000000]), ("C", [0, 1, 5, 6, 16, -1])],
                              "refactor": [("I", [13, 16, 100, -1]), ("C", [21, 64, 1000000, -3])],
                              "lut_opt": [("P", [0, 5, 21, 64, -1]), ("C", [0, 1, 7, 8, 12, -2]), ("G", [0, 3, 9, -1]), ("L", [0, 4, 10, -1])],
                              "map_fpga": [("P", [0, 5, 21, 64, -1]), ("C", [0, 1, 7, 8, 12, -2]), ("G", [0, 3, 9, -1]), ("L", [0, 4, 10, -1]), ("t", [2, 3, -1, 50])]}[op])
        a[k] = rng.choice(vals)
        return Step(op, a)
    if r < .65: return Step(rng.choice(["print_stats", "write_dot"]), {"t": rng.choice([2, 3, -1, 77])})
    if r < .70: return Step("write_primary", {"t": rng.choice([1, 2, 3, -1])})
    if r < .80: return read_missing(rng.choice(["missing.aig", ".", "no/such/dir.aig"]))
    if r < .88: return read_raw(rng.choice([b"", b"garbage\n", b"aag 1 1 0 1 0\n2\n2\n", b"\x7fELF\x02\x01\x01", b"module top(); endmodule\n"]))
    return Step("bogus", {"line": rng.choice(["rewrite -Q 3", "frobnicate", "balance -z", "cleanup 3", "rewrite -P abc", "print_stats -t", "history -r x", "map_fpga --foo", "refactor extra", "lut_opt -C six"])})

def refused_hist(rng): return Step("history", {"r": rng.choice([-2, -5, 5, 6, 50])})
def prereq(rng):
    """commands without prerequisites at the beginning of a session"""
    return rng.choice([Step(o, rargs(rng, o)) for o in sess.NETOPS] + [Step("map_fpga", rargs(rng, "map_fpga")), Step("map_fpga", {"t": 1}), Step("history", {"a": True}), Step("history", {"s": True, "r": 0}),
                       Step("write_aiger"), Step("write_fpga"), Step("write_primary"), Step("write_dot"), Step("write_dot", {"t": 1}), Step("print_stats"), Step("print_stats", {"t": 1}), refused(rng)])

OBS = lambda: [Step("write_aiger"), Step("print_stats"), Step("write_fpga"), Step("print_stats", {"t": 1}), Step("write_primary"), Step("write_dot"), Step("write_dot", {"t": 1})] + [Step("slot", {"i": i}) for i in range(5)]
def base_script(rng, big=.04):
    st = []
    mapped = False
    for _ in range(rng.randrange(1, 6)):
        r = rng.random()
        if r < .6: o = rng.choice(sess.NETOPS); st.append(Step(o, rargs(rng, o)))
        elif r < .8: st.append(Step("history", rng.choice([{"a": True}, {"a": True}, {"a": True, "s": True}, {"r": 0}, {"s": True}])))
        else: st.append(Step("map_fpga", dict(rargs(rng, "map_fpga"), t=rng.choice([0, 1]))))
    return st
def with_obs(rng, st, final, dens=0.0):
    """observations after some commands and at the end; those that need a mapping that is not there have to be refused"""
    res = []
    for s in st:
        res.append(s)
        if rng.random() < dens: res += OBS()
    return res + (OBS() if final else [])

def det_check(kind, relevant):
    def run(ctx):
        ctx.level = "model_checking"
        m = tlc.run("MCDet", "SPECIFICATION MSpec\nCONSTANTS HistMax = 2\n Len_ = %d\nINVARIANTS SameTerms\nCHECK_DEADLOCK FALSE\n" % (6 if ctx.quick else 8))
        if m.violated: raise tlc.TlcError("MCDet " + str(m.violated))
        ctx.add(states=m.distinct, transitions=m.generated); ctx.log("non-interference model checked")
        if kind == "stats": model_check(ctx)
        binary, slots = build.cli("chk")
        plain = build.plain_cli("chk") if kind == "det" else binary
        rng = ctx.rng
        def group():
            """sessions on one circuit that have to agree"""
            r = rd(rng, .05); S = base_script(rng)
            G = [([r] + with_obs(rng, S, True), None)]
            if kind == "refuse":
                for _ in range(2):
                    st = [prereq(rng) for _ in range(rng.choice([0, 0, 2, 5]))] + [r]
                    for s in S:
                        while rng.random() < .5:
                            st.append(refused(rng))
                            if rng.random() < .15: st.append(refused_hist(rng))
                        st.append(explicit(s) if rng.random() < .4 else s)
                    if rng.random() < .7: st.append(refused(rng))
                    G.append((with_obs(rng, st, True), None))
                # leftovers of other options on another circuit
                o = rd(rng); st = [o]
                for s in S:
                    if s.op in sess.OPTS and s.op != "history": st.append(Step(s.op, dict(rargs(rng, s.op), **({"t": 1} if s.op == "map_fpga" else {}))))
                st += [Step("print_stats", {"t": 1}), Step("write_dot", {"t": 1})] if any(s.op == "map_fpga" for s in S) else []
                G.append((st + [r] + with_obs(rng, S, True), None))
            elif kind == "stats":
                G.append(([r] + with_obs(rng, S, True, .8), None))
                st = [r]
                for s in S:
                    st += [Step("print_stats", rng.choice([{}, {"t": 0}])) for _ in range(rng.randrange(0, 4))] + [s]
                G.append((with_obs(rng, st, True), None))
            else:
                G.append(([r] + with_obs(rng, S, True), {"OMP_NUM_THREADS": "4", "LC_ALL": "C", "VERIF_PAD": "x" * rng.randrange(1, 4000)}))
                o = [rd(rng, .05)] + base_script(rng) + ([Step("history", {"a": True})] if rng.random() < .5 else [])
                if rng.random() < .5: o += [rd(rng)] + base_script(rng)
                G.append((o + [r] + with_obs(rng, S, True), None))
                G.append(([r] + S + [r] + with_obs(rng, S, True), None))   # the same circuit a second time
            return G
        OTHER = {"rewrite": [{"z": True}, {"l": True}, {"P": 6, "C": 3}, {"P": 20}], "refactor": [{"z": True}, {"l": True}, {"I": 4}, {"C": 2}],
                 "lut_opt": [{"z": True}, {"C": 3}, {"P": 20}, {"G": 2, "L": 3}], "map_fpga": [{"t": 1}, {"C": 3}, {"P": 20}, {"G": 2, "L": 3}]}
        def leftovers(per):
            """option values that show: circuits on which they change the result, used before the same command with its defaults"""
            tries = [(op, a, read(A.rand(rng, rng.randrange(4, 8), rng.randrange(15, 60), 3) if rng.random() < .7 else A.sample(rng, 1.5))) for op in OTHER for a in OTHER[op] for _ in range(40 if op == "rewrite" else 12)]
            res = []
            final = lambda op: [Step("write_fpga")] if op == "map_fpga" else [Step("write_aiger")]
            def look(part):
                out = []; st = []
                for op, a, r in part: st += [r, Step(op)] + final(op) + [r, Step(op, a)] + final(op)
                e, _ = det_events(st, binary, slots, timeout=120)
                for i, t in enumerate(part):
                    if 6 * i + 6 < len(e) and e[6 * i + 3]["obs"] != e[6 * i + 6]["obs"]: out.append(t)
                return out
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(8) as ex: shown = [t for part in ex.map(look, [tries[i::8] for i in range(8)]) for t in part]
            for op in OTHER:
                for a in OTHER[op]:
                    c = [t for t in shown if t[0] == op and t[1] == a]
                    for _, _, r in c[:per]:
                        q = [Step(op)] + final(op)
                        res.append([([r] + q, None), ([r, Step(op, a)] + final(op) + [r] + q, None), ([r, Step(op, a)] + q, None), ([r, Step(op, a), explicit(Step(op))] + final(op), None)])
            ctx.log("leftovers:", len(res), "groups,", {op: sum(t[0] == op for t in shown) for op in OTHER}, "circuits show an option")
            ctx.add(leftover_groups=len(res))
            return res
        def play(G, timeout=60, keep=None):
            ev = []; dead = False
            for j, (st, env) in enumerate(G):
                k = None
                if keep: k = os.path.join(keep, "session%d" % j); os.makedirs(k, exist_ok=True)
                e, r = det_events(st, plain if not any(x.op == "slot" for x in st) else binary, slots, env, timeout, k)
                ev += e
                if e[-1]["resp"]["kind"] == "crash": break
            return ev
        def batch(n, timeout=60, more=()):
            Gs = [group() for _ in range(n)] + list(more)
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(8) as ex: evs = list(ex.map(play, Gs))
            f, res = tlc.validate("DetTrace", [sess.strip(e) for e in evs], DET_CFG)
            ctx.add(traces_validated_against_impl=len(evs), sessions=sum(len(g) for g in Gs), events=sum(len(e) for e in evs), trace_states=res.distinct)
            if len(ctx.cov.get("samples", [])) < 2: ctx.add(samples=[[x["line"] for x in evs[0]][:60]])
            for (ep, l), tags in sorted(f.items())[:5]:
                if not [t for t in tags if relevant(t)]: continue
                d = ctx.replay_dir()
                e2 = play(Gs[ep - 1], timeout * 3, d)
                f2, _ = tlc.validate("DetTrace", [sess.strip(e2)], DET_CFG)
                hit = [(k[1], [t for t in v if relevant(t)]) for k, v in f2.items()]
                hit = [h for h in hit if h[1]]
                if hit:
                    l2, t2 = hit[0]
                    with open(os.path.join(d, "trace.json"), "w") as h: json.dump([sess.strip(e2)], h)
                    start = max(i for i in range(l2) if e2[i]["op"] == "start")
                    ctx.violation("%s:%s" % (t2[0], hashlib.sha256(json.dumps([x["line"] for x in e2[:l2]]).encode()).hexdigest()[:12]),
                                  "%s at `%s`, session %s" % (t2, e2[l2 - 1]["line"], [x["line"] for x in e2[start + 1:l2]][-14:]), dir=d)
                else:
                    ctx.add(unconfirmed=1); shutil.rmtree(d)
        batch(60, more=leftovers(2) if kind == "refuse" else ())
        if kind == "stats":
            ck = CliCheck(ctx, lambda ev, l, t: t.split(".")[0] == "print_stats")
            def st():
                s = []
                for _ in range(6):
                    s.append(read(special(rng)) if rng.random() < .3 else rd(rng, .06)); s.append(Step("print_stats"))
                    for b in base_script(rng):
                        s.append(b); s.append(Step("print_stats"))
                        if b.op == "map_fpga": s.append(Step("print_stats", {"t": 1}))
                        if rng.random() < .3: s += [Step("print_stats", {"t": rng.choice([0, 1])})] if any(x.op == "map_fpga" for x in s[-3:]) else []
                return s
            ck.run([st() for _ in range(50)])
        if not ctx.quick:
            while ctx.left(800) > 0 and len(ctx.viol) < 8:
                batch(60, more=leftovers(3) if kind == "refuse" else ())
                if kind == "stats": ck.run([st() for _ in range(40)])
    return run

CHECKS = {
    "I17": out_check(("write_fpga",), rel17, 70),
    "I18": out_check(("write_primary", "write_dot"), rel18, 70),
    "S19": history,
    "S20": det_check("refuse", lambda t: True),
    "S21": det_check("stats", lambda t: t.split(".")[1] in ("differs", "aig", "lut") or t.split(".")[0] == "print_stats"),
    "S22": det_check("det", lambda t: t.split(".")[1] == "differs"),
}
