"""Checks that validate recorded sessions of the command line tool against IMap."""
import hashlib, json, os, random, shutil, tempfile, time
from . import aig as A, build, cli as C, sess, tlc
from .sess import Step, read, read_raw, read_missing

TRACE_CFG = "SPECIFICATION TSpec\nCONSTANT HistMax = 5\nCHECK_DEADLOCK FALSE\n"
MC_CFG = """SPECIFICATION Spec
CONSTANTS HistMax = 2
 Small = %s
INVARIANTS SessionSound HistorySound MappingSound HistoryBounded NothingWithoutAig Wf
PROPERTIES ReadResets OnlyOne HistoryGrows KeepsEarlier NeverGone
CHECK_DEADLOCK FALSE
"""
def model_check(ctx):
    """the session machine itself, exhaustively over a small universe"""
    r = tlc.run("MCIMap", MC_CFG % ("TRUE" if ctx.quick else "FALSE"))
    if r.violated: raise tlc.TlcError("MCIMap: %s violated\n%s" % (r.violated, r.out[-3000:]))
    ctx.add(states=r.distinct, transitions=r.generated)

def rargs(rng, op):
    """accepted options"""
    p = rng.random()
    if op == "rewrite":
        a = {} if p < .35 else {"P": rng.choice([None, None, 6, 8, 20, rng.randrange(6, 21)]), "C": rng.choice([None, 4, 3, 2])}
        if rng.random() < .25: a["z"] = True
        if rng.random() < .15: a["l"] = True
    elif op == "refactor":
        a = {} if p < .35 else {"I": rng.choice([None, 12, 10, 8, 6, 5, 4, 3, 2, 1, 0]), "C": rng.choice([None, None, 20, 16, 8, 4, 2, 1, 0])}
        if rng.random() < .35: a["z"] = True
        if rng.random() < .25: a["l"] = True
    elif op in ("lut_opt", "map_fpga"):
        a = {} if p < .3 else {"P": rng.choice([None, None, 6, 8, 12, 20, rng.randrange(6, 21)]), "C": rng.choice([None, 6, 5, 4, 3, 2]),
                               "G": rng.choice([None, 1, 2]), "L": rng.choice([None, 1, 2, 3])}
        if op == "lut_opt" and rng.random() < .15: a["z"] = True
    else: a = {}
    return {k: v for k, v in a.items() if v is not None}

def keep_verbose_off(a): return a

def gbig(rng, lim=None):
    g = A.big(rng)
    while lim and len(g["ands"]) > lim: g = A.big(rng)
    return g
def rd(rng, big=0.0, size=1.0, maxpi=7):
    """read a random circuit"""
    if rng.random() < big:
        g = gbig(rng, 900); return read(g, A.stimuli(rng, g["ni"], 6))
    g = A.sample(rng, size, maxpi)
    if g["ni"] > 10: return read(g, A.stimuli(rng, g["ni"], 8))
    return read(g)

def key_of(steps, tag):
    h = hashlib.sha256()
    for s in steps: h.update((s.line() + "\n").encode() + (s.data or b""))
    return "%s:%s" % (tag, h.hexdigest()[:12])

def write_replay(ctx, steps, events, tags, slots):
    d = ctx.replay_dir()
    cmds = sess.plan(steps, True, slots)
    for line, kind, i, f in cmds:
        if kind == "read" and steps[i].data is not None:
            with open(os.path.join(d, f), "wb") as h: h.write(steps[i].data)
    with open(os.path.join(d, "session.sc"), "w") as h: h.write("".join(c[0] + "\n" for c in cmds))
    with open(os.path.join(d, "trace.json"), "w") as h: json.dump([sess.strip(events)], h)
    return d

class CliCheck:
    """validates sessions; tags(ep_events, l, tags) -> the tags that concern this property"""
    def __init__(s, ctx, relevant, mode="chk", probes=True, timeout=60, module="IMapTrace", cfg=TRACE_CFG, conv=None):
        s.ctx, s.relevant, s.mode, s.timeout, s.module, s.cfg, s.conv = ctx, relevant, mode, timeout, module, cfg, conv
        s.bin, s.slots = build.cli(mode)
        s.reported = 0
        ctx.log("tool built (%s)" % mode)
    def rec_one(s, steps, timeout=None): return sess.record(s.bin, steps, slots=s.slots, timeout=timeout or s.timeout)
    def validate(s, recs):
        eps = []; where = []
        for ri, r in enumerate(recs):
            for e in sess.episodes(r):
                eps.append(s.conv(sess.strip(e)) if s.conv else sess.strip(e)); where.append((ri, e))
        f, res = tlc.validate(s.module, eps, s.cfg)
        n = sum(len(e) for e in eps)
        s.ctx.add(traces_validated_against_impl=len(eps), events=n, trace_states=res.distinct if res else 0)
        ops = {}
        for e in eps:
            for x in e: ops[x["op"]] = ops.get(x["op"], 0) + 1
        s.ctx.add(events_by_command=ops)
        if eps and len(s.ctx.cov.get("samples", [])) < 3:
            k = len(eps) // 2
            s.ctx.add(samples=[{"commands": [x["line"] for x in where[k][1]], "circuit": {"ni": where[k][1][0].get("aig", {}).get("ni"), "ands": len(where[k][1][0].get("aig", {}).get("ands", []))}}])
        return {k: v for k, v in f.items()}, where
    def run(s, scenarios):
        recs = sess.record_all(s.bin, scenarios, slots=s.slots, timeout=s.timeout)
        for r in recs: s.ctx.add(sessions=1)
        f, where = s.validate(recs)
        todo = []
        for (ep, l), tags in sorted(f.items()):
            ri, ev = where[ep - 1]
            t = [x for x in tags if s.relevant(ev, l, x)]
            if t: todo.append((ri, ev, l, t))
        for ri, ev, l, t in todo[:6]:
            if s.reported < 8: s.confirm(scenarios[ri], ev, l, t)
        # a session that died leaves the rest of its scenario unexplored: run the rest
        rest = []
        for r, sc in zip(recs, scenarios):
            if not r.ended and r.events:
                nxt = r.events[-1]["step"] + 1
                while nxt < len(sc) and not (sc[nxt].op == "read_aiger" and sc[nxt].aig is not None): nxt += 1
                if nxt < len(sc) and s.reported < 4: rest.append(sc[nxt:])
        if rest: s.run(rest)
    def confirm(s, steps, ev, l, tags):
        first, last = ev[0]["step"], ev[l - 1]["step"]
        for sub in (steps[first:last + 1], steps[:last + 1]):       # the episode alone, else everything before it too
            rec = s.rec_one(sub, s.timeout * 3)
            eps = sess.episodes(rec)
            f, _ = tlc.validate(s.module, [s.conv(sess.strip(e)) if s.conv else sess.strip(e) for e in eps], s.cfg)
            hit = [(k, [x for x in t if s.relevant(eps[k[0] - 1], k[1], x)]) for k, t in f.items()]
            hit = [h for h in hit if h[1]]
            if hit:
                (ep, l2), t2 = hit[0]
                sub = s.minimise(sub, t2[0])
                e = eps[ep - 1]
                d = write_replay(s.ctx, sub, e, t2, s.slots)
                s.reported += 1
                msg = "%s: after `%s` (%d events) in %s" % (", ".join(t2), e[l2 - 1]["line"], l2, [x["line"] for x in e][:12])
                if rec.run.err.strip() and not rec.ended: msg += " output ends: " + rec.run.err.strip()[-300:]
                if rec.run.timeout: msg += " (timeout)"
                s.ctx.violation(key_of(sub, t2[0]), msg, dir=d)
                return True
        s.ctx.add(unconfirmed=1)
        s.ctx.log("not reproduced: %s in %s" % (tags, [x["line"] for x in ev]))
        return False
    def minimise(s, steps, tag):
        return steps
