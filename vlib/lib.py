"""Checks of the library below the command line: an interactive driver executes calls of the real classes, the recorded
histories are validated by TLC against a *Trace module, and failures are confirmed by replaying the calls in a fresh process."""
import json, os, selectors, subprocess, time, concurrent.futures as cf
from . import build, tlc

class Crash(Exception):
    pass

PREFIX = []      # calls that a replay makes in its process before the history itself

class Driver:
    def __init__(s, exe, timeout=30):
        s.exe, s.timeout, s.p, s.buf, s.log = exe, timeout, None, b"", []
    def start(s):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", OMP_NUM_THREADS="1")
        s.err = b""
        s.p = subprocess.Popen([s.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        s.sel = selectors.DefaultSelector(); s.sel.register(s.p.stdout, selectors.EVENT_READ); s.buf = b""; s.log = []
        for l in PREFIX: s.call(l)
    def stop(s):
        if s.p:
            try: s.p.kill()
            except OSError: pass
            s.p.wait(); s.p.stdout.close(); s.p.stdin.close(); s.sel.close(); s.p = None
    def call(s, line):
        if not s.p: s.start()
        s.log.append(line)
        try:
            s.p.stdin.write(line.encode() + b"\n"); s.p.stdin.flush()
        except (BrokenPipeError, OSError):
            s.stop(); raise Crash("write")
        end = time.time() + s.timeout
        while b"\n" not in s.buf:
            if not s.sel.select(max(0, end - time.time())):
                s.stop(); raise Crash("timeout")
            d = os.read(s.p.stdout.fileno(), 1 << 20)
            if not d:
                rc = s.p.wait(); s.stop(); raise Crash("exit %d" % rc)
            s.buf += d
        l, s.buf = s.buf.split(b"\n", 1)
        return json.loads(l)

def parallel(exe, tasks, work, n=8, timeout=30, origin=None):
    """work(driver, task) for every task on n driver processes; origin: {task: (calls of its process, number before the task)}"""
    def chunk(i):
        d = Driver(exe, timeout); out = []
        try:
            for k, t in enumerate(tasks[i::n]):
                before = (d.log, len(d.log)) if d.p else ([], 0)
                out.append(work(d, t))
                if origin is not None: origin[i + k * n] = before
        finally: d.stop()
        return out
    with cf.ThreadPoolExecutor(n) as ex: parts = list(ex.map(chunk, range(n)))
    res = [None] * len(tasks)
    for i, p in enumerate(parts): res[i::n] = p
    return res

def chunks(eps, maxev):
    """split episode lists so that one TLC run stays small"""
    cur, n = [], 0
    for i, e in enumerate(eps):
        if cur and n + len(e) > maxev: yield cur; cur, n = [], 0
        cur.append(i); n += len(e)
    if cur: yield cur

def judge(ctx, module, eps, maxev=4000, par=4, **kw):
    """-> {(episode, event): tags} over all episodes; several TLC processes side by side"""
    parts = list(chunks(eps, maxev)); fails = {}
    def one(part):
        f, r = tlc.validate(module, [eps[i] for i in part], workers=2, mem="3g", **kw)
        return {(part[ep - 1], l - 1): t for (ep, l), t in f.items()}, r
    with cf.ThreadPoolExecutor(par) as ex:
        for f, r in ex.map(one, parts):
            fails.update(f); ctx.add(states=r.distinct, transitions=r.generated)
    first = {}
    for ep, l in fails: first[ep] = min(l, first.get(ep, l))
    ill = [k for k, t in fails.items() if "harness.illegal" in t and first[k[0]] == k[1]]     # after a rejected event anything may follow
    if ill: raise tlc.TlcError("%s: the driver made a call outside the specification: episode %d event %d" % (module, *ill[0]))
    ctx.add(traces_validated_against_impl=len(eps), events=sum(map(len, eps)))
    return fails

def report(ctx, module, fails, eps, replay, key, want=None, origin=None):
    """confirm each distinct failure by replay(i) -> fresh events of episode i, first in a process of its own, then after the
    calls its process had made before; report what the specification still rejects, and the recorded history if the code
    answers differently every time"""
    global PREFIX
    seen = {}
    for (i, l), tags in sorted(fails.items()):
        t = tuple(sorted(x for x in tags if want is None or want(x)))
        if t: seen.setdefault(t, []).append((len(eps[i]), i, l))
    for t, lst in sorted(seen.items()):
        done = 0; lst.sort()
        for _, i, l, pre in [(*x, []) for x in lst[:3]] + [(*x, origin[x[1]][0][:origin[x[1]][1]]) for x in lst[:2] if origin and origin[x[1]][1]]:
            PREFIX = pre
            try: ev = replay(i)
            except Crash: continue
            finally: PREFIX = []
            f, _ = tlc.validate(module, [ev], workers=1)
            tags = sorted({x for v in f.values() for x in v})
            if not set(tags) & set(t): continue
            done = 1; break
        if not done:
            _, i, l = lst[0]; ev = eps[i]; pre = []; tags = t
            if ev[-1]["res"] == -2: raise tlc.TlcError("%s: %s not reproduced on replay" % (module, t))    # a process that was stopped for its time
        ctx.violation(key(i, l), "%s at call %d of %d (%d histories)%s%s" % (",".join(t), l + 1, len(eps[i]), len(lst), " after %d other calls in the process" % len(pre) if pre else "", "" if done else "; not on every run"),
                      {"trace.json": [ev], "calls.txt": "\n".join(pre + [e.get("line", "") for e in ev]) + "\n", "rejected.txt": ",".join(tags) + "\n"})

def campaign(ctx, module, exe, tasks, replayer, key, want=None, mine=None, maxev=3000, batch=4000, pick=()):
    """record every history in `tasks` on the real code, validate it against `module`, and report confirmed rejections; done
    in batches, so that only the rejected histories and a few samples stay in memory"""
    calls, kept, fails, n, orig = {}, {}, {}, 0, {}
    for b in range(0, len(tasks), batch):
        o = {}; eps = parallel(exe, tasks[b:b + batch], lambda d, t: t(d), origin=o)
        for ev in eps:
            n += len(ev)
            for e in ev: calls[e["op"]] = calls.get(e["op"], 0) + 1
        for (i, l), t in judge(ctx, module, eps, maxev=maxev).items():
            if mine is None or mine(eps[i], l): fails[b + i, l] = t; kept[b + i] = eps[i]; orig[b + i] = o[i]
        if b == 0 or b + batch >= len(tasks): ctx.add(samples=[{"calls": [e.get("line", "") for e in eps[i]]} for i in sorted({0, len(eps) - 1})])
    ctx.add(calls=calls); ctx.log(module, "histories:", len(tasks), "events:", n)
    report(ctx, module, fails, kept, replayer(exe, kept), lambda i, l: key(kept[i], l), want, orig)
