"""Running TLC on the modules in /verif/spec."""
import random, json, os, re, shutil, subprocess, tempfile, time
from .build import VERIF
SPEC = os.path.join(VERIF, "spec")

class TlcError(Exception):
    pass

class Result:
    __slots__ = ("generated", "distinct", "paths", "npaths", "violated", "out", "wall", "depth", "coverage")

def run(module, cfg, files=None, workers=None, extra=(), timeout=800, mem="6g", ok_violation=False, sample=None):
    """module: name of a module in /verif/spec; cfg: configuration text; files: name -> bytes/obj placed next to it."""
    d = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as f: f.write(cfg)
        for n, v in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(v if isinstance(v, str) else json.dumps(v, separators=(",", ":")))
        w = str(workers or min(8, os.cpu_count() or 1))
        env = dict(os.environ); env["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (mem, d)
        t0 = time.time()
        cmd = ["tlc", "-config", module + ".cfg", "-workers", w, "-deadlock", "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", *extra, module + ".tla"]
        r = Result(); so = os.path.join(d, "stdout")
        try:
            for attempt in (0, 1, 2):
                with open(so, "wb") as fo: p = subprocess.run(cmd, cwd=d, env=env, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
                if p.returncode not in (-9, 137): break     # ended from outside, when memory is short: once more
                time.sleep(5 + 10 * attempt)
        except subprocess.TimeoutExpired as e:
            raise TlcError("TLC timeout on " + module)
        # emitted call sequences are many: keep a reservoir sample of `sample` of them, and their number
        keep, r.paths, r.npaths, rng = [], [], 0, random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        with open(so, errors="replace") as fo:
            for line in fo:
                if line.startswith('<<"PATH", "') and line.endswith('">>\n'):
                    r.npaths += 1
                    if sample is None or len(r.paths) < sample: r.paths.append(line[11:-4])
                    else:
                        k = rng.randrange(r.npaths)
                        if k < sample: r.paths[k] = line[11:-4]
                else: keep.append(line)
        out = "".join(keep); r.out = out; r.wall = time.time() - t0
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out); r.depth = int(m[-1]) if m else 0
        r.violated = re.findall(r"Error: (?:Invariant|Action property|Property|Temporal properties?) ?(\S*) (?:is|was|were) violated", out)
        bad = re.search(r"^Error: (?!The behavior up to|Invariant|Action property)(.*)$", out, re.M)
        if (p.returncode not in (0,) and not (r.violated and p.returncode in (12, 13))) or "Finished in" not in out and "Finished" not in out:
            raise TlcError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, re.sub(r'(?sm)Parsing file.*?Starting|The error occurred when.*|^<<.*?>>$', '', out)[-1800:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def fails(r, word="FAIL"):
    """<<"FAIL", ep, l, {tags}>> prints -> {(ep, l): [tags]}"""
    res = {}
    for m in re.finditer(r'<<\s*"%s",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>' % word, r.out):
        res[int(m.group(1)), int(m.group(2))] = re.findall(r'"([^"]+)"', m.group(3))
    return res

def validate(module, episodes, cfg=None, name="trace.json", **kw):
    """Trace validation: episodes is a list of event lists.  Returns ({(ep, l): tags}, Result); the number of distinct
    states is compared with the number of events consumed, so an unread event is an error of the check."""
    if not episodes: return {}, None
    r = run(module, cfg or "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", {name: episodes}, **kw)
    f = fails(r)
    want = 0
    first = {}
    for (ep, l) in f: first[ep] = min(l, first.get(ep, 1 << 30))
    for i, ev in enumerate(episodes, 1):
        want += 1 + (len(ev) if i not in first else first[i])
    if r.distinct != want:
        raise TlcError("%s: %d states, expected %d\n%s" % (module, r.distinct, want, r.out[-2000:]))
    return f, r
