"""Common frame of all checks: seeds, budgets, reports, known findings, evidence."""
import json, os, random, re, shutil, sys, time, traceback
from . import build
VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")

def known():
    """lines  finding: property=<id> key=<key> <what fails>   (fixed: lines suppress nothing)"""
    res = {}
    try: lines = open(KNOWN).read().splitlines()
    except OSError: return res
    for l in lines:
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m: res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res

class Ctx:
    def __init__(s, pid, tier, seed):
        s.id, s.tier, s.seed = pid, tier, seed
        s.rng = random.Random("%s/%s/%d" % (pid, tier, seed))
        s.t0 = time.time(); s.cov = {}; s.viol = []; s.notes = []; s.level = "exploration"
        s.quick = tier == "quick"
        s.rdir = os.path.join(VERIF, "evidence", "replay", pid)
        shutil.rmtree(s.rdir, ignore_errors=True)
        s.nrep = 0
    def left(s, total):
        return total - (time.time() - s.t0)
    def log(s, *a):
        print("[%s %6.1fs]" % (s.id, time.time() - s.t0), *a, flush=True)
    def add(s, **kw):
        """accumulate coverage numbers"""
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool): s.cov[k] = s.cov.get(k, 0) + v
            elif isinstance(v, dict):
                d = s.cov.setdefault(k, {})
                for a, b in v.items(): d[a] = d.get(a, 0) + b
            elif isinstance(v, list): s.cov.setdefault(k, []).extend(v)
            else: s.cov[k] = v
    def replay_dir(s):
        s.nrep += 1
        d = os.path.join(s.rdir, "%03d" % s.nrep)
        os.makedirs(d, exist_ok=True)
        return d
    def violation(s, key, msg, files=None, dir=None):
        """a confirmed violation; files: name -> bytes/str/obj.  key identifies the failing input."""
        d = dir or s.replay_dir()
        for n, v in (files or {}).items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(v if isinstance(v, bytes) else (v if isinstance(v, str) else json.dumps(v, indent=1)).encode())
        with open(os.path.join(d, "README.txt"), "w") as f: f.write("property %s\n%s\nkey %s\n" % (s.id, msg, key))
        s.viol.append((key, msg, d))
    def finish(s):
        kn = known().get(s.id, {}); new = []; seen = set()
        for key, msg, d in s.viol:
            if key in kn: seen.add(key)
            else: new.append((key, msg, d))
        for key in kn:
            print("KNOWN-FINDING: property=%s %s" % (s.id, kn[key]))
        for key, msg, d in new[:20]:
            print("VIOLATION property=%s replay=%s" % (s.id, d)); print("  " + msg[:400])
        ev = {"property": s.id, "tier": s.tier, "seed": s.seed, "level": s.level,
              "coverage": s.cov, "wall_s": round(time.time() - s.t0, 1)}
        ev["coverage"]["violations"] = len(new); ev["coverage"]["known_findings_seen"] = len(seen)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", s.id + ".json"), "w") as f: json.dump(ev, f, indent=1, sort_keys=True)
        s.log("violations", len(new), "known", len(seen))
        return 1 if new else 0
