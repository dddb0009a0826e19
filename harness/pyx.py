"""pyx.py LIBDIR AI_INFRA: drives the Python interface of the tool; one JSON command per line on stdin, one answer per line."""
import ctypes, importlib.util, json, os, sys, tempfile
lib, infra = sys.argv[1:3]
sys.dont_write_bytecode = True
sys.path[:0] = [lib, infra]
answers = os.fdopen(os.dup(1), "w"); cap = tempfile.TemporaryFile()
os.dup2(cap.fileno(), 1); os.dup2(cap.fileno(), 2)
libc = ctypes.CDLL(None)
from lib import imap
import imap_engine
seen = []
class Proxy:
    """what arrives at the tool"""
    def __getattr__(s, name):
        f = getattr(imap, name)
        def call(*a, **k):
            seen.append((name, list(a), dict(k)))
            return f(*a, **k)
        return call
imap_engine.imap = Proxy()
Real = imap_engine.EngineIMAP
def printed():
    sys.stdout.flush(); libc.fflush(None); n = cap.seek(0, 2); cap.seek(0); t = cap.read(n); cap.seek(0); cap.truncate()
    return t.decode("latin1")
def run(f):
    del seen[:]; err = None
    try: f()
    except BaseException as e: err = "%s: %s" % (type(e).__name__, e)
    return {"out": printed(), "err": err, "seen": list(seen)}
METHODS = [m for m in dir(Real) if not m.startswith("_")]
log = None
class Recorded(Real):
    """an engine whose calls are recorded (for programs that make their own)"""
    def __getattribute__(s, name):
        f = object.__getattribute__(s, name)
        if name not in METHODS or log is None: return f
        def call(*a, **k):
            r = []; d = run(lambda: r.append(f(*a, **k))); log.append(dict(d, m=name, a=list(a), k=k, io=[s.input_file, s.output_file]))
            if d["err"]: raise RuntimeError(d["err"])
            return r[0]
        return call
engines = {}
for line in sys.stdin:
    c = json.loads(line); op = c["op"]
    if op == "new": r = run(lambda: engines.__setitem__(c["eng"], Real(c["in"], c["out"])))
    elif op == "call": r = run(lambda: getattr(engines[c["eng"]], c["m"])(*c.get("a", []), **c.get("k", {})))
    elif op == "raw": r = run(lambda: getattr(imap, c["m"])(**c["k"]))
    elif op == "demo":
        imap_engine.EngineIMAP = Recorded; log = []
        spec = importlib.util.spec_from_file_location("demo", os.path.join(infra, "demo.py")); demo = importlib.util.module_from_spec(spec)
        r = run(lambda: (spec.loader.exec_module(demo), demo.Demo(c["in"]).run())); r["log"] = log; log = None
    answers.write(json.dumps(r) + "\n"); answers.flush()
