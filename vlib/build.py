"""Compiling /repo's current sources (plus harness drivers) into a cache keyed by source content."""
import hashlib, os, subprocess, sys, concurrent.futures as cf, threading, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
DEFS = "-DABC_NAMESPACE=pabc -DABC_NO_USE_READLINE -DALICE_ENV_HOME=ALICE_HOME -DDISABLE_NAUTY -DFMT_HEADER_ONLY -DLIN64".split()
INC = ["include", "", "include/database", "libs/kitty/include", "include/utils", "include/operations", "libs/abcsat",
       "libs/fmt", "libs/lorina", "libs/rang", "include/flow", "libs/json"]
SYS = ["libs", "libs/percy", "libs/alice/include", "libs/alice/lib/cli11"]
ABC = ["AbcGlucose", "Glucose", "SimpSolver", "satSolver", "satStore"]
MODES = {  # name -> flags
    "chk": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,vptr", "-D_GLIBCXX_ASSERTIONS"],
    "fast": ["-O2", "-g0", "-D_GLIBCXX_ASSERTIONS"],
    "rel": ["-O2", "-g0", "-DNDEBUG"],
}

class BuildError(Exception):
    pass

def flags(mode):
    f = list(DEFS) + ["-I" + os.path.join(REPO, d).rstrip("/") for d in INC]
    for d in SYS: f += ["-isystem", os.path.join(REPO, d)]
    return f + ["-w", "-std=gnu++17", "-fopenmp"] + MODES[mode]

_th = None
def tree_hash():
    """content hash of everything a translation unit may include"""
    global _th
    if _th: return _th
    h = hashlib.sha256()
    for top in ("include", "cli", "libs", "examples"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                if f.rsplit(".", 1)[-1] in ("hpp", "h", "cpp", "c", "cc", "hxx", "tcc", "def", "inc", "ipp") or "." not in f:
                    p = os.path.join(d, f)
                    try: b = open(p, "rb").read()
                    except OSError: continue
                    h.update(p.encode() + b"\0" + hashlib.sha256(b).digest())
    h.update(REPO.encode())
    _th = h.hexdigest()[:16]
    return _th

def _run(cmd, what):
    for attempt in (0, 1):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode == 0 or "Killed" not in p.stderr: break     # ended from outside, when memory is short: once more
        time.sleep(10)
    if p.returncode:
        raise BuildError(what + ":\n" + (p.stderr or p.stdout)[-3000:])

def _key(*parts):
    return hashlib.sha256("\0".join(parts).encode()).hexdigest()[:16]

def _prune():
    try:
        ents = [os.path.join(CACHE, e) for e in os.listdir(CACHE)]
    except OSError: return
    def age(e):
        try: return os.path.getmtime(e)
        except OSError: return time.time()      # gone: another process tidies up too
    ents = sorted((age(e), e) for e in ents)
    for _, e in ents[:-60]:
        if time.time() - age(e) > 3600:
            try: shutil.rmtree(e, ignore_errors=True) if os.path.isdir(e) else os.unlink(e)
            except OSError: pass

_locks = {}; _gl = threading.Lock()
def _lock(k):
    with _gl: return _locks.setdefault(k, threading.Lock())

def abc_lib(mode="chk"):
    key = _key("abc2", mode if mode == "asan" else "chk", tree_hash())
    out = os.path.join(CACHE, "abc-" + key + ".a")
    with _lock(out):
        if os.path.exists(out): return out
        os.makedirs(CACHE, exist_ok=True)
        tmp = os.path.join(CACHE, "t%d-%s" % (os.getpid(), key)); os.makedirs(tmp, exist_ok=True)
        m = "asan" if mode == "asan" else "chk"
        fl = [f for f in flags(m) if f != "-D_GLIBCXX_ASSERTIONS"] + ["-O2"]
        def one(s):
            _run(["g++"] + fl + ["-c", os.path.join(REPO, "libs/abcsat", s + ".cpp"), "-o", os.path.join(tmp, s + ".o")], s)
        with cf.ThreadPoolExecutor(5) as ex: list(ex.map(one, ABC))
        _run(["ar", "rcs", os.path.join(tmp, "l.a")] + [os.path.join(tmp, s + ".o") for s in ABC], "ar")
        os.replace(os.path.join(tmp, "l.a"), out); shutil.rmtree(tmp)
        return out

def _build(src, name, mode, extra=()):
    code = open(src).read()
    hdr = "".join(open(os.path.join(VERIF, "harness", f)).read() for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".hpp"))
    key = _key(name, mode, tree_hash(), code, hdr, " ".join(extra))
    out = os.path.join(CACHE, "%s-%s-%s" % (name, mode, key))
    with _lock(out):
        if os.path.exists(out): return out
        os.makedirs(CACHE, exist_ok=True); _prune()
        lib = abc_lib(mode)
        tmp = out + ".t%d" % os.getpid()
        _run(["g++"] + flags(mode) + ["-I" + os.path.join(VERIF, "harness")] + list(extra) + [src, "-o", tmp, lib, "-lpthread"], name)
        os.replace(tmp, out)
        return out

def cli(mode="chk"):
    """the command line tool plus a probe command for history slots; falls back to the plain tool"""
    try:
        return _build(os.path.join(VERIF, "harness", "imapx.cpp"), "imapx", mode), True
    except BuildError:
        return _build(os.path.join(REPO, "cli", "imap.cpp"), "imap", mode), False

def plain_cli(mode="chk"):
    return _build(os.path.join(REPO, "cli", "imap.cpp"), "imap", mode)

def driver(name, mode="chk"):
    return _build(os.path.join(VERIF, "harness", name + ".cpp"), name, mode)

def pymodule(mode="fast"):
    """the tool as a Python module -> a directory that has it as lib.imap.  The bundled pybind11 is older than the installed
    Python: the two places in it that look into interpreter frames (texts of error messages) are left out of a copy."""
    import sysconfig
    top = os.path.join(REPO, "libs/alice/lib/pybind11/include")
    key = _key("pymodule", mode, tree_hash(), sys.version)
    out = os.path.join(CACHE, "pymod-" + key)
    with _lock(out):
        if os.path.exists(out): return out
        os.makedirs(CACHE, exist_ok=True); _prune()
        tmp = out + ".t%d" % os.getpid(); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp + "/lib")
        shutil.copytree(top, tmp + "/inc")
        def edit(f, mark, guard="#if !defined(PYPY_VERSION)"):
            p = os.path.join(tmp, "inc/pybind11", f); t = open(p).read()
            if mark not in t: return
            k = t.index(mark); i = t.rindex(guard, 0, k); j = t.index("#e", k)
            if t.startswith("#else", j): t = t[:j] + "#elif 0" + t[j + 5:]
            open(p, "w").write(t[:i] + "#if 0" + t[i + len(guard):])
        edit("cast.h", "frame->f_code->co_filename"); edit("pybind11.h", "PyThreadState_Get()->frame")
        _run(["g++"] + flags(mode) + ["-DALICE_PYTHON", "-fPIC", "-shared", "-fvisibility=hidden", "-isystem", tmp + "/inc", "-I" + sysconfig.get_paths()["include"], os.path.join(REPO, "cli/imap.cpp")]
             + [os.path.join(REPO, "libs/abcsat/%s.cpp" % x) for x in ABC] + ["-o", tmp + "/lib/imap" + sysconfig.get_config_var("EXT_SUFFIX"), "-lpthread"], "python module")
        open(tmp + "/lib/__init__.py", "w").close(); shutil.rmtree(tmp + "/inc")
        os.replace(tmp, out)
        return out
