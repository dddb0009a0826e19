"""Recording sessions of the command line tool as traces of IMap."""
import concurrent.futures as cf, os, re, shutil, tempfile, zlib
from . import aig as A, cli as C

UNSET = -999
OPTS = {  # command -> (valued options, flags)
    "rewrite": ("PC", "lz"), "refactor": ("IC", "lz"), "balance": ("", ""), "cleanup": ("", ""),
    "lut_opt": ("PCGL", "zv"), "map_fpga": ("PCGLt", "v"), "history": ("r", "acs"),
    "print_stats": ("t", ""), "write_aiger": ("", ""), "write_fpga": ("", ""), "write_primary": ("t", ""), "write_dot": ("t", ""),
}
BADNET = {"ni": -2, "ands": [], "outs": []}
NETOPS = ("rewrite", "refactor", "balance", "cleanup", "lut_opt")

LONG = {  # the long names of the options
    "rewrite": {"P": "priority_size", "C": "cut_size", "l": "level_preserve", "z": "zero_gain"},
    "refactor": {"I": "max_input_size", "C": "max_cone_size", "l": "level_preserve", "z": "zero_gain"},
    "history": {"c": "clear", "s": "size", "a": "add", "r": "replace"}, "print_stats": {"t": "type"},
    "lut_opt": {"P": "priority_size", "C": "cut_size", "G": "global_area_iterations", "L": "local_area_iterations", "z": "zero_gain", "v": "verbose"},
    "map_fpga": {"P": "priority_size", "C": "cut_size", "G": "global_area_iterations", "L": "local_area_iterations", "t": "type", "v": "verbose"},
    "read_aiger": {"f": "filename"}, "write_aiger": {"f": "filename"}, "write_fpga": {"f": "filename"},
    "write_primary": {"f": "filename", "t": "type"}, "write_dot": {"f": "filename", "t": "type"},
}
def spell(line, k):
    """the same command line, now and then with the long names of its options (a function of the line and its position)"""
    w = line.split(" "); names = LONG.get(w[0], {}); h = zlib.crc32(("%d %s" % (k, line)).encode())
    if h % 3: return line
    r = w[:1]; i = 1; h //= 3
    while i < len(w):
        t = w[i]; h, b = divmod(h, 4)
        if len(t) == 2 and t[0] == "-" and t[1] in names and b:
            val = i + 1 < len(w) and w[i + 1][:1] != "-"
            if b == 1 and val: r.append("--%s=%s" % (names[t[1]], w[i + 1])); i += 2; continue
            t = "--" + names[t[1]]
        r.append(t); i += 1
    return " ".join(r)

class Step:
    """one command of a scenario"""
    __slots__ = ("op", "args", "data", "aig", "stim", "inn", "outn", "path")
    def __init__(s, op, args=None, **kw):
        s.op, s.args = op, dict(args or {})
        s.data = s.aig = s.stim = s.inn = s.outn = s.path = None
        for k, v in kw.items(): setattr(s, k, v)
    def line(s):
        r = s.op
        for k, v in s.args.items():
            if v is True: r += " -" + k
            elif v is not False and v is not None: r += " -%s %s" % (k, v)
        return r

def read(g, stim=None, inn=None, outn=None):
    """read a circuit; names: lists with '' where the file gives none"""
    inn = inn or [""] * g["ni"]; outn = outn or [""] * len(g["outs"])
    sym = "".join("i%d %s\n" % (i, n) for i, n in enumerate(inn) if n) + "".join("o%d %s\n" % (i, n) for i, n in enumerate(outn) if n)
    return Step("read_aiger", aig=g, data=A.tobytes(g, sym.encode()), stim=stim or [], inn=inn, outn=outn)
def read_raw(data): return Step("read_aiger", data=data)
def read_missing(path="missing.aig"): return Step("read_aiger", path=path)

def eargs(st):
    vals, flags = OPTS[st.op]
    r = {}
    for k in vals: r[k] = UNSET if st.args.get(k) is None else int(st.args[k])
    for k in flags: r[k] = 1 if st.args.get(k) else 0
    return r

def plan(steps, probes, slots):
    """steps -> [(line, kind, index, file)]"""
    cmds = []; nfile = 0
    def fresh(ext):
        nonlocal nfile
        nfile += 1
        return "f%03d.%s" % (nfile, ext)
    for i, s in enumerate(steps):
        if s.op == "read_aiger":
            f = s.path or fresh("aig")
            cmds.append(("read_aiger -f " + f, "read", i, f))
            if probes: cmds.append(("write_aiger -f %s" % (o := fresh("out")), "post", i, o))
        elif s.op in NETOPS:
            cmds.append((s.line(), "cmd", i, None))
            if probes: cmds.append(("write_aiger -f %s" % (o := fresh("out")), "post", i, o))
        elif s.op == "map_fpga":
            cmds.append((s.line(), "cmd", i, None))
            if probes: cmds.append(("write_fpga -f %s" % (o := fresh("v")), "post", i, o))
        elif s.op in ("write_aiger", "write_fpga", "write_primary", "write_dot"):
            o = s.path or fresh({"write_aiger": "out", "write_fpga": "v", "write_primary": "pv", "write_dot": "dot"}[s.op])
            cmds.append((s.line() + " -f " + o, "cmd", i, o))
        elif s.op == "slot":
            if slots: cmds.append(("xslot -i %d -f %s" % (s.args["i"], (o := fresh("out"))), "cmd", i, o))
        elif s.op == "raw":
            cmds.append((s.args["line"], "raw", i, None))
        elif s.op == "bogus":
            cmds.append((s.args["line"], "cmd", i, s.args.get("file")))
        else:
            cmds.append((s.line(), "cmd", i, None))
    return [(c if c[1] in ("raw",) or (c[1] == "cmd" and steps[c[2]].op == "bogus") else (spell(c[0], k), *c[1:])) for k, c in enumerate(cmds)]

def readaig(p):
    try:
        with open(p, "rb") as f: return A.parse(f.read())
    except (OSError, ValueError, IndexError): return None
def readlut(p):
    try:
        with open(p, "r", encoding="latin1") as f: return C.parse_lut_verilog(f.read())
    except (OSError, ValueError, IndexError): return None

class Rec:
    """a recorded session"""
    __slots__ = ("steps", "cmds", "run", "events", "ended", "dir")

def record(binary, steps, probes=True, slots=True, timeout=60, keep=None):
    """run the scenario and return its observations, one per command that was started"""
    d = keep or tempfile.mkdtemp(prefix="sess-")
    try:
        cmds = plan(steps, probes, slots)
        for line, kind, i, f in cmds:
            if kind == "read" and steps[i].data is not None:
                with open(os.path.join(d, f), "wb") as h: h.write(steps[i].data)
        r = C.run_script(binary, [c[0] for c in cmds], d, timeout)
        rec = Rec(); rec.steps, rec.cmds, rec.run = steps, cmds, r
        rec.events = events(steps, cmds, r, d, probes)
        rec.ended = r.rc == 0 and not r.timeout
        return rec
    finally:
        if not keep: shutil.rmtree(d, ignore_errors=True)

def events(steps, cmds, r, d, probes):
    ev = []; n = len(r.segs)
    ok = r.rc == 0 and not r.timeout
    crashed_at = None if ok else n - 1          # index of the command during which the tool died
    k = 0
    while k < len(cmds) and (k < n or (not ok and k == n)):
        line, kind, i, f = cmds[k]; s = steps[i]
        if k >= n: break
        if kind == "raw": k += 1; continue
        lines = r.segs[k][1]
        e = {"op": s.op, "args": eargs(s) if s.op in OPTS else ({"i": s.args.get("i", 0)} if s.op == "slot" else 0), "resp": C.resp(lines), "file": "none", "post": 0, "step": i, "line": line}
        if k == crashed_at: e["resp"] = {"kind": "crash", "v": [], "warn": False}
        if kind == "read":
            e["valid"] = s.aig is not None; e["aig"] = s.aig or BADNET; e["stim"] = s.stim or []
            e["inn"] = s.inn or []; e["outn"] = s.outn or []; e["post"] = BADNET
        if f and kind == "cmd":
            p = os.path.join(d, f)
            if os.path.exists(p):
                e["file"] = "some"
                if s.op in ("write_aiger", "slot"): e["post"] = readaig(p) or BADNET
                elif s.op == "write_fpga":
                    e["post"] = readlut(p)
                    if e["post"] is None: e["resp"] = {"kind": "crash", "v": [], "warn": False}
                elif s.op in ("write_primary", "write_dot"):
                    with open(p, encoding="latin1") as h: text = h.read()
                    try: e["post"] = (C.parse_gate_verilog if s.op == "write_primary" else C.parse_dot)(text)
                    except (ValueError, IndexError): e["post"] = {"bad": 1}
            elif s.op in ("write_aiger", "slot"): e["post"] = BADNET
            else: e["post"] = {"nofile": 1}
        k += 1
        # the probe that shows what the command left
        if k < len(cmds) and cmds[k][1] == "post" and cmds[k][2] == i:
            p = os.path.join(d, cmds[k][3])
            net = readlut(p) if s.op == "map_fpga" else readaig(p)
            if e["resp"]["kind"] != "crash":
                exists = os.path.exists(p)
                refused_probe = k < n and C.resp(r.segs[k][1])["kind"] == "warn"
                if net is not None and not (k == crashed_at): e["post"] = net
                elif refused_probe and not exists: e["post"] = BADNET      # nothing to observe
                else: e["resp"] = {"kind": "crash", "v": [], "warn": False}  # the result can not even be written
            k += 1
        ev.append(e)
        if e["resp"]["kind"] == "crash": break
    return ev

def episodes(rec):
    """split at successful reads: what happened before has no influence in the specification"""
    res = []; cur = []
    for e in rec.events:
        if e["op"] == "read_aiger" and e["valid"] and cur: res.append(cur); cur = []
        cur.append(e)
    if cur: res.append(cur)
    return res

STRIP = ("step", "line", "text")
def strip(ev): return [{k: v for k, v in e.items() if k not in STRIP} for e in ev]

def record_all(binary, scenarios, workers=8, **kw):
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(lambda s: record(binary, s, **kw), scenarios))
