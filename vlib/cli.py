"""Running recorded sessions of the command line tool."""
import os, re, shutil, signal, subprocess, tempfile
from . import aig

ENV = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:verify_asan_link_order=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1"
ENV["OMP_NUM_THREADS"] = "1"

class Run:
    __slots__ = ("segs", "rc", "timeout", "err", "dir")

def run_script(binary, cmds, cwd, timeout=120, mem_mb=4096, env=None):
    """cmds: list of command lines.  Returns the printed lines of every command that was started."""
    sc = os.path.join(cwd, "session.sc")
    with open(sc, "w") as f: f.write("".join(c + "\n" for c in cmds))
    import resource
    def lim():
        os.setsid()
        if "asan" not in binary: resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    r = Run(); r.timeout = False; r.dir = cwd
    p = subprocess.Popen(["stdbuf", "-oL", binary, "-e", "-f", sc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         cwd=cwd, env=dict(ENV, **(env or {})), preexec_fn=lim)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, err = p.communicate()
    r.rc = p.returncode; r.err = out.decode("latin1")[-1500:]
    segs = []
    for line in out.decode("latin1").split("\n"):
        if line.startswith("imap> "):
            segs.append((line[6:], []))
        elif segs and line: segs[-1][1].append(line)
    r.segs = segs
    return r

RX = re.compile(r"Stats of (AIG|FPGA): pis=(\d+), pos=(\d+), area=(\d+), depth=(\d+)")
RH = re.compile(r"INFO: the history size is (-?\d+)")
def resp(lines):
    """the tool's answer as a record"""
    warn = any(("WARN" in l or "FAIL" in l or "ERROR" in l or "[e]" in l) for l in lines)
    for l in lines:
        m = RX.search(l)
        if m: return {"kind": "stats", "v": [int(x) for x in m.groups()[1:]], "warn": warn}
    for l in lines:
        m = RH.search(l)
        if m: return {"kind": "size", "v": [int(m.group(1))], "warn": warn}
    return {"kind": "warn" if warn else "ok", "v": [], "warn": warn}

# ---- tokenising written netlists (no judgement, only structure) -----------------
TOK = re.compile(r"\s*(\\\S+\s|[A-Za-z_$][A-Za-z0-9_$]*|\d+'[bhdo][0-9a-fA-FxXzZ]+|\d+|[^\sA-Za-z0-9_$])")
def vtok(text):
    i = 0; out = []
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            if text[i:].strip() == "": break
            out.append(text[i]); i += 1; continue
        t = m.group(1)
        if t.startswith("\\") and len(t) > 1: t = t[1:].strip()   # escaped identifier = its name
        elif t[0].isalpha() or t[0] in "_$": pass
        out.append(t if not m.group(1).startswith("\\") else "\\" + t); i = m.end()
    # names are compared without the escape
    return out
def _nm(t): return t[1:] if t.startswith("\\") else t
def parse_lut_verilog(text):
    """structure of a LUT netlist; raises ValueError if it is not of that shape"""
    T = vtok(text); i = 0
    N = {"ports": [], "ins": [], "outs": [], "wires": [], "luts": [], "assigns": []}
    def need(x):
        nonlocal i
        if i >= len(T) or T[i] != x: raise ValueError("expected %s got %s" % (x, T[i:i + 3]))
        i += 1
    def ident():
        nonlocal i
        t = T[i]
        if not (t[0].isalpha() or t[0] in "_\\$"): raise ValueError("identifier, got " + t)
        i += 1; return _nm(t)
    need("module"); N["module"] = ident(); need("(")
    while T[i] != ")":
        N["ports"].append(ident())
        if T[i] == ",": i += 1
    need(")"); need(";")
    inst = {}
    while True:
        if i >= len(T): raise ValueError("no endmodule")
        t = T[i]
        if t == "endmodule": i += 1; break
        if t in ("input", "output", "wire"):
            i += 1
            while True:
                N[{"input": "ins", "output": "outs", "wire": "wires"}[t]].append(ident())
                if T[i] == ",": i += 1; continue
                break
            need(";")
        elif t == "assign":
            i += 1; lhs = ident(); need("=")
            if re.match(r"\d+'b[01]$", T[i]): rhs = T[i]; i += 1
            elif T[i] in "~": raise ValueError("inverted assign")
            else: rhs = ident()
            need(";"); N["assigns"].append([lhs, rhs])
        elif t == "defparam":
            i += 1; n = ident(); need("."); need("INIT"); need("=")
            m = re.match(r"(\d+)'h([0-9a-fA-F]+)$", T[i])
            if not m: raise ValueError("INIT " + T[i])
            i += 1; need(";")
            if n not in inst or "w" in inst[n]: raise ValueError("defparam of " + n)
            inst[n]["w"] = int(m.group(1)); v = int(m.group(2), 16)
            inst[n]["digits"] = len(m.group(2))
            inst[n]["init"] = [(v >> (16 * q)) & 0xFFFF for q in range(max(1, (max(inst[n]["w"], 4 * len(m.group(2))) + 15) // 16))]
        elif re.match(r"LUT\d+$", t):
            i += 1; k = int(t[3:]); n = ident(); need("("); pins = []
            while T[i] != ")":
                pins.append(ident() if not re.match(r"\d+'b[01]$", T[i]) else T[i])
                if re.match(r"\d+'b[01]$", T[i]): i += 1
                if T[i] == ",": i += 1
            need(")"); need(";")
            if n in inst or not pins: raise ValueError("instance " + n)
            inst[n] = {"k": k, "name": n, "pins": pins[:-1], "out": pins[-1]}; N["luts"].append(inst[n])
        else: raise ValueError("token " + t)
    if i != len(T): raise ValueError("text after endmodule")
    for l in N["luts"]:
        if "w" not in l: raise ValueError("no INIT for " + l["name"])
    return N

def parse_gate_verilog(text):
    T = vtok(text); i = 0
    G = {"ports": [], "ins": [], "outs": [], "wires": [], "assigns": []}
    def need(x):
        nonlocal i
        if i >= len(T) or T[i] != x: raise ValueError("expected %s got %s" % (x, T[i:i + 3]))
        i += 1
    def ident():
        nonlocal i
        t = T[i]
        if not (t[0].isalpha() or t[0] in "_\\$"): raise ValueError("identifier, got " + t)
        i += 1; return _nm(t)
    need("module"); ident(); need("(")
    while T[i] != ")":
        G["ports"].append(ident())
        if T[i] == ",": i += 1
        elif T[i] != ")": raise ValueError("port list")
    need(")"); need(";")
    while True:
        t = T[i]
        if t == "endmodule": i += 1; break
        if t in ("input", "output", "wire"):
            i += 1
            while T[i] != ";":
                G[{"input": "ins", "output": "outs", "wire": "wires"}[t]].append(ident())
                if T[i] == ",": i += 1
                elif T[i] != ";": raise ValueError("declaration")
            need(";")
        elif t == "assign":
            i += 1; a = {"lhs": ident(), "op": "", "rd": [], "inv": []}; need("=")
            while True:
                inv = 0
                while T[i] == "~": inv ^= 1; i += 1
                if re.match(r"\d+'b[01]$", T[i]): a["rd"].append(T[i]); i += 1
                else: a["rd"].append(ident())
                a["inv"].append(inv)
                if T[i] == ";": break
                if T[i] not in "&|^" or (a["op"] and a["op"] != T[i]): raise ValueError("operator " + T[i])
                a["op"] = T[i]; i += 1
            need(";"); G["assigns"].append(a)
        else: raise ValueError("token " + t)
    if i != len(T): raise ValueError("text after endmodule")
    return G

def parse_dot(text):
    D = {"nodes": [], "edges": [], "ranks": []}
    L = [l.strip() for l in text.split("\n")]
    L = [l for l in L if l]
    if not L or not re.match(r"(strict )?digraph\b.*\{$", L[0]) or L[-1] != "}": raise ValueError("frame")
    for l in L[1:-1]:
        m = re.match(r"(\w+)\s*->\s*(\w+)\s*\[(.*)\];?$", l)
        if m:
            s = re.search(r"style=(\w+)", m.group(3)); D["edges"].append([m.group(1), m.group(2), s.group(1) if s else "solid"]); continue
        m = re.match(r"\{\s*rank\s*=\s*same;(.*)\}$", l)
        if m:
            D["ranks"].append([x.strip() for x in m.group(1).split(";") if x.strip()]); continue
        m = re.match(r"(\w+)\s*\[(.*)\];?$", l)
        if m and m.group(1) not in ("graph", "node", "edge"):
            s = re.search(r"shape=(\w+)", m.group(2)); D["nodes"].append([m.group(1), s.group(1) if s else ""]); continue
        if re.match(r"\w+\s*=\s*\w+;?$", l): continue
        raise ValueError(l)
    return D
