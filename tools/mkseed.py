"""mkseed(id, property, edits [(file, old, new)], needs, breaks, demo source)"""
import json, os, shutil, subprocess, tempfile
V = "/verif"
def mkseed(id, prop, edits, needs, breaks, demo, cpp=None):
    d = "%s/seeded/%s" % (V, id); os.makedirs(d, exist_ok=True)
    T = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", T + "/r"], check=True)
    for f, a, b in edits:
        p = T + "/r/" + f; s = open(p).read(); k = 0
        if isinstance(a, tuple): k = s.index(a[0]); a = a[1]; assert a in s[k:]     # the first occurrence after an anchor
        else: assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s[:k] + s[k:].replace(a, b, 1))
    for f, a, b in edits:     # changed lines must be lines of the original repository
        t = open("/repo/" + f).read(); k = 0
        if isinstance(a, tuple): k = t.index(a[0]); a = a[1]
        n = t[:t.index(a, k)].count("\n"); A, B = a.split("\n"), b.split("\n")
        bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f], capture_output=True, text=True).stdout.split("\n")
        for k, x in enumerate(A):
            if x not in B and "8fceafc" not in bl[n + k][:12]: print("WARNING: not an original line:", bl[n + k])
    diff = subprocess.run(["git", "-C", T + "/r", "diff"], capture_output=True, text=True).stdout
    shutil.rmtree(T)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(V + "/tools/demolib.py", d)
    if cpp is None:
        open(d + "/demo.py", "w").write("import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n" + demo)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    else:
        open(d + "/demo.cpp", "w").write(cpp)
        open(d + "/demo.sh", "w").write('''#!/bin/bash
# compiles the demonstration against /repo's sources and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -w -std=gnu++17 -fopenmp -O1 -DABC_NAMESPACE=pabc -DABC_NO_USE_READLINE -DDISABLE_NAUTY -DFMT_HEADER_ONLY -DLIN64 -D_GLIBCXX_ASSERTIONS \\
  -I$R/include -I$R -I$R/include/database -I$R/libs/kitty/include -I$R/include/utils -I$R/include/operations -I$R/libs/abcsat -I$R/libs/fmt -I$R/libs/lorina -I$R/libs/rang -I$R/include/flow -I$R/libs/json \\
  -isystem $R/libs -isystem $R/libs/percy %s "$D/demo.cpp" %s -o "$T/demo" -lpthread || exit 3
cd "$T" && timeout 120 ./demo
''' % (("", "") if "/*ABC*/" not in cpp else ("", "$(find $R/libs/abcsat -name '*.cpp')")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
