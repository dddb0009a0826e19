#!/usr/bin/env python3
"""run.py check <ID> [--tier quick|thorough] | setup | list"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import build, check, registry

def main(a):
    if a[0] == "list":
        for k in sorted(registry.CHECKS): print(k)
        return 0
    if a[0] == "setup":
        import shutil
        for t in ("tlc", "g++", "java", "stdbuf"):
            if not shutil.which(t): print("missing " + t); return 1
        return 0
    pid = a[1]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = check.Ctx(pid, tier, seed)
    registry.CHECKS[pid](ctx)
    return ctx.finish()

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    try: rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
