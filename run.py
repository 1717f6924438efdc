#!/usr/bin/env python3
"""run.py <property> [--thorough]   decides one property for the tree in /repo
   run.py --all [--thorough]        all of them"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import vlib

def one(pid, thorough):
    mod = importlib.import_module("p_" + pid.lower())
    ck = vlib.Check(pid, thorough)
    try:
        return mod.run(ck)
    except vlib.ToolError as e:
        print("TOOL ERROR %s: %s" % (pid, e))
    except Exception:
        traceback.print_exc()
    # what was already rejected stands, whatever went wrong later
    try:
        if ck.viol and ck.finish() == 1: return 1
    except Exception:
        traceback.print_exc()
    return 2

if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    th = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv
    if "--all" in sys.argv:
        a = sorted(f[2:-3].upper() for f in os.listdir(os.path.join(vlib.VERIF, "tools")) if f.startswith("p_c"))
    rc = 0
    for p in a: rc = max(rc, one(p, th))
    sys.exit(rc)
