#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree.

Exit 0: it held on everything explored. Exit 1 with a VIOLATION line: it is broken. Exit 2: error of the tooling."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        vlib.TIER = sys.argv[2]
        vlib.THOROUGH = vlib.TIER == "thorough"
    chk = vlib.Check(pid)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        mod.main(chk)
        rc = chk.finish()
    except vlib.ToolError as e:
        print("TOOL-ERROR %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        vlib.cleanup()
    sys.exit(rc)


main()
