#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.common import Broken, Check


def dispatch(pid):
    if pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
        from vlib import programs
        return programs.check
    if pid in ("C09", "C10", "C21", "C24"):
        from vlib import inproc
        return inproc.check
    if pid == "C23":
        from vlib import shapes
        return shapes.check
    if pid == "C20":
        from vlib import pinned
        return pinned.check
    if pid == "C25":
        from vlib import names
        return names.check
    if pid == "C22":
        from vlib import features
        return features.check
    if pid == "C19":
        from vlib import dispatch as d, inproc
        return lambda c: (d.check(c), inproc.check_part(c))
    if "C11" <= pid <= "C19":
        from vlib import dispatch as d
        return d.check
    raise SystemExit(f"no check for {pid}")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    f = dispatch(pid)
    c = Check(pid, tier)
    try:
        f(c)
        r = c.finish()
    except Broken as e:
        if c.viol:
            # a violation was already established before the machinery gave up
            print("note: check incomplete:", str(e)[:1500])
            sys.exit(c.finish())
        print("ERROR:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    sys.exit(r)


main()
