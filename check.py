#!/usr/bin/env python3
"""check.py --prop Cxx: decides one property. See DESIGN.md."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from core import Check, CheckError, Violation  # noqa: E402
import plans  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    c = Check(a.prop, a.tier, a.seed)
    rc = 2
    try:
        plans.PLANS[a.prop](c)
        c.evidence(0)
        c.log("held on everything explored")
        rc = 0
    except Violation as v:
        c.notes.append("VIOLATION: " + v.what)
        c.evidence(1)
        print("rejected: " + v.what)
        print("VIOLATION property=%s replay=%s" % (a.prop, v.replay), flush=True)
        rc = 1
    except CheckError as e:
        print("no verdict: %s" % e, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        if a.keep:
            print("kept", c.dir)
        else:
            c.cleanup()
    return rc


if __name__ == "__main__":
    sys.exit(main())
