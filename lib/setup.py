#!/usr/bin/env python3
"""Checks that the tools are there and that everything parses and builds."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Check, SPEC, TLA  # noqa: E402

c = Check("setup", "quick", 1)
try:
    c.harness()
    c.harness(race=True)
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla"):
            r = subprocess.run(["java", "-cp", TLA, "tla2sany.SANY", os.path.join(SPEC, f)], cwd=SPEC,
                               capture_output=True, text=True)
            if r.returncode:
                print(r.stdout[-2000:])
                sys.exit(1)
            print("parsed", f)
finally:
    c.cleanup()
