#!/usr/bin/env python3
"""Parses every specification with SANY; the checks build their own harnesses."""
import glob, subprocess, sys, os
from vlib import SPEC, TLAJARS
bad = 0
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", TLAJARS, "tla2sany.SANY", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SPEC)
    if p.returncode != 0:
        print(p.stdout[-2000:])
        bad += 1
    print(os.path.basename(f), "ok" if p.returncode == 0 else "FAILED")
sys.exit(1 if bad else 0)
