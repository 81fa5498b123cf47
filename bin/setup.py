#!/usr/bin/env python3
"""setup_cmd: check that the toolchain and the specification parse."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
os.makedirs(BUILD, exist_ok=True)
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
bad = 0
for f in sorted(os.listdir(SPEC)):
    if f.endswith(".tla"):
        r = run(["java", "-cp", JAR, "tla2sany.SANY", f], cwd=SPEC)
        if r.returncode:
            log(f, r.stdout[-1500:])
            bad = 1
sys.exit(bad)
