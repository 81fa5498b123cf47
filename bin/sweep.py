#!/usr/bin/env python3
"""Development aid: replay profiles on stacks, summarise failures."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import concurrent.futures as cf
profs, stacks = sys.argv[1].split(","), sys.argv[2].split(",")
num = int(sys.argv[3]) if len(sys.argv) > 3 else 100
nmax = int(sys.argv[4]) if len(sys.argv) > 4 else 4
mode = sys.argv[5] if len(sys.argv) > 5 else "mix"
mf = int(sys.argv[6]) if len(sys.argv) > 6 else 8
skip = sys.argv[7:] 
exe = os.path.join(BUILD, "qreplay")
def one(a):
    p, s, f, st = a
    try:
        return p, s, replay(exe, lambda fr: [s, f, mode, SEED, fr, mf] + skip, st["traces"], maxfail=mf, timeout=280)
    except CheckError as e:
        return p, s, ([(-1, str(e))], {})
with cf.ThreadPoolExecutor(8) as ex:
    files = list(ex.map(lambda p: (p,) + gen(p, num, SEED, 1, nmax, 20, env={k: os.environ[k] for k in ('MOD2','EQ') if k in os.environ}), profs))
    jobs = [(p, s, f, st) for p, f, st in files for s in stacks]
    for p, s, (fails, stats) in ex.map(one, jobs):
        u = stats.pop("unsup", {}) if stats else {}
        print("== %-7s %-14s fails=%d %s %s" % (p, s, len(fails), {k: stats[k] for k in stats}, u))
        for i, t in fails[:mf]:
            print("     #%d %s" % (i, t[:420]))
