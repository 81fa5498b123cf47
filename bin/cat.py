#!/usr/bin/env python3
"""Development aid: failures by (stack, op) with one example each. cat.py PROFILES STACKS NUM NMAX MODE"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import concurrent.futures as cf
profs, stacks = sys.argv[1].split(","), sys.argv[2].split(",")
num, nmax, mode = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
skip = sys.argv[6:]
exe = os.path.join(BUILD, os.environ.get("EXE", "qreplay"))
def one(a):
    p, s, f, st = a
    try:
        return p, s, f, replay(exe, lambda fr: [s, f, mode, SEED, fr, 100000] + skip, st["traces"], maxfail=100000, timeout=600)
    except CheckError as e:
        return p, s, f, ([(-1, str(e))], {})
def g(a):
    return (a[0],) + gen(a[0], num // 4, SEED, int(os.environ.get('NMIN','1')), nmax, int(os.environ.get('DEP','20')), a[1], mod=os.environ.get('MOD','Gen'), cfg=os.environ.get('MOD','Gen')+'.cfg', env={k: os.environ[k] for k in ('MOD2','EQ') if k in os.environ})
with cf.ThreadPoolExecutor(8) as ex:
    files = list(ex.map(g, [(p, k) for p in profs for k in range(4)]))
    by, tot, us = {}, {}, {}
    for p, s, f, (fails, stats) in ex.map(one, [(p, s, f, st) for p, f, st in files for s in stacks]):
        for k, v in stats.pop("unsup", {}).items(): us[(s, k)] = us.get((s, k), 0) + v
        for k, v in stats.items(): tot[(s, k)] = tot.get((s, k), 0) + v
        for i, t in fails:
            m = re.search(r"r\d+ (\w+)\(", t); o = m.group(1) if m else "?"
            kind = re.sub(r"[-\d.]+.*", "", t.split(" | ", 1)[1] if " | " in t else t)[:60]
            by.setdefault((s, o, kind), []).append((os.path.basename(f), i, t))
for s in stacks:
    print("=====", s, {k[1]: v for k, v in tot.items() if k[0] == s}, {k[1]: v for k, v in us.items() if k[0] == s})
    for (ss, o, kind), l in sorted(by.items(), key=lambda x: -len(x[1])):
        if ss == s:
            l.sort(key=lambda x: len(x[2]))
            print("%4d %s" % (len(l), l[0][2][:330]), l[0][0].split("-")[1], l[0][0].split("-")[7],  l[0][1])
# shrink the first example(s) of the biggest categories
import subprocess
sh = os.environ.get("SHRINK")
if sh:
    names = {os.path.basename(f): f for _, f, _ in files}
    jobs = []
    for (ss, o, kind), l in sorted(by.items(), key=lambda x: -len(x[1])):
        for e in l[:int(os.environ.get("PER", "1"))]:
            m = re.search(r"mode (\d)", e[2])
            jobs.append((ss, o, e, m.group(1) if m else "0"))
    def shr(j):
        ss, o, e, m = j
        try:
            r = subprocess.run([os.path.join(BUILD, "qshrink"), ss, names[e[0]], str(e[1]), m, "4"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
            return j, r.stdout
        except Exception as x:
            return j, str(x)[:200]
    seen = set()
    with cf.ThreadPoolExecutor(8) as ex:
        for (ss, o, e, m), t in ex.map(shr, jobs[:int(sh)]):
            body = "\n".join(l for l in t.split("\n") if not l.startswith("   "))
            tail = [l for l in t.split("\n") if l.startswith("   ")][-2:]
            print("---- %s %s %s #%s mode %s\n%s\n%s" % (ss, o, e[0].split("-")[1], e[1], m, body.strip(), "\n".join(tail)))
