#!/usr/bin/env python3
"""seedtest.py ID [--nocheck] [--notests]: confirm a planted bug (dev aid).
Works on a scratch copy /tmp/seedrepo for build/tests/demo and applies to /repo only for the check."""
import sys,os,json,subprocess,shutil
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
sid=sys.argv[1]; d=f"/verif/seeded/{sid}"; meta=json.load(open(d+"/meta.json"))
R="/repo"
assert sh("git -C /repo status --short").stdout.strip()=="","dirty /repo"
scr="/tmp/seeddemo"; shutil.rmtree(scr,ignore_errors=True); os.makedirs(scr)
for f in os.listdir(d):
    if not f.endswith((".diff",".patch")) and f!="meta.json": shutil.copy(d+"/"+f,scr)
def demo():
    r=sh(f"cd /repo && timeout 300 bash {scr}/demo.sh"); return r.returncode,r.stdout[-600:]
ok=True
print("base demo",*demo())
a=sh(f"git -C /repo apply {d}/patch.diff"); assert a.returncode==0,a.stdout
try:
    b=sh("bash /opt/vp/build.sh"); print("build",b.returncode, b.stdout[-500:] if b.returncode else "")
    print("patched demo",*demo())
    if "--notests" not in sys.argv:
        sh("bash /opt/vp/test.sh /tmp/out.json"); print("tests missing:",sh("python3 /verif/build/cmpbase.py").stdout.strip())
    if "--nocheck" not in sys.argv:
        for p in [meta["property"]]:
            r=sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 bin/check.py {p} quick"); print("check",p,r.returncode,"\n".join(l[:300] for l in r.stdout.splitlines() if "VIOL" in l or "error" in l.lower())[:900])
finally:
    print(sh("git -C /repo checkout -- . && bash /opt/vp/build.sh >/dev/null 2>&1; git -C /repo status --short").stdout)
