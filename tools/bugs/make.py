"""make.py [ids...]: builds seeded/<id> from defs.py: applies the edit in a scratch copy, builds, tests, demos."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from defs import BUGS
B=os.path.dirname(os.path.abspath(__file__))
SC="/tmp/bugrepo"
ENV=dict(os.environ,RUSTUP_TOOLCHAIN="1.74.1",CARGO_NET_OFFLINE="true",CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="line-tables-only",CARGO_TARGET_DIR=SC+"/target")
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
if not os.path.isdir(SC): sh("cp","-a","/repo",SC)
sh("git","checkout","-q","--",".",cwd=SC)
head=sh("git","rev-parse","HEAD",cwd="/repo").stdout
if sh("git","rev-parse","HEAD",cwd=SC).stdout!=head:
    shutil.rmtree(SC); sh("cp","-a","/repo",SC)
def build(): return sh("cargo","build","--offline",cwd=SC,env=ENV)
ids=sys.argv[1:]
for b in BUGS:
    if ids and b["id"] not in ids: continue
    d=os.path.dirname(os.path.dirname(B))+"/seeded/"+b["id"]
    if not ids and os.path.isdir(d): continue
    tmp="/tmp/seed-"+b["id"]; shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
    shutil.copy(B+"/demo.py",tmp)
    open(tmp+"/case.py","w").write(b["case"].lstrip("\n"))
    open(tmp+"/demo.sh","w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(tmp+"/demo.sh",0o755)
    json.dump(dict(property=b["property"],needs=b["needs"],what_it_breaks=b["breaks"]),open(tmp+"/meta.json","w"),indent=1)
    sh("git","checkout","-q","--",".",cwd=SC); r=build(); assert r.returncode==0,r.stdout[-2000:]
    r=sh("bash",tmp+"/demo.sh",cwd=SC)
    if r.returncode: print(b["id"],"DEMO FAILS ON CLEAN TREE",r.stdout[-600:]); continue
    ok=True
    for f,old,new in b["edits"]:
        p=SC+"/"+f; s=open(p).read()
        if s.count(old)<1: print(b["id"],"edit does not apply",f,old[:60]); ok=False; break
        open(p,"w").write(s.replace(old,new,b.get("count",1)))
    if not ok: continue
    r=build()
    if r.returncode: print(b["id"],"DOES NOT BUILD",r.stdout[-2500:]); continue
    t=sh("cargo","test","--offline",cwd=SC,env=ENV)
    if t.returncode: print(b["id"],"TESTS FAIL",[l for l in t.stdout.split("\n") if "FAILED" in l or "panicked" in l][:5]); continue
    r=sh("bash",tmp+"/demo.sh",cwd=SC)
    if r.returncode==0: print(b["id"],"DEMO PASSES WITH THE BUG"); continue
    open(tmp+"/patch.diff","w").write(sh("git","diff",cwd=SC).stdout)
    shutil.rmtree(d,ignore_errors=True); shutil.move(tmp,d)
    print(b["id"],"ok:",r.stdout.strip()[-200:])
sh("git","checkout","-q","--",".",cwd=SC)
