"""makeext.py [ids...]: builds seeded/<id> of the extension from extdefs.py."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from extdefs import BUGS
B=os.path.dirname(os.path.abspath(__file__)); SC="/tmp/extrepo"
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
shutil.rmtree(SC,ignore_errors=True); sh("git","clone","-q","/repo",SC)
for b in BUGS:
    if sys.argv[1:] and b["id"] not in sys.argv[1:]: continue
    d=os.path.dirname(os.path.dirname(B))+"/seeded/"+b["id"]
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    shutil.copy(B+"/demo.js",d)
    open(d+"/case.js","w").write("module.exports = async h => {"+b["case"]+"}\n")
    open(d+"/demo.sh","w").write('#!/bin/bash\nexec node "$(dirname "$(realpath "$0")")/demo.js"\n'); os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=b["property"],needs=b["needs"],what_it_breaks=b["breaks"]),open(d+"/meta.json","w"),indent=1)
    sh("git","checkout","-q","--",".",cwd=SC)
    r=sh("bash",d+"/demo.sh",cwd=SC)
    if r.returncode: print(b["id"],"DEMO FAILS ON CLEAN TREE",r.stdout[-600:]); shutil.rmtree(d); continue
    for f,old,new in b["edits"]:
        p=SC+"/"+f; s=open(p).read(); assert s.count(old)==1,(b["id"],old)
        open(p,"w").write(s.replace(old,new))
    r=sh("bash",d+"/demo.sh",cwd=SC)
    if r.returncode==0: print(b["id"],"DEMO PASSES WITH THE BUG"); shutil.rmtree(d); continue
    open(d+"/patch.diff","w").write(sh("git","diff",cwd=SC).stdout)
    print(b["id"],"ok:",r.stdout.strip()[-200:])
shutil.rmtree(SC)
