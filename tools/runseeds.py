#!/usr/bin/env python3
"""runseeds.py [-a] [ID-substring...]: applies each planted bug to a scratch copy and runs its property's check there (-a: all checks)."""
import sys,os,subprocess,json,shutil,tempfile,time
args=[a for a in sys.argv[1:] if a!="-a"]
allc="-a" in sys.argv
S="/verif/seeded/"
for s in sorted(os.listdir(S)):
    if args and not any(a in s for a in args): continue
    m=json.load(open(S+s+"/meta.json"))
    tmp=tempfile.mkdtemp(prefix="rs_",dir="/tmp")
    try:
        shutil.copytree("/repo",tmp+"/repo",symlinks=True)
        r=subprocess.run(["git","apply",S+s+"/patch.diff"],cwd=tmp+"/repo")
        if r.returncode: print(s,"PATCH DOES NOT APPLY"); continue
        for p in (sorted(json.load(open("/verif/checks.json"))) if allc else [m["property"]]):
            t=time.time()
            r=subprocess.run(["python3","/verif/check.py",p],cwd="/verif",env=dict(os.environ,VERIF_REPO=tmp+"/repo"),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            o=[l for l in r.stdout.splitlines() if l.startswith("failed obligation")]
            print(s,p,"exit",r.returncode,"%.0fs"%(time.time()-t),v[:1],len(o),"obl:",(o or [""])[0][:160],flush=True)
    finally: shutil.rmtree(tmp)
