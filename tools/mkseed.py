#!/usr/bin/env python3
"""mkseed.py FILE: builds /verif/seeded/<id>/ from a description file (python literal):
{id, property, needs, breaks, dir, edits: [(file, old, new)...], demo: go test source}
in a scratch copy of /repo; keeps it only when it compiles, passes the stable tests and the demo discriminates."""
import sys, os, subprocess, json, shutil, tempfile
V="/verif"
DEMO='''#!/bin/bash
# Exit 0: behaves as the property demands; non-zero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
repo=$(pwd)
printf '{"Replace": {"%%s": "%%s"}}' "$repo/%(sub)szz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s %(race)s-overlay "$tmp/overlay.json" -run 'TestSeedDemo$' ./%(dir)s
'''
def sh(c,cwd,env=None): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env)
ENV=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod")
for fn in sys.argv[1:]:
    d=eval(open(fn).read())
    tmp=tempfile.mkdtemp(prefix="seed_",dir="/tmp")
    wt=tmp+"/repo"
    shutil.copytree("/repo",wt,symlinks=True)
    try:
        sub=(d["dir"]+"/") if d["dir"] else ""
        out=tmp+"/out"; os.makedirs(out)
        open(out+"/demo_test.go","w").write(d["demo"])
        open(out+"/demo.sh","w").write(DEMO%{"sub":sub,"dir":d["dir"],"race":"-race " if d.get("race") else ""})
        r=sh("bash %s/demo.sh"%out,wt,ENV)
        if r.returncode!=0: print(d["id"],"DEMO FAILS ON CLEAN TREE\n"+r.stdout[-1500:]); continue
        bad=False
        for f,o,n in d["edits"]:
            p=wt+"/"+f; s=open(p).read()
            if s.count(o)!=1: print(d["id"],"edit matches %d times: %s"%(s.count(o),o)); bad=True; break
            open(p,"w").write(s.replace(o,n))
        if bad: continue
        r=sh("gofmt -l . && go build ./...",wt,ENV)
        if r.returncode!=0 or any(l.endswith(".go") for l in r.stdout.split()): print(d["id"],"build/fmt",r.stdout); 
        if r.returncode!=0: continue
        r=sh("go test -vet=off -count=1 -json ./...",wt,ENV)
        passed={(json.loads(l)["Package"],json.loads(l).get("Test")) for l in r.stdout.splitlines() if l.startswith("{") and json.loads(l).get("Action")=="pass"}
        base=json.load(open("/opt/vp/BASELINE.json"))
        txt=json.dumps(base)
        names=[n for n in (base.get("stable") or base.get("passed") or base.get("tests") or [])]
        miss=[n for n in names if not any(t and (str(n).endswith(t)) for p,t in passed)]
        if miss: print(d["id"],"STABLE TESTS FAIL",miss); continue
        r=sh("bash %s/demo.sh"%out,wt,ENV)
        if r.returncode==0: print(d["id"],"DEMO PASSES WITH THE BUG"); continue
        diff=sh("git diff",wt).stdout
        dst=V+"/seeded/"+d["id"]
        shutil.rmtree(dst,ignore_errors=True); os.makedirs(dst)
        for f in os.listdir(out): shutil.copy(out+"/"+f,dst)
        open(dst+"/patch.diff","w").write(diff)
        json.dump({"property":d["property"],"needs":d["needs"],"what_it_breaks":d["breaks"]},open(dst+"/meta.json","w"),indent=1)
        print(d["id"],"kept")
    finally:
        shutil.rmtree(tmp)
