#!/usr/bin/env python3
"""mutrun.py DIR OUT.jsonl [-p PROPS] [-n MAX] [-ops a,b] [-files f,..]: plants every small change of `mutate` in DIR's package
(scratch copies), keeps those that compile and pass the tests, and records which harnesses and which proofs notice."""
import sys, os, subprocess, json, shutil, tempfile, threading, queue, argparse, time
sys.path.insert(0, "/verif")
ap = argparse.ArgumentParser()
ap.add_argument("dir"); ap.add_argument("out"); ap.add_argument("-p"); ap.add_argument("-n", type=int, default=0)
ap.add_argument("-seed", type=int, default=1); ap.add_argument("-j", type=int, default=4); ap.add_argument("-ms", type=int, default=2500)
ap.add_argument("-first", action="store_true", help="stop at the first property whose harness notices"); ap.add_argument("-noproof", action="store_true"); ap.add_argument("-files")
ap.add_argument("-list", help="JSONL of mutants to use instead of all")
A = ap.parse_args()
PROPS = json.load(open("/verif/checks.json"))
RELEVANT = {"v2": "C01 C02 C03 C04 C05 C06 C15 C16 C18", "v1": "C11 C12 C13 C14 C15 C20", ".": "C09 C10 C11 C14 C20", "trie": "C08 C10", "utils": "C07 C19 C15 C01 C12", "ds": "C17"}
props = (A.p or RELEVANT[A.dir]).replace(",", " ").split()
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOMAXPROCS="2")
files = [os.path.normpath(os.path.join(A.dir, f)) for f in sorted(os.listdir("/repo/" + A.dir)) if f.endswith(".go") and not f.endswith("_test.go")]
if A.files: files = A.files.split(",")
if A.list:
    muts = [json.loads(l) for l in open(A.list)]
else:
    muts = [json.loads(l) for l in subprocess.run(["/tmp/mutate"] + files, cwd="/repo", stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
muts = [m for m in muts if m["Func"] not in ("Log", "SetLogger", "PrintData", "String")]
import random
random.Random(A.seed).shuffle(muts)
if A.n: muts = muts[:A.n]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
q = queue.Queue()
for i, m in enumerate(muts): q.put((i, m))
lock = threading.Lock(); outf = open(A.out, "w"); stat = {}
def sh(cmd, cwd, env=ENV, tmo=120):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=tmo)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -9, "timeout"
def harness(repo, p, tmp):
    for k, h in enumerate(PROPS[p].get("harness", [])):
        if A.dir not in (".",) and (h["dir"] or ".") != A.dir and A.dir != "utils" and A.dir!="trie": continue
        if A.dir == "." and (h["dir"] or ".") != ".": continue
        base = os.path.join(repo, h["dir"])
        rep = {os.path.join(base, "zz_verif_" + os.path.basename(f)): "/verif/harness/" + f for f in h["files"]}
        hp = os.path.join(tmp, "helper_test.go")
        open(hp, "w").write(open("/verif/harness/helper.go.txt").read().replace("PKG", h["pkg"], 1))
        rep[os.path.join(base, "zz_verif_helper_test.go")] = hp
        for f in os.listdir(base):
            if f.endswith("_test.go"): rep.setdefault(os.path.join(base, f), "")
        ov = os.path.join(tmp, "ov.json"); json.dump({"Replace": rep}, open(ov, "w"))
        b = os.path.join(tmp, "h.test")
        cmd = ["go", "test", "-vet=off", "-c", "-o", b, "-overlay", ov] + (["-race"] if h.get("race") else [])
        rc, o = sh(cmd + ["./" + h["dir"] if h["dir"] else "."], repo)
        if rc: return "HARNESS-BUILD " + o[-200:]
        out = os.path.join(tmp, "out.json")
        if os.path.exists(out): os.unlink(out)
        rc, o = sh([b, "-test.run", "^%s$" % h["test"], "-test.timeout", "60s"], tmp, dict(ENV, VERIF_SEED="1", VERIF_BUDGET_MS=str(A.ms), VERIF_OUT=out, GORACE="halt_on_error=1"), 100)
        if rc: return "hit"
        if os.path.exists(out) and json.load(open(out)).get("failure"): return "hit"
    return ""
def worker(w):
    top = "/tmp/mw_%s_%d_%d" % (A.dir.replace(".", "root"), os.getpid(), w); repo = top + "/repo"
    os.makedirs(top); subprocess.run(["cp", "-a", "/repo", repo], check=True)
    tmp = top + "/t"; os.makedirs(tmp)
    try:
        while True:
            try: i, m = q.get_nowait()
            except queue.Empty: return
            p = os.path.join(repo, m["file"]); src = open("/repo/" + m["file"], "rb").read()
            open(p, "wb").write(src[:m["Start"]] + m["New"].encode() + src[m["End"]:])
            try:
                rc, o = sh(["go", "build", "./..."], repo)
                if rc: s = "nocompile"
                else:
                    rc, o = sh(["go", "test", "-vet=off", "./..."], repo, tmo=60)
                    s = "tests" if rc else "alive"
                rec = dict(m, old=src[m["Start"]:m["End"]].decode()[:120], status=s)
                if s == "alive":
                    rec["harness"] = {}; rec["proof"] = {}
                    for x in props:
                        v = harness(repo, x, tmp)
                        if v: rec["harness"][x] = v
                        if v and A.first: break
                    if not A.noproof and (not rec["harness"] or i % 6 == 0):
                        rec["proved"] = True
                        for x in props:
                            rc, o = sh(["/tmp/govcm", "-repo", repo, "-prop", x, "-t", "2", "-ct", "1", "-budget", "1", "-j", "3", "-out", tmp + "/r.json"], "/tmp", dict(ENV, GOVC_CACHE="/tmp/gcache"), 400)
                            if rc:
                                try: d = json.load(open(tmp + "/r.json")); rec["proof"][x] = ["%s: %s" % (u["Key"], f["Desc"]) for u in d["Units"] or [] for f in u.get("Failed") or []][:3] or d.get("Err")
                                except Exception as e: rec["proof"][x] = "err " + o[-200:]
                with lock:
                    stat[s] = stat.get(s, 0) + 1
                    if s == "alive": outf.write(json.dumps(rec) + "\n"); outf.flush()
            finally:
                open(p, "wb").write(src)
    finally:
        shutil.rmtree(top)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(A.j)]
[t.start() for t in ts]; [t.join() for t in ts]
print(stat)
