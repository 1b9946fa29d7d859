#!/usr/bin/env python3
"""Decides one property of oarkflow/permission on /repo's working tree.

  check.py C07              (tier from VERIF_TIER, seed from VERIF_SEED)

1. govc regenerates the verification conditions of every function under
   contract for the property from the Go source and discharges them.
2. a search harness runs the real code against an executable oracle: it replays
   failed obligations (finds a concrete failing input) and cross-checks the
   trusted models.
Exit 0: held. Exit 1: VIOLATION line. Never any other exit.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROPS = json.load(open(os.path.join(VERIF, "checks.json")))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", HOME=os.environ.get("HOME", "/root"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_govc(tmp):
    out = os.path.join(VERIF, "bin", "govc")
    src = os.path.join(VERIF, "govc")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if not os.path.exists(out) or os.path.getmtime(out) < newest:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        t = out + ".%d" % os.getpid()
        r = sh(["go", "build", "-o", t, "."], cwd=src, env=dict(ENV, GOFLAGS=""))
        if r.returncode != 0:
            raise RuntimeError("govc does not build: " + r.stdout)
        os.replace(t, out)
    return out


def prove(prop, tier, tmp):
    """Runs the verifier; returns its report."""
    govc = build_govc(tmp)
    rep = os.path.join(tmp, "report.json")
    tmo, ctmo = (10, 4) if tier == "quick" else (60, 15)
    cmd = [govc, "-repo", REPO, "-specs", os.path.join(VERIF, "contracts"), "-prop", prop, "-out", rep,
           "-t", str(tmo), "-ct", str(ctmo), "-j", "8"]
    try:
        r = sh(cmd, env=ENV, timeout=560 if tier == "quick" else 3000)
        d = json.load(open(rep))
        d["stdout"] = r.stdout[-4000:]
    except subprocess.TimeoutExpired:
        d = {"Err": "the verifier did not finish in time", "Units": [], "Total": 1, "Ok": 0, "Failed": 1}
    except Exception as e:
        d = {"Err": "verifier failed: %s" % e, "Units": [], "Total": 1, "Ok": 0, "Failed": 1}
    d["cmd"] = " ".join(cmd)
    return d


def build_harness(h, tmp, race=False):
    """Compiles the injected test of one package; returns the binary."""
    pkgdir, files, pkg = h["dir"], h["files"], h["pkg"]
    rep = {}
    base = os.path.join(REPO, pkgdir) if pkgdir else REPO
    for f in files:
        rep[os.path.join(base, "zz_verif_" + os.path.basename(f))] = os.path.join(VERIF, "harness", f)
    hp = os.path.join(tmp, "helper_%s_test.go" % pkg)
    open(hp, "w").write(open(os.path.join(VERIF, "harness", "helper.go.txt")).read().replace("PKG", pkg, 1))
    rep[os.path.join(base, "zz_verif_helper_test.go")] = hp
    # the repository's own tests are not compiled in
    for f in os.listdir(base):
        if f.endswith("_test.go"):
            rep.setdefault(os.path.join(base, f), "")
    ov = os.path.join(tmp, "overlay_%s.json" % pkg)
    json.dump({"Replace": rep}, open(ov, "w"))
    out = os.path.join(tmp, "h_%s%s.test" % (pkg, "_race" if race else ""))
    cmd = ["go", "test", "-vet=off", "-c", "-o", out, "-overlay", ov]
    if race:
        cmd.insert(2, "-race")
    r = sh(cmd + ["./" + pkgdir if pkgdir else "."], cwd=REPO, env=ENV)
    if r.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("harness does not build:\n" + r.stdout[-3000:])
    return out


def run_harness(binary, test, seeds, ms, tmp):
    """Runs the search with the given seeds in parallel; returns list of results."""
    procs = []
    for s in seeds:
        d = tempfile.mkdtemp(dir=tmp)
        out = os.path.join(d, "out.json")
        e = dict(ENV, VERIF_SEED=str(s), VERIF_BUDGET_MS=str(ms), VERIF_OUT=out, GOMAXPROCS="4", GORACE="halt_on_error=1")
        log = open(os.path.join(d, "log"), "w")
        p = subprocess.Popen([binary, "-test.run", "^%s$" % test, "-test.timeout", "%ds" % (ms // 1000 + 240)], cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT)
        procs.append((p, s, d, out, e))
    res = []
    for p, s, d, out, e in procs:
        try:
            p.wait(timeout=ms / 1000 + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log = open(os.path.join(d, "log"), errors="replace").read()
        r = {}
        if os.path.exists(out):
            r = json.load(open(out))
        r["seed"] = s
        if p.returncode != 0 and not r.get("failure"):
            # fatal error (stack overflow, data race, timeout): repeat with tracing to learn the input
            e2 = dict(e, VERIF_TRACE=os.path.join(d, "trace"))
            try:
                sh([binary, "-test.run", "^%s$" % test, "-test.timeout", "%ds" % (ms // 1000 + 240)], cwd=d, env=e2, timeout=ms / 1000 + 300)
            except subprocess.TimeoutExpired:
                pass
            inp = ""
            if os.path.exists(os.path.join(d, "trace")):
                inp = open(os.path.join(d, "trace"), errors="replace").read()
            m = re.search(r"(fatal error: .*|WARNING: DATA RACE|panic: .*|runtime: goroutine stack exceeds.*)", log)
            r["failure"] = (m.group(1) if m else "the harness process died") + "\n" + log[:3000]
            r["input"] = inp
        res.append(r)
    return res


def main():
    prop = sys.argv[1]
    tier = "thorough" if (len(sys.argv) > 2 and sys.argv[2] == "thorough") or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        code = decide(prop, tier, seed, cfg, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, cfg, tmp, t0):
    rep = prove(prop, tier, tmp)
    failed = []
    if rep.get("Err"):
        failed.append(("verifier", {"Kind": "generate", "Desc": rep["Err"], "Pos": "", "Out": ""}))
    nontriv = 0
    for u in rep.get("Units") or []:
        nontriv += u.get("Total", 0)
        for f in u.get("Failed") or []:
            failed.append((u["Key"], f))
    if not failed and nontriv == 0:
        failed.append(("verifier", {"Kind": "vacuity", "Desc": "no obligations were generated", "Pos": "", "Out": ""}))
    # search
    runs, hits, herr = [], [], []
    for h in cfg.get("harness", []):
        try:
            b = build_harness(h, tmp, h.get("race", False))
            if failed:
                ms, seeds = (60000 if tier == "quick" else 300000), range(seed, seed + 8)
                quick = run_harness(b, h["test"], [seed], 6000, tmp)
                rs = quick if any(x.get("failure") for x in quick) else run_harness(b, h["test"], seeds, ms, tmp)
            else:
                ms, n = (h.get("ms", 5000), 2) if tier == "quick" else (120000, 8)
                rs = run_harness(b, h["test"], range(seed, seed + n), ms, tmp)
            runs += rs
            hits += [(h, x) for x in rs if x.get("failure")]
        except Exception as e:
            herr.append(str(e))
            if not failed:
                failed.append(("harness", {"Kind": "harness", "Desc": "the search harness no longer builds or runs against the code: %s" % e, "Pos": "", "Out": ""}))
    evidence(prop, tier, seed, cfg, rep, runs, failed, hits, time.time() - t0)
    if not failed and not hits:
        print("%s: %d obligations discharged; %d cases of the real code agree" % (prop, rep.get("Ok", 0), sum(x.get("evaluations", 0) for x in runs)))
        return 0
    outd = os.path.join(VERIF, "out", prop)
    os.makedirs(outd, exist_ok=True)
    path = os.path.join(outd, "replay.txt")
    with open(path, "w") as f:
        f.write("property %s violated (tier %s, seed %d)\n\n" % (prop, tier, seed))
        for h, x in hits[:3]:
            f.write("failing input: %s\nwrong: %s\nreplay: VERIF_SEED=%s with %s of harness/%s\n\n" % (x.get("input"), x.get("failure"), x.get("seed"), h["test"], h["files"][0]))
        for k, o in failed:
            f.write("failed obligation: [%s] %s: %s at %s\n  verifier output: %s\n" % (o["Kind"], k, o["Desc"], o.get("Pos", ""), o.get("Out", "")))
        for e in herr:
            f.write("harness: %s\n" % e)
    for k, o in failed[:6]:
        print("failed obligation [%s] %s: %s %s" % (o["Kind"], k, o["Desc"], o.get("Pos", "")))
    for h, x in hits[:1]:
        print("failing input: %s\n  %s" % ((x.get("input") or "")[:2000], (x.get("failure") or "")[:400]))
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if hits else " no-failing-input-found"))
    return 1


def evidence(prop, tier, seed, cfg, rep, runs, failed, hits, wall):
    units = rep.get("Units") or []
    fns, lems, trusted, inlined, notes, byk, bys = [], [], [], set(), set(), {}, {}
    for u in units:
        if u.get("Missing"):
            continue
        if u.get("Trusted"):
            trusted.append("%s (%s)" % (u["Key"], u["Trusted"]))
        elif u["Kind"] == "lemma":
            lems.append(u["Key"])
        else:
            fns.append("%s%s at %s: %d/%d obligations" % (u["Key"], " [" + u["Mode"] + "]" if u.get("Mode") else "", u.get("Pos", ""), u["Ok"], u["Total"]))
        inlined |= set(u.get("Inlined") or [])
        notes |= set(u.get("Notes") or [])
        for k, n in (u.get("ByKind") or {}).items():
            byk[k] = byk.get(k, 0) + n
        for k, n in (u.get("BySolver") or {}).items():
            bys[k] = bys.get(k, 0) + n
    base = ["govc (the obligation generator in /verif/govc, incl. its model of Go semantics)", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2", "go/types front end"] + trusted
    cov = {"obligations": rep.get("Total", 0), "discharged": rep.get("Ok", 0), "checker_cmd": rep.get("cmd", ""), "trusted_base": base,
           "functions_under_contract": fns, "lemmas": lems, "inlined_functions": sorted(inlined), "obligations_by_kind": byk, "discharged_by_backend": bys,
           "solver_seconds": rep.get("Solver") or {}, "verifier_seconds": rep.get("Secs", 0),
           "failed_obligations": ["%s: %s" % (k, o["Desc"]) for k, o in failed],
           "cross_check": {"evaluations": sum(x.get("evaluations", 0) for x in runs), "distinct_nontrivial": sum(x.get("distinct", 0) for x in runs),
                           "samples": (runs[0].get("samples") or [])[:4] if runs else [], "rule": cfg.get("rule", "the real code against an executable oracle; trivial inputs are not counted"),
                           "note": "bounded search; cross-checks the proof's assumptions and looks for failing inputs; not counted as proof"}}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "coverage": cov,
          "assumptions": sorted(notes) + cfg.get("assumptions", []) + COMMON, "wall_s": round(wall, 2), "violations": 1 if (failed or hits) else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


COMMON = ["integers are mathematical (no overflow); lengths and indices of the code stay far below 2^63",
          "one thread runs at a time (except C16, which is about the locks that ensure it)",
          "time.Now() is constant during one call"]

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else "?"
        outd = os.path.join(VERIF, "out", p)
        os.makedirs(outd, exist_ok=True)
        path = os.path.join(outd, "replay.txt")
        open(path, "w").write(traceback.format_exc())
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (p, path))
        sys.exit(1)
