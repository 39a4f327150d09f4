#!/usr/bin/env python3
"""check.py <ID>: decides one property for the current tree of /repo.

1. govc generates the obligations of every function under contract for the property from the
   current source and discharges them;
2. the harness of the property runs the real code (replay of what the verifier reports, and the
   bounded stand-in for the parts named "bounded" in DESIGN.md).
Exit 0 when every obligation is discharged and no harness case fails, 1 with a VIOLATION line otherwise.
"""
import json, os, subprocess, sys, time, hashlib, fcntl, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER") or "quick"
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED") or 0)
THOROUGH = TIER == "thorough"
T0 = time.time()
LIMIT = 840.0  # never past the 900 s of the interface


def left():
    return LIMIT - (time.time() - T0)


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", VERIF_TIER=TIER, VERIF_SEED=str(SEED))
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
    return e


def build_tool():
    h = hashlib.sha256()
    d = os.path.join(V, "govc")
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read())
    bd = os.path.join(V, ".build")
    os.makedirs(bd, exist_ok=True)
    out = os.path.join(bd, "govc-" + h.hexdigest()[:16])
    with open(os.path.join(bd, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            p = subprocess.run([os.path.join(d, "build.sh"), out + ".tmp"], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode != 0:
                return None, p.stdout
            os.rename(out + ".tmp", out)
    return out, ""


def run(cmd, e, timeout, res, key):
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=max(5, timeout))
        res[key] = (p.returncode, p.stdout)
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b""
        res[key] = (124, o.decode(errors="replace") if isinstance(o, bytes) else o)


def main():
    if "--setup" in sys.argv:
        t, o = build_tool()
        print(o or t)
        return 0 if t else 2
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rd = os.path.join(V, ".build", "replay")
    os.makedirs(rd, exist_ok=True)
    rep, hout = os.path.join(rd, ID + "-govc.json"), os.path.join(rd, ID + "-harness.json")
    for f in (rep, hout, hout + ".cur"):
        if os.path.exists(f):
            os.unlink(f)
    meta = json.load(open(os.path.join(V, "contracts", "meta.json"))).get(ID, {})
    res = {}
    ths = []
    # harness
    hl = 700 if THOROUGH else 300
    he = env()
    he["VERIF_TIMEOUT"] = str(hl)
    he["VERIF_REPO"] = REPO
    if meta.get("race"):
        he["VERIF_RACE"] = "1"
    has_harness = os.path.exists(os.path.join(V, "harness", ID.lower() + "_test.go"))
    if has_harness:
        th = threading.Thread(target=run, args=([os.path.join(V, "harness", "run.sh"), ID, hout], he, hl + 60, res, "harness"))
        th.start()
        ths.append(th)
    # verifier
    tool, err = build_tool()
    cmd = ""
    if tool:
        bud = 600 if THOROUGH else meta.get("budget", 200)
        args = [tool, "-repo", REPO, "-contracts", os.path.join(V, "contracts"), "-prop", ID, "-out", rep, "-budget", str(bud)]
        cmd = " ".join(["govc"] + args[1:])
        run(args, env(), min(left() - 60, bud + 240), res, "govc")
    else:
        res["govc"] = (3, "building the verifier failed:\n" + err)
    for th in ths:
        th.join()
    # what was not discharged in the time given is tried again with more of it
    if os.path.exists(rep) and left() > 200:
        report = json.load(open(rep))
        bad = [f["function"] for f in report["functions"] if f["status"] != "proved"]
        hres = json.load(open(hout)) if os.path.exists(hout) else {"fails": []}
        if bad and len(bad) <= 12 and not hres["fails"]:
            e = env()
            e["GOVC_SCALE"] = "5"
            rep2 = rep + ".retry"
            if os.path.exists(rep2):
                os.unlink(rep2)
            run([tool, "-repo", REPO, "-contracts", os.path.join(V, "contracts"), "-prop", ID, "-fn", ",".join(bad), "-out", rep2, "-budget", "250", "-j", "4"], e, min(left() - 60, 300), res, "retry")
            if os.path.exists(rep2):
                again = {f["function"]: f for f in json.load(open(rep2))["functions"]}
                report["functions"] = [again.get(f["function"], f) for f in report["functions"]]
                json.dump(report, open(rep, "w"))
    return decide(res, rep, hout, meta, cmd, has_harness)


def decide(res, rep, hout, meta, cmd, has_harness):
    report = None
    if os.path.exists(rep):
        report = json.load(open(rep))
    fns = report["functions"] if report else []
    obs = sum(len(f["obligations"] or []) for f in fns)
    dis = sum(f["discharged"] for f in fns)
    bad = [f for f in fns if f["status"] != "proved"]
    viol = []
    hr = None
    hnote = "none"
    if has_harness:
        rc, out = res["harness"]
        if os.path.exists(hout):
            hr = json.load(open(hout))
            hnote = "ran"
            for x in hr["fails"] or []:
                viol.append(("input", x))
            if rc == 1 and not hr["fails"]:  # e.g. the race detector
                viol.append(("input", {"oracle": "test run", "input": "see output", "detail": out[-6000:]}))
        elif rc == 2:
            hnote = "did not compile against this tree; not used: " + out[-1500:]
        else:
            cur = ""
            if os.path.exists(hout + ".cur"):
                cur = open(hout + ".cur", errors="replace").read()
            if cur:
                viol.append(("input", {"oracle": "the run ends (no crash, no endless loop)", "input": cur, "detail": "run ended with status %d\n%s" % (rc, out[-6000:])}))
            else:
                hnote = "no result: " + out[-1500:]
    if report is None:
        viol.append(("proof", {"obligation": "all", "output": res["govc"][1][-4000:] or "no report (time limit)"}))
    elif not fns or obs == 0:
        viol.append(("proof", {"obligation": "all", "output": "no obligation was generated"}))
    for f in bad:
        failed = [o for o in f["obligations"] or [] if not o["ok"]]
        if failed:
            for o in failed[:3]:
                viol.append(("proof", {"function": f["function"], "position": f["position"], "obligation": o["name"], "status": f["status"], "reason": f.get("reason", ""), "verifier": o}))
        else:
            viol.append(("proof", {"function": f["function"], "position": f["position"], "obligation": f["function"] + " (all)", "status": f["status"], "reason": f.get("reason", "")}))

    trusted = {
        "govc (the verification condition generator in /verif/govc) and its models of package functions outside /repo (DESIGN.md)",
        "golang.org/x/tools/go/ssa as the meaning of Go source; z3 4.8.12 / cvc5 1.1.2",
    }
    assumptions = set()
    for f in fns:
        for a in f.get("assumptions") or []:
            assumptions.add(a)
    for a in (report or {}).get("assumed_contracts") or []:
        assumptions.add("assumed contract (not verified): " + a)
    for a in meta.get("assumptions", []):
        assumptions.add(a)
    solvers = {}
    for f in fns:
        for k, v in (f.get("solvers") or {}).items():
            solvers[k] = solvers.get(k, 0) + v
    cov = {
        "obligations": obs, "discharged": dis, "checker_cmd": cmd or "govc", "trusted_base": sorted(trusted),
        "verification_conditions": sum(f["vcs"] for f in fns),
        "discharged_by": solvers,
        "solver_seconds": round(sum(f["solver_seconds"] for f in fns), 2),
        "solver_queries": sum(f["queries"] for f in fns),
        "symbolic_paths": sum(f["paths"] for f in fns),
        "functions_under_contract": [{"function": f["function"], "at": f["position"], "status": f["status"], "obligations": len(f["obligations"] or []), "inlined": f.get("inlined") or []} for f in fns],
        "bounded_not_proved": meta.get("bounded", []),
        "harness": hnote,
    }
    if hr:
        cov.update(evaluations=hr["evaluations"], distinct_nontrivial=hr["distinct_nontrivial"], rule=hr["rule"], samples=hr["samples"] or [], oracles=hr["oracles"])
    ev = {"property": ID, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov,
          "assumptions": sorted(assumptions), "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    with open(os.path.join(V, "evidence", ID + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)

    known = load_known()
    rc = 0
    for k in known.get(ID, []):
        print("KNOWN-FINDING: property=%s %s" % (ID, k["what"]))
    inputs = [v for v in viol if v[0] == "input"]
    shown = inputs[:3] if inputs else [v for v in viol if v[0] == "proof"][:5]
    for n, (kind, x) in enumerate(shown):
        path = os.path.join(V, ".build", "replay", "%s-%d.json" % (ID, n))
        d = {"property": ID, "kind": kind, "finding": x}
        if kind == "input":
            d["replay"] = "VERIF_SEED=%d VERIF_TIER=%s %s/harness/run.sh %s out.json" % (SEED, TIER, V, ID)
            d["obligations_not_discharged"] = [v[1] for v in viol if v[0] == "proof"][:5]
        with open(path, "w") as fh:
            json.dump(d, fh, indent=1, ensure_ascii=False)
        if kind == "input":
            print("failing case: %s: %s" % (x["oracle"], x["detail"][:400].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (ID, path))
        else:
            print("not discharged: %s %s %s" % (x.get("function", ""), x["obligation"], (x.get("reason") or x.get("verifier", {}).get("why") or x.get("output", ""))[:400].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (ID, path))
        rc = 1
    if rc == 0:
        print("%s: %d functions, %d/%d obligations discharged, harness %s, %.1fs" % (ID, len(fns), dis, obs, (str(hr["evaluations"]) + " cases") if hr else hnote[:60], time.time() - T0))
    return rc


def load_known():
    r = {}
    p = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property="):
                i, what = l[len("finding: property="):].split(" ", 1)
                r.setdefault(i, []).append({"what": what})
    return r


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # an error of the machinery must not look like a pass
        import traceback
        traceback.print_exc(file=sys.stdout)
        p = os.path.join(V, ".build", "replay", ID + "-error.txt")
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(traceback.format_exc())
        except OSError:
            pass
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (ID, p))
        rc = 1
    sys.exit(rc)
