#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo with the deductive verifier in govc/ and, next to it, replays
concrete inputs of the property's battery against the real code.  Exit 0: every obligation was
discharged and no failing input is known; exit 1: a VIOLATION line was printed."""
import concurrent.futures, fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, TRUSTED  # per-property configuration


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GO111MODULE="on")
    e.setdefault("HOME", "/root")
    return e


def build_govc():
    """Build the verifier from its committed source (cached by content)."""
    h = hashlib.sha256()
    d = os.path.join(V, "govc")
    for n in sorted(os.listdir(d)):
        if n.endswith((".go", ".mod", ".sum")):
            h.update(n.encode() + open(os.path.join(d, n), "rb").read())
    out = os.path.join(V, ".build", "govc-" + h.hexdigest()[:16])
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            e = env()
            e["GOFLAGS"] = "-mod=vendor"
            subprocess.run(["go", "build", "-o", out + ".tmp", "."], cwd=d, env=e, check=True)
            os.rename(out + ".tmp", out)
    return out


def run_govc(prop, tier):
    g = build_govc()
    rep = os.path.join(V, ".build", "report-%s-%d.json" % (prop, os.getpid()))
    cmd = [g, "-repo", REPO, "-specs", os.path.join(V, "specs"), "-prop", prop, "-out", rep,
           "-fallback", "8" if tier == "quick" else "60"]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=env(), timeout=600 if tier == "quick" else 3000)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        return {"error": "the verifier ran out of time", "failures": []}, "timeout", cmd
    try:
        r = json.load(open(rep))
        os.unlink(rep)
    except Exception as ex:
        r = {"error": "no report from the verifier (exit %d): %s" % (rc, out[-2000:])}
    return r, out, cmd


def run_battery(prop, tier, seed):
    """Concrete inputs against the real code, injected as an in-package test by an overlay."""
    b = PROPS[prop].get("battery")
    if not b:
        return {"state": "none", "fails": [], "stats": {}}
    fails, stats, notes = [], {}, []
    for pkg in b:
        bd = os.path.join(V, "battery", pkg)
        # the file with the suffix i looks inside; it is left out where it does not compile
        for names in (("helper", "server", "msgp", prop.lower(), prop.lower() + "i"), ("helper", "server", "msgp", prop.lower())):
            files = {}
            for n in names:
                if n == "msgp" and prop not in ("C15", "C20"):
                    continue
                f = os.path.join(bd, n + ".go.txt")
                if os.path.exists(f):
                    files[os.path.join(REPO, "engine" if pkg == "engine" else "", "zz_verif_%s_test.go" % n)] = f
            ov = os.path.join(V, ".build", "overlay-%s-%s-%d.json" % (prop, pkg, os.getpid()))
            os.makedirs(os.path.dirname(ov), exist_ok=True)
            json.dump({"Replace": files}, open(ov, "w"))
            e = env()
            e["VERIF_SEED"], e["VERIF_TIER"] = str(seed), tier
            budget = 240 if tier == "quick" else 1200
            cmd = ["go", "test"] + (["-race"] if PROPS[prop].get("race") else []) + ["-overlay", ov, "-vet=off", "-count=1", "-timeout", "%ds" % budget,
                   "-run", "^TestVerif%s" % prop, "-v", "./engine" if pkg == "engine" else "."]
            try:
                p = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True, timeout=budget + 60)
                out, rc = p.stdout + p.stderr, p.returncode
            except subprocess.TimeoutExpired as ex:
                out, rc = str(ex.stdout or ""), 124
            os.unlink(ov)
            if rc == 0 or not ("build failed" in out or "setup failed" in out):
                break
            notes.append("with %s: %s" % (", ".join(names), out[:300]))
        for m in re.finditer(r"VERIF-FAIL (\{.*\})", out):
            try:
                fails.append(json.loads(m.group(1)))
            except ValueError:
                fails.append({"key": "unparsed", "what": m.group(1)[:500]})
        if PROPS[prop].get("race"):
            for m in list(re.finditer(r"^WARNING: DATA RACE\n(.*?)^={10}", out, re.M | re.S))[:3]:
                # a race counts when an access to memory happens in the library, not in the driver
                acc = re.findall(r"(?:[Rr]ead|[Ww]rite) at .*\n  (\S+\(.*)\n +(\S+)", m.group(1))
                if any("zz_verif_" not in p for _, p in acc):
                    fails.append({"key": "race", "what": "data race: " + " / ".join("%s %s" % a for a in acc)[:280],
                                  "input": (re.findall(r"VERIF-CASE (.*)", out[:m.start()]) or [""])[-1][:600], "output": m.group(0)[:3000]})
        for m in re.finditer(r"VERIF-STAT (\{.*\})", out):
            for k, v in json.loads(m.group(1)).items():
                stats[k] = stats.get(k, 0) + v if isinstance(v, (int, float)) else (stats.get(k, []) + v)
        if rc != 0 and "build failed" in out or "setup failed" in out:
            notes.append("battery does not compile against this tree: " + out[:1500])
        elif rc != 0 and not fails:
            # the code under test crashed or hung while the battery drove it
            m = re.search(r"^(panic: .*|fatal error: .*|.*test timed out.*)$", out, re.M)
            last = re.findall(r"VERIF-CASE (.*)", out)
            if m:
                fails.append({"key": "crash", "what": m.group(1)[:300], "input": last[-1][:600] if last else "", "output": out[-3000:]})
            else:
                notes.append("battery ended with code %d: %s" % (rc, out[-1500:]))
    return {"state": "ran", "fails": fails, "stats": stats, "notes": notes}


def known():
    out = []
    f = os.path.join(V, "known-findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build_govc()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(run_battery, prop, tier, seed)
        fv = ex.submit(run_govc, prop, tier)
        rep, out, cmd = fv.result()
        bat = fb.result()
    cfg = PROPS[prop]
    err = rep.get("error")
    if err and "no report" in err:
        print(err, file=sys.stderr)
        sys.exit(2)
    failures = []
    nob = ndis = nvac = 0
    funcs = []
    engines = {}
    for f in rep.get("functions") or []:
        bad = 0
        for o in f.get("obligations") or []:
            if o.get("kind") == "vacuity" and not o.get("failed"):
                nvac += 1
                continue
            nob += 1
            if o.get("failed"):
                bad += 1
                failures.append(dict(o, func=f["func"]))
            else:
                ndis += 1
            for k, v in (o.get("engines") or {}).items():
                engines[k] = engines.get(k, 0) + v
        funcs.append("%s (%s): %d obligations, %d failed, %d ms" % (f["func"], f.get("pos", ""), len(f.get("obligations") or []), bad, f.get("ms", 0)))
    if err:
        failures.append({"name": "contracts apply to the code: " + err, "kind": "engine", "detail": err})
    if nob == 0 and not err:
        failures.append({"name": "no obligations were generated", "kind": "engine"})
    kn = [k for k in known() if k.get("property") == prop and k.get("kind") == "known"]
    live, hits = [], []
    for f in failures:
        k = [k for k in kn if k.get("obligation") and k["obligation"] == f["name"]]
        (hits.append(k[0]) if k else live.append(f))
    blive = []
    for f in bat["fails"]:
        k = [k for k in kn if k.get("key") and k["key"] == f.get("key")]
        (hits.append(k[0]) if k else blive.append(f))
    for k in {json.dumps(k, sort_keys=True) for k in hits}:
        k = json.loads(k)
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    nviol = len(live) + len(blive)
    stats = bat["stats"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"),
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": "check.py %s  (govc -prop %s on /repo's working tree; back ends z3 5.3.2 incremental, then z3 4.8.12 / z3 5.3.2 / cvc5 1.1.2)" % (prop, prop),
            "trusted_base": TRUSTED + (rep.get("assumptions") or []),
            "functions_under_contract": funcs,
            "functions_inlined": sorted({i for f in rep.get("functions") or [] for i in f.get("inlined") or []}),
            "vacuity_checks": nvac,
            "discharged_by": engines,
            "solver_queries": rep.get("solver_queries", 0), "solver_s": round(rep.get("solver_seconds", 0), 2),
            "bounded_replay_cases": stats.get("cases", 0),
            "bounded_replay_note": cfg.get("battery_note", ""),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    if bat.get("notes"):
        ev["coverage"]["bounded_replay_problems"] = [n[:1500] for n in bat["notes"]]
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        ev["coverage"]["functions_under_contract"] = [f[:90] for f in funcs]
        s = json.dumps(ev, indent=1)[:64000]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    open(os.path.join(V, "evidence", prop + ".json"), "w").write(s)
    print("%s: %d/%d obligations discharged over %d functions and lemmas; %s bounded replay cases; %.1f s" %
          (prop, ndis, nob, len(funcs), stats.get("cases", 0), time.time() - t0))
    for n in bat.get("notes") or []:
        print("  battery: " + n[:800])
    if not nviol:
        sys.exit(0)
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    rp = os.path.join(V, "replay", prop + ".json")
    json.dump({"property": prop, "failing_inputs": blive, "failed_obligations": live, "battery": bat.get("notes"),
               "verifier_output": out[-20000:], "verifier": cmd,
               "replay": "python3 %s/check.py %s" % (V, prop)}, open(rp, "w"), indent=1)
    for f in live[:20]:
        print("  not discharged: [%s] %s%s" % (f.get("kind"), f["name"], " at " + f["pos"] if f.get("pos") else ""))
    for f in blive[:10]:
        print("  failing input: [%s] %s | input: %s" % (f.get("key"), str(f.get("what"))[:300], str(f.get("input"))[:300]))
    if blive:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    sys.exit(1)


if __name__ == "__main__":
    main()
