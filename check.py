#!/usr/bin/env python3
"""check.py <property> <quick|thorough>
Proves the contracts of the property's functions on /repo's current source (extractor + Verus), and
evaluates the property's executable contracts on the compiled code (bounded).  Exit 0 or 1."""
import concurrent.futures as cf
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/harness")
import run as harness

B = V + "/.build"
X = B + "/extract/debug/hd-extract"
os.environ["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", "")


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "", "time ran out"


def prove(unit, tier):
    """-> dict(unit, status: proved|failed|degraded, ...)"""
    d = f"{B}/units"
    os.makedirs(d, exist_ok=True)
    rs, js = f"{d}/{unit}.rs", f"{d}/{unit}.json"
    for f in (rs, js):
        if os.path.exists(f):
            os.remove(f)
    r = {"unit": unit, "status": "degraded", "why": [], "failed": [], "functions": [], "obligations": 0, "discharged": 0,
         "smt_ms": 0, "rlimit": 0, "trusted": [], "output": "", "rewrites": []}
    rc, out, err = sh([X, "/repo", V + "/contracts", unit, rs, js], 60)
    if rc != 0 or not os.path.exists(js):
        r["why"].append("extraction failed: " + (err or out).strip()[-400:])
        return r
    info = json.load(open(js))
    r["rewrites"] = info["notes"]
    r["functions"] = [f"{f['file']}:{f['line']} {f['name']}" for f in info["functions"] if f["contracted"]]
    r["inlined"] = [f"{f['file']}:{f['line']} {f['name']}" for f in info["functions"] if not f["contracted"]]
    src = open(rs).read()
    r["trusted"] = trusted(src)
    cmd = ["verus", "--edition", "2024", "--multiple-errors", "8", "--output-json", "--time-expanded", "--num-threads", "4", rs]
    r["cmd"] = " ".join(cmd[:-1]) + f" .build/units/{unit}.rs"
    rc, out, err = sh(cmd, 420, cwd=d)
    r["output"] = err[-6000:]
    try:
        j = json.loads(out[out.index("{"):])
    except Exception:
        r["why"].append("the verifier gave no result: " + err.strip()[-300:])
        return r
    res = j.get("verification-results", {})
    fb = []
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        fb += m.get("function-breakdown", [])
    if res.get("encountered-vir-error") or "verified" not in res or (not fb):
        m = re.search(r"^error.*(?:\n.*){0,4}", err, re.M)
        r["why"].append("outside the verifier's reach: " + (m.group(0) if m else err[-300:]))
        return r
    r["obligations"] = len(fb)
    r["discharged"] = sum(1 for f in fb if f["success"])
    r["smt_ms"] = j["times-ms"]["smt"]["smt-run"]
    r["rlimit"] = j["times-ms"]["smt"]["rlimit-run"]
    for f in fb:
        if not f["success"]:
            r["failed"].append(f["function"].split("::")[-1])
    # every contracted function has to have been verified
    seen = {f["function"].split("::")[-1] for f in fb}
    for f in info["functions"]:
        n = f["name"].split("::")[-1]
        if f["contracted"] and n not in seen:
            r["why"].append(f"no obligation was generated for {n}")
    r["lost"] = info["lost"]
    r["uncontracted"] = info["uncontracted"]
    r["why"] += [f"lost: {x}" for x in info["lost"]] + [f"call without contract: {x}" for x in info["uncontracted"]]
    if re.search(r"Resource limit \(rlimit\) exceeded", err):
        r["why"].append("the solver gave up (resource limit)")
    if res["success"] and not r["failed"]:
        # complete proof of what was extracted; lost hints do not matter, missing functions do
        r["status"] = "degraded" if any(w.startswith("no obligation") or w.startswith("lost: function") for w in r["why"]) else "proved"
    else:
        r["status"] = "degraded" if r["why"] else "failed"
    return r


def trusted(src):
    t = []
    body = src.split("\n")
    for i, l in enumerate(body):
        if "#[verifier::external_body]" in l or "#[verifier::external]" in l:
            m = re.search(r"(?:fn|struct|enum|trait)\s+(\w+)", l) or re.search(r"(?:fn|struct|enum|trait)\s+(\w+)", " ".join(body[i + 1:i + 4]))
            t.append("external_body " + (m.group(1) if m else "?"))
        m = re.search(r"axiom fn (\w+)", l)
        if m:
            t.append("axiom " + m.group(1))
        m = re.search(r"assume_specification[^\[]*\[\s*([^\]]+)\]", l)
        if m:
            t.append("assume_specification " + m.group(1).strip())
        if re.search(r"\b(admit|assume)\s*\(", l):
            t.append("assume/admit: " + l.strip()[:80])
    return sorted(set(t))


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = json.load(open(V + "/props.json"))[prop]
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    if spec.get("cli"):  # the harness runs the program itself
        os.environ["HD_BUILD_CLI"], os.environ["HD_CLI"] = "1", B + "/cli/debug/hongdown"
    rc, out, err = sh(["bash", V + "/harness/build.sh"], 600)
    hooks = True
    if rc == 3 or not os.path.exists(X):
        print("the extractor does not build:", (out + err)[-2000:])
        sys.exit(2)
    if rc != 0:
        hooks = False
        first = open(B + "/harness.log").read()[-2000:] if os.path.exists(B + "/harness.log") else ""
        rc, out, err = sh(["bash", V + "/harness/build.sh", "empty"], 600)
        if rc != 0:
            print("the repository does not build with the harness:", first, (out + err)[-1000:])
            sys.exit(2)
    missing = [l for l in open(B + "/hooks/missing.txt").read().split("\n") if l] if os.path.exists(B + "/hooks/missing.txt") else []
    units = spec.get("units", {})
    budget = 420 if tier == "thorough" else 120
    with cf.ThreadPoolExecutor(4) as ex:
        fut = [ex.submit(prove, u, tier) for u in units]
        proofs = [f.result() for f in fut]
    sh_ = harness.run("SHIMS", "quick", seed, 60, "/dev/null") if proofs else None
    if sh_ and (sh_["violations"] or sh_["errors"]):
        for r in proofs:
            r["status"] = "degraded"
            r["why"].append("a contract assumed of std does not hold: " + str(sh_["violations"] or sh_["errors"])[:300])
    h = harness.run(prop, tier, seed, budget, V + "/known_findings.txt")

    viols = []
    for n, v in enumerate(h["violations"]):
        p = f"{V}/evidence/replay/{prop}-{n}.json"
        json.dump({"property": prop, "contract": v["what"], "input": v["input"], "detail": v["detail"], "tier": tier, "seed": seed,
                   "failed_obligations": [f"{r['unit']}::{f}" for r in proofs for f in r["failed"]],
                   "replay": f"cd {V} && python3 replay.py {p}"}, open(p, "w"), indent=1, ensure_ascii=False)
        print(f"{v['what']}: {v['input']!r}: {v['detail']}")
        viols.append(f"VIOLATION property={prop} replay={p}")
    failed = []
    degraded = []
    for r in proofs:
        rel = units[r["unit"]]
        if r["status"] == "failed":
            f = [x for x in r["failed"] if rel == ["*"] or x in rel]
            if f:
                failed.append((r, f))
            else:
                r["note"] = "obligations of functions this property does not depend on failed: " + ", ".join(r["failed"])
        elif r["status"] == "degraded":
            degraded.append(f"{r['unit']}: " + "; ".join(r["why"])[:600])
    if failed and not viols:
        p = f"{V}/evidence/replay/{prop}-obligation.json"
        json.dump({"property": prop, "failed_obligations": [f"{r['unit']}::{x}" for r, f in failed for x in f],
                   "verifier_output": {r["unit"]: r["output"] for r, _ in failed},
                   "replay": f"cd {V} && python3 check.py {prop} {tier}"}, open(p, "w"), indent=1, ensure_ascii=False)
        for r, f in failed:
            print(f"obligation not discharged: {r['unit']}::{', '.join(f)}")
        viols.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")
    for k in h["known_hit"]:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for e in h["errors"]:
        print("harness:", e)
    for d in degraded:
        print("not proved on this source, bounded check only:", d)

    trust = sorted({t for r in proofs for t in r["trusted"]})
    obl, dis = sum(r["obligations"] for r in proofs), sum(r["discharged"] for r in proofs)
    level = spec["level"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "; ".join(r.get("cmd", "") for r in proofs) or "none",
            "trusted_base": ["Verus (VIR/AIR encoding) and Z3", "the extractor's rewrites (tools/extract; listed under rewrites)"] + trust,
            "proof_status": {r["unit"]: r["status"] for r in proofs},
            "functions_under_contract": sorted({f for r in proofs for f in r["functions"]}),
            "functions_pulled_in_without_contract": sorted({f for r in proofs for f in r.get("inlined", [])}),
            "solver": "Z3 through Verus", "smt_ms": sum(r["smt_ms"] for r in proofs), "rlimit": sum(r["rlimit"] for r in proofs),
            "assumed_contracts_of_std_tested": {k: sh_[k] for k in ("evaluations", "bounds", "violations")} if sh_ else None,
            "degraded": degraded, "failed_obligations": [f"{r['unit']}::{x}" for r, f in failed for x in f],
            "rewrites": sorted({n for r in proofs for n in r["rewrites"]}),
            "bounded_not_proved": {
                "what": "the property's executable contract evaluated on the compiled code, at function and document level",
                "evaluations": h["evaluations"], "outside_precondition": h["skipped"], "distinct_nontrivial": h["distinct_nontrivial"],
                "bounds": h["bounds"], "samples": h["samples"][:25], "wall_s": h["wall_s"], "shards_out_of_time": h["timed_out"],
                "private_functions_reachable": hooks, "hooks_missing": missing, "errors": h["errors"]},
            "evaluations": h["evaluations"], "distinct_nontrivial": h["distinct_nontrivial"],
            "rule": "a case is non-trivial when it satisfies the contract's precondition and contains the characters or structure the contract is about",
            "samples": h["samples"][:10],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1, ensure_ascii=False)
    print(f"{prop} {tier}: {dis}/{obl} obligations ({', '.join(r['unit'] + ' ' + r['status'] for r in proofs) or 'no unit'}), "
          f"{h['evaluations']} bounded evaluations, {len(h['known_hit'])} known findings, {ev['wall_s']} s")
    for v in viols:
        print(v)
    sys.exit(1 if viols else 0)


main()
