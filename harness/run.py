#!/usr/bin/env python3
"""run.py PROP TIER SEED BUDGET KNOWN -> merged JSON on stdout (8 shards of the harness)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def run(prop, tier, seed, budget, known, shards=8):
    b = f"{V}/.build/out"
    os.makedirs(b, exist_ok=True)
    ps = []
    for k in range(shards):
        o = f"{b}/{prop}.{k}.json"
        if os.path.exists(o):
            os.remove(o)
        ps.append((o, subprocess.Popen([f"{V}/.build/harness/debug/hd-harness", prop, tier, str(seed), str(budget),
                                        f"{k}/{shards}", o, known], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    res = {"property": prop, "evaluations": 0, "skipped": 0, "distinct_nontrivial": 0, "timed_out": 0, "shards": shards,
           "bounds": [], "samples": [], "known_hit": [], "violations": [], "errors": [], "wall_s": 0}
    for o, p in ps:
        try:
            err = p.communicate(timeout=budget + 120)[1]
        except subprocess.TimeoutExpired:
            p.kill()
            err = b"killed: time ran out"
        try:
            d = json.load(open(o))
        except Exception:
            res["errors"].append(f"shard died with {p.returncode}: {err[-400:].decode(errors='replace')}")
            continue
        for k in ("evaluations", "skipped", "distinct_nontrivial"):
            res[k] += d[k]
        res["timed_out"] += bool(d["timed_out"])
        res["wall_s"] = max(res["wall_s"], d["wall_s"])
        for k in ("bounds", "known_hit"):
            res[k] += [x for x in d[k] if x not in res[k]]
        for v in d["violations"]:
            if not any(v["what"] == w["what"] and (v["input"] == w["input"] or len(v["input"]) >= len(w["input"])) for w in res["violations"]):
                res["violations"].append(v)
        res["samples"] += [s for s in d["samples"] if len(res["samples"]) < 60]
    return res

if __name__ == "__main__":
    a = sys.argv
    r = run(a[1], a[2], int(a[3]), int(a[4]), a[5] if len(a) > 5 else "/dev/null")
    print(json.dumps(r, indent=1, ensure_ascii=False))
