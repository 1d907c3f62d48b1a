#!/usr/bin/env python3
"""Writes MANIFEST.json from props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(V + "/props.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/not_applicable.json"))
checks = []
for i in ids:
    if i not in props:
        continue
    p = props[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": p["technique"], "level": p["level"],
                   "level_note": p["level_note"], **({"theorems": p["theorems"]} if p.get("theorems") else {})})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(hongdown_verif)", "enable": "RUSTFLAGS=--cfg hongdown_verif with HONGDOWN_VERIF_DIR naming the directory of generated wrappers (harness/build.sh)",
               "source_commits": ["33a2320"]},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": na.get(i, "its check is not built yet")} for i in ids if i not in props],
     "notes": "Contracts in contracts/*.vs are attached to functions extracted mechanically from /repo on every run (tools/extract) and discharged by Verus; harness/ evaluates executable contracts on the compiled code (bounded, never counted as proved). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
