#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/, props.json, contracts/ and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools/design")
import text
props = json.load(open(V + "/props.json"))
na = json.load(open(V + "/not_applicable.json"))
rows = []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in props:
        p = props[i]
        u = "; ".join(f"`{k}`: {', '.join(v)}" for k, v in p["units"].items())
        rows.append(f"| {i} | {p['level']} | {text.TABLE[i][0]}{' **Proved**: ' + u + '.' if u else ''} | {text.TABLE[i][1]} |")
    else:
        rows.append(f"| {i} | not applicable | {na.get(i, 'its check is not built')} | |")
units = []
for f in sorted(os.listdir(V + "/contracts")):
    if not f.endswith(".vs"): continue
    n = f[:-3]; s = open(f"{V}/contracts/{f}").read()
    fns = re.findall(r"^%% fn (\S+)", s, re.M)
    lem = re.findall(r"^\s*(?:pub )?(?:broadcast )?proof fn ((?:lemma|thm|theorem)_\w+)", s, re.M)
    units.append(f"* **{n}** – {len(fns)} functions under contract: {', '.join('`'+x+'`' for x in fns)}; {len(lem)} lemmas. {text.UNIT_NOTES.get(n,'')}")
seeds = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(V + "/tools/design/caught.json"))
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    seeds.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(d, m['property'])} |")
t = open(V + "/tools/design/template.md").read()
for k, v in (("TABLE", "\n".join(rows)), ("UNITS", "\n".join(units)), ("LIMITS", text.LIMITS), ("SEEDS", "\n".join(seeds))):
    t = t.replace(f"@@{k}@@", v)
open(V + "/DESIGN.md", "w").write(t)
