#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.json, properties.jsonl and tools/na.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(V + "/props.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/na.json"))
checks = []
for i in ids:
    if i not in props or i in na:
        continue
    p = props[i]
    checks.append({
        "property": i,
        "quick_cmd": "bin/govc check " + i,
        "thorough_cmd": "VERIF_TIER=thorough bin/govc check " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p.get("technique", "contract-based deductive verification of the Go source (govc: SSA weakest preconditions, z3/cvc5), failing inputs searched on the real code"),
        "level": p.get("level", "proof"),
        "level_note": p.get("level_note", "") or "%d functions and lemmas under contract; %s" % (len(p["units"]), p.get("bounded", "")),
    })
m = {"version": 1,
     "setup_cmd": "sh tools/setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks: contracts are in /verif/contracts, harnesses are laid over /repo with go -overlay", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": na.get(i, "no contract yet")} for i in ids if i in na or i not in props]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
