#!/usr/bin/env python3
"""One source for properties.jsonl, props.json and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from entries import ENTRIES
props, P, checks, na = [], {}, [], []
for e in ENTRIES:
    props.append({"id": e["id"], "title": e["title"], "statement": e["statement"],
                  "quantifier": {"over": e.get("over", ["inputs"]), "text": e["quant"]}, "why_tests_cant": e["why"],
                  "anchors": {"files": e["files"], "mechanism": [{"name": n, "where": w} for n, w in e["mech"]], "hook_needed": None}})
    assert len(e["title"]) <= 80, e["id"]
    if e.get("na"):
        na.append({"property": e["id"], "reason": e["na"]})
        continue
    P[e["id"]] = {"specs": e["specs"], "level": e["level"], "assumptions": e.get("assumptions", [])}
    checks.append({"property": e["id"], "quick_cmd": f"python3 check.py {e['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {e['id']}",
                   "technique": e.get("technique", "Verus contracts on functions extracted from /repo on every run; failed obligations are replayed by a seeded input search on the compiled crate"),
                   "level": e["level"], "level_note": e["note"]})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump(P, open(os.path.join(HERE, "props.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "no hooks: the verifier works on text extracted from /repo, the witness crate on the crate's public API"},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
