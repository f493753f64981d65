#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + defects + false alarms + per property sections + planted changes."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from entries import ENTRIES
import design_notes as N
o = [open(os.path.join(HERE, "tools/design_head.md")).read()]
for l in open(os.path.join(HERE, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: o.append(f"* {m.group(1)} `{m.group(2)}` {m.group(3)}\n")
    m = re.match(r"property=(\S+) key=(\S+) (.*)", l)
    if m: o.append(f"* {m.group(1)} **not repaired** ({m.group(2)}): {m.group(3)}\n")
o.append("\n## 6. False alarms and corrections of our own\n\n" + N.CORRECTIONS)
o.append("\n## 7. Property by property\n\n" + N.PROPS_HEAD + "\n")
R = {}
rf = os.path.join(HERE, "tools/seed_results.json")
if os.path.exists(rf): R = json.load(open(rf))
for e in sorted(ENTRIES, key=lambda e: e["id"]):
    pid = e["id"]
    o.append(f"### {pid} {e['title']}\n\n{e['statement']}\n\nFor: {e['quant']}. Tests cannot settle it: {e['why']}.\n\n")
    if e.get("na"):
        o.append("Not applicable: " + e["na"] + "\n\n")
        continue
    ev = os.path.join(HERE, "evidence", pid + ".json")
    j = json.load(open(ev)) if os.path.exists(ev) else None
    o.append(f"Decided by: {e['note']}\n\n")
    if j:
        c = j["coverage"]
        fs = [re.sub(r"^src/", "", f) for f in c.get("functions_under_contract", [])]
        by = [n for n in c.get("extraction_notes", []) if n.startswith("contract of")]
        o.append(f"Overlays {', '.join('`%s`' % s for s in e['specs'])}: {c.get('discharged')} obligations (functions and lemmas), {len(fs)} functions of /repo under contract: " + ", ".join(f"`{f}`" for f in fs) + ".\n\n")
        if by: o.append("Used by contract: " + "; ".join(n[len("contract of "):].replace(" used, proved in", ", proved in") for n in by) + ".\n\n")
        if c.get("rule"): o.append(f"Witness (bounded): {c['rule']}\n\n")
    if e.get("assumptions"): o.append("Assumes: " + "; ".join(e["assumptions"]) + ".\n\n")
    if pid in N.EXTRA: o.append(N.EXTRA[pid].strip() + "\n\n")
o.append("## 8. Planted changes\n\n" + N.SEEDS_HEAD + "\n\n| change | breaks | needs | caught by |\n|---|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    o.append(f"| {i} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {R.get(i, '?')} |\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(o))
