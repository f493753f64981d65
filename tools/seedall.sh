#!/bin/bash
# tools/seedall.sh [ID...]: runs every planted change's check on scratch copies of /repo and /verif, records what caught it
# in tools/seed_results.json (leaves /repo and /verif/evidence alone)
W=$(mktemp -d /tmp/seedall.XXXX); trap "rm -r $W" EXIT
cp -a /repo $W/repo; cp -a /verif $W/verif
cd $W/verif
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C $W/repo apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  out=$(VERIF_REPO=$W/repo python3 check.py $prop 2>&1); c=$?
  git -C $W/repo checkout -q -- .
  flock /tmp/seedall.lock python3 - "$id" "$c" "$out" <<'P'
import json, sys, os, re
i, c, out = sys.argv[1:]
f = "/verif/tools/seed_results.json"
r = json.load(open(f)) if os.path.exists(f) else {}
a = []
for m in re.finditer(r"obligation failed: (\S+): (.*)", out): a.append("proof: " + m.group(2)[:160])
if "undecided" in out: a.append("proof undecided")
if "failing input [" in out: a.append("failing input")
r[i] = ("; ".join(a) if c == "1" else "MISSED " + "; ".join(a)).replace("|", "/")
json.dump(r, open(f, "w"), indent=1, sort_keys=True)
print(i, c, r[i])
P
done
