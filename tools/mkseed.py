"""mkseed.py ID PROP FILE <<< JSON {old,new,needs,breaks}; writes patch.diff against /repo HEAD, meta.json; demo.rs is written separately"""
import json, os, subprocess, sys, shutil
id_, prop = sys.argv[1], sys.argv[2]
spec = json.load(sys.stdin)
d = f"/verif/seeded/{id_}"
os.makedirs(d, exist_ok=True)
shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
diff = ""
for ed in spec["edits"]:
    p = "/repo/" + ed["file"]
    s = open(p).read()
    assert s.count(ed["old"]) == 1, (id_, s.count(ed["old"]), ed["old"])
    open(p, "w").write(s.replace(ed["old"], ed["new"]))
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
if "demo" in spec: open(d + "/demo.rs", "w").write(spec["demo"])
