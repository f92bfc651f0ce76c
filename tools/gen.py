#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and jobs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import props, jobs
ps = props.PROPS
for p in ps:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(HERE + "/properties.jsonl", "w") as f:
    for p in ps:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --list > /dev/null", "checks": [], "not_applicable": [],
     "notes": "Every check compiles its harnesses against /repo/include from the working tree; nothing is prebuilt. No hooks in /repo are needed. See DESIGN.md."}
for p in ps:
    i = p["id"]
    if i not in jobs.PROPS:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: its harness is still being built"})
        continue
    j = jobs.PROPS[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": j["technique"], "level": j["level"], "level_note": j["note"]})
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(ps), "properties,", len(m["checks"]), "checks")
import design, glob
rows = []
for p in ps:
    d = design.DESIGN.get(p["id"])
    j = jobs.PROPS.get(p["id"])
    if d and j:
        rows.append("**%s - %s** (%s; quick tier about %s, %d jobs). %s\n" % (p["id"], p["title"], j["level"], d[0], len(jobs.jobs(p["id"], "quick")), d[1]))
    else:
        rows.append("**%s - %s**: not claimed (see MANIFEST.json).\n" % (p["id"], p["title"]))
caught = json.load(open(HERE + "/tools/caught.json")) if os.path.exists(HERE + "/tools/caught.json") else {}
st = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f)); md = json.load(open(f))
    st.append("| %s | %s | %s | %s |" % (i, md["property"], md["needs"], caught.get(i, "not run yet")))
t = open(HERE + "/tools/DESIGN.in.md").read().replace("PROPTABLE", "\n".join(rows)).replace("SEEDTABLE", "\n".join(st))
open(HERE + "/DESIGN.md", "w").write(t)
