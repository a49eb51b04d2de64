#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table (the checks claimed are those present in lib/checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "code/latte/"
PROPS = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [L + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    if observe: p["anchors"]["observe_at"] = observe
    PROPS.append((p, technique, note, na))

exec(open(V + "/tools/props.py").read())

for p_ in PROPS:
    for f_ in p_[0]["anchors"]["files"] + [m_["where"] for m_ in p_[0]["anchors"]["mechanism"]]: assert os.path.exists("/repo/" + f_), (p_[0]["id"], f_)
with open(V + "/properties.jsonl", "w") as o:
    for p, t, n, na in PROPS:
        o.write(json.dumps(p) + "\n")
checks, nas = [], []
for p, t, n, na in PROPS:
    if na: nas.append({"property": p["id"], "reason": na}); continue
    if os.path.exists(V + "/lib/checks/%s.py" % p["id"].lower()):
        c = "python3 bin/check " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c, "technique": t, "level": "other", "level_note": n})
    else:
        nas.append({"property": p["id"], "reason": "Not claimed yet: the static check for this property is not finished."})
M = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": nas,
     "notes": "All checks share one libTooling fact extractor (engine/extract.cpp) over every translation unit the Makefiles compile; see DESIGN.md."}
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks", len(nas), "not claimed")
