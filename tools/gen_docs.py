#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from vmon/catalog.py."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from vmon.catalog import P

done = set(p["id"] for p in P
           if os.path.exists(os.path.join(root, "vmon/props/%s.py" % p["id"].lower())))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
man = {"version": 1,
       "setup_cmd": "bash setup.sh",
       "checks": [], "not_applicable": [],
       "notes": "Runtime-monitoring checks for pyjwkest; see DESIGN.md. All checks import /repo/src directly (pure Python, nothing is cached between runs)."}
for p in P:
    if p["id"] in done:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "bash run.sh %s quick" % p["id"],
            "thorough_cmd": "bash run.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "runtime monitoring: " + p["technique"],
            "level": "exploration", "level_note": p["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")

# the table of planted bugs in DESIGN.md
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
a, b = "<!-- planted:begin -->\n", "<!-- planted:end -->"
if a in text and b in text:
    notes = json.load(open(os.path.join(root, "tools", "planted_notes.json")))
    rows = ["| planted bug | check | needs | missed at first, then |", "|---|---|---|---|"]
    seeded = os.path.join(root, "seeded")
    for i in sorted(os.listdir(seeded)):
        m = json.load(open(os.path.join(seeded, i, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (
            i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), notes.get(i, "")))
    head, rest = text.split(a, 1)
    tail = rest.split(b, 1)[1]
    open(path, "w").write(head + a + "\n" + "\n".join(rows) + "\n\n" + b + tail)
