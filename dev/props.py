#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and msa/registry.py from the table in dev/proptable.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from proptable import PROPS, NA
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ("id", "title", "statement")}
        assert len(p["title"]) <= 80, p["id"]
        q["quantifier"] = {"over": p["over"], "text": p["qtext"]}
        q["why_tests_cant"] = p["why"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        q["anchors"] = a
        f.write(json.dumps(q) + "\n")
TECH = "static analysis: path-sensitive abstract interpretation (provenance dataflow + typestate) over the syntax tree of the current source"
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": [
    {"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
     "technique": p.get("tech", TECH), "level": "other", "level_note": p["note"]} for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
with open(V + "/msa/registry.py", "w") as f:
    f.write('"""property id -> (rule module, entry, what the check decides); generated by dev/props.py"""\nRULES = {\n')
    for p in PROPS:
        f.write(f"    {p['id']!r}: ({p['rule'][0]!r}, {p['rule'][1]!r},\n            {p['note']!r}),\n")
    f.write("}\n")
print(len(PROPS), "claimed,", len(NA), "not applicable")

# ---- DESIGN.md
out = open(HERE + "/design_head.md").read()
out += "## Properties decided\n\n"
for p in PROPS:
    out += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Quantifies over:* {p['qtext']}. *Tests cannot settle it because* {p['why']}.\n\n"
    out += f"*Decided by* `msa/rules/{p['rule'][0]}.py:{p['rule'][1]}`. {p['note']}\n\n"
if NA:
    out += "## Not applicable to static analysis here\n\n"
    for p in NA:
        out += f"* **{p['id']} {p['title']}** — {p['statement']} *Not claimed:* {p['reason']}\n"
    out += "\n"
out += "## Genuine defects found\n\nRepaired (`fix:` commits in /repo) or recorded (`known_findings.txt`):\n\n"
for l in open(V + "/known_findings.txt"):
    if l.strip() and not l.startswith("#"):
        out += "* " + l.strip() + "\n"
for f, t in (("design_tail.md", ""), ("catches.txt", "\n## Planted bugs\n\nEach is in `/verif/seeded/<id>`; the check named caught it when last run (`dev/seed.py`).\n\n")):
    try:
        s = open(HERE + "/" + f).read()
    except FileNotFoundError:
        continue
    out += t + s
open(V + "/DESIGN.md", "w").write(out)
