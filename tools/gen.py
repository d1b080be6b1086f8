#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, level="model_checking", na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, level=level, na=na))

exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        d = {"id": x["id"], "title": x["title"], "statement": x["statement"],
             "quantifier": {"over": x["over"], "text": x["text"]},
             "why_tests_cant": x["why"],
             "anchors": {"files": x["files"],
                         "state": [{"name": a, "meaning": b, "where": c} for a, b, c in x["state"]],
                         "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                         "observe_at": list(x["observe"]) or ["World.Interpret"],
                         "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "./run build",
     "checks": [{"property": x["id"], "quick_cmd": "./run check %s -tier quick" % x["id"],
                 "thorough_cmd": "./run check %s -tier thorough" % x["id"],
                 "technique": x["technique"], "level": x["level"], "level_note": x["note"]} for x in P if not x["na"]],
     "not_applicable": [{"property": x["id"], "reason": x["na"]} for x in P if x["na"]],
     "notes": "Every check builds mc/ against /repo's working tree and enumerates its bounded space completely; no hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

# the table of planted bugs in DESIGN.md
rows = ["| bug | property (check that catches it) | needs |", "|---|---|---|"]
for d in ("seeded", "mutants"):
    for n in sorted(os.listdir(os.path.join(V, d))):
        m = json.load(open(os.path.join(V, d, n, "meta.json")))
        rows.append("| %s%s | %s | %s |" % (n, "" if d == "seeded" else " (mutants/)", m["property"], m["needs"].replace("|", "/")))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
a, b = s.index("<!-- planted -->"), s.index("<!-- end -->")
open(f, "w").write(s[:a] + "<!-- planted -->\n" + "\n".join(rows) + "\n" + s[b:])
