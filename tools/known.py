#!/usr/bin/env python3
"""Rewrites the 'fixed' list of known_findings.json from /repo's fix: commits (PROPS maps subjects to properties)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, "known_findings.json")
k = json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}
props = json.load(open(os.path.join(V, "tools", "fixprops.json")))
fixed = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        s = s[4:].strip()
        ps = [v for key, v in props.items() if s.startswith(key)]
        if not ps: print("no property for:", s)
        fixed.append("fixed: property=%s %s %s" % (ps[0] if ps else "?", h, s))
k["fixed"] = fixed
json.dump(k, open(f, "w"), indent=1); open(f, "a").write("\n")
