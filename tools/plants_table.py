#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (section 6) from seeded/*/meta.json and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"c02-autosave-off": "C12", "c08-imp-module": "", "c16-cached-call": ""}
print("| Planted bug | Caught by | What it breaks | Needs |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    also = m.get("also") or ALSO.get(d)
    print("| %s | %s%s | %s | %s |" % (d, m["property"] if m.get("caught", True) else "not caught", ", " + also if also else "",
                                       m["what_it_breaks"].rstrip("."), m["needs"]))
