#!/usr/bin/env python3-vt
"""Prints the model and configurations of a replay file."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib import model as M, analysis as A
b = json.load(open(sys.argv[1]))
c = b["case"]
print(b["signature"], b["message"])
if "model" in c:
    print(M.to_xml(c["model"], c.get("style", 0)))
print([A.opts_text(o) for o in c.get("opts", [])])
print({k: v for k, v in c.items() if k not in ("model", "opts")})
