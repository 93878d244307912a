#!/usr/bin/env python3
"""mkpatch.py ID PROPERTY FILE: reads blocks '<<<<\\nold\\n====\\nnew\\n>>>>' from stdin (file lines '@ path'), writes seeded/ID/patch.diff."""
import json, os, re, subprocess, sys
REPO = os.environ.get("MKREPO", "/repo")
pid, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + pid
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git", "-C", REPO, "status", "--porcelain"]), "dirty"
txt = sys.stdin.read()
path = None
for part in re.split(r"(?m)^(?=@ |<<<<$)", txt):
    if part.startswith("@ "):
        path = REPO + "/" + part[2:].strip()
    elif part.startswith("<<<<"):
        old, new = part[5:].split("====\n", 1)
        new = new[:new.rindex(">>>>")]
        s = open(path).read()
        assert s.count(old) == 1, (path, old, s.count(old))
        open(path, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", REPO, "diff"])
open(d + "/patch.diff", "wb").write(diff)
subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
