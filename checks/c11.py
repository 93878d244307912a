"""C11: undo and redo restore the model exactly, in any history."""
from simlib import guirun as G
from simlib import harness

PROP = "C11"
EXES = ("gui",)
CASES = {"quick": 3600, "thorough": 200000}
SECONDS = {"quick": 55, "thorough": 900}
LEVEL = "fault_injection"
RULE = ("a case is one seeded session of a simulated user in the real application: 3-50 actions (edits of every kind through the dialogs, undo and redo by one or many "
        "steps, saves, loads, new models, tables opened, sorted, filtered, scenes, analyses) with automatic saves between them and, in a part of the cases, failing saves; "
        "after every step the model, its serialized form, every table, the trees and the modified flag are compared with the recorded history; non-trivial: at least two "
        "accepted edits and one undo")
NEED = {"act undo": 1, "act redo": 1, "accepted edits": 1, "saves": 1, "auto-save timer": 1, "fault_rename": 1}
REAL, STUB, ASSUMPTIONS = G.REAL, G.STUB, G.ASSUMPTIONS
OPS = {"add": 10, "edit": 16, "remove": 8, "name": 2, "undo": 9, "redo": 7, "saveas": 1, "save": 2, "table": 2, "closetab": 1, "sort": 2, "filter": 1, "scene": 2,
       "run": 1, "report": 1, "settings": 0.5, "prefs": 0.7, "new": 0.3, "close": 0.2, "open": 0.5}


def make(rng, tier, index):
    ops = {k: v for k, v in OPS.items() if k in ("edit", "undo", "add") or rng.random() < 0.7}
    c = G.session(rng, ops)
    c["fault"] = []
    if rng.random() < 0.15:
        c["fault"].append("rename|xml|%d%s|EACCES|" % (rng.randint(1, 3), rng.choice(["", "+"])))
    if rng.random() < 0.1:
        c["fault"].append("open_w|xml.|%d%s|ENOSPC|" % (rng.randint(1, 3), rng.choice(["", "+"])))
    return c


def run(ctx, case):
    out = harness.Out()
    p = G.plan(case)
    p["fault"] = case["fault"]
    res = ctx.sim(p, G.files(case), exe="gui")
    G.judge(res, out, G.HISTORY)
    out.key = res.hash
    out.nontrivial = out.features.get("accepted edits", 0) >= 2 and "act undo" in out.features
    out.sample = G.sample(case, res)
    return out


def shrink(case):
    import copy
    if case["fault"]:
        c = copy.deepcopy(case)
        c["fault"] = []
        yield c
    yield from G.shrink(case)
