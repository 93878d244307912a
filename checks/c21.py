"""C21: what is accepted in a dialog of the GUI is what takes effect, and nothing else."""
from simlib import guirun as G
from simlib import harness

PROP = "C21"
EXES = ("gui",)
CASES = {"quick": 3600, "thorough": 200000}
SECONDS = {"quick": 55, "thorough": 900}
LEVEL = "exploration"
RULE = ("a case is one seeded session of a simulated user in the real application: 3-50 actions, most of them edits, additions, removals, renames and settings through the "
        "dialogs, in histories with undo, redo, saves, loads and analyses; every accepted dialog is applied to a small reference model, which the real model must equal "
        "afterwards; non-trivial: at least two accepted edits")
NEED = {"accepted edits": 1, "act remove": 1, "act settings": 1, "act name": 1}
REAL, STUB, ASSUMPTIONS = G.REAL, G.STUB, G.ASSUMPTIONS
OPS = {"add": 12, "edit": 24, "remove": 10, "name": 4, "undo": 5, "redo": 2, "saveas": 0.5, "save": 1, "sort": 2, "filter": 1, "scene": 1, "run": 1, "settings": 4, "prefs": 1.5,
       "new": 0.3, "open": 0.5}


def make(rng, tier, index):
    ops = {k: v for k, v in OPS.items() if k in ("edit", "add") or rng.random() < 0.7}
    return G.session(rng, ops)


def run(ctx, case):
    out = harness.Out()
    res = ctx.sim(G.plan(case), G.files(case), exe="gui")
    G.judge(res, out, G.EDITS)
    out.key = res.hash
    out.nontrivial = out.features.get("accepted edits", 0) >= 2
    out.sample = G.sample(case, res)
    return out


shrink = G.shrink
