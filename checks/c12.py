"""C12: work in the GUI during a background analysis is safe and complete."""
import difflib

from simlib import guigen
from simlib import guirun as G
from simlib import harness, report

PROP = "C12"
EXES = ("gui",)
CASES = {"quick": 2500, "thorough": 100000}
SECONDS = {"quick": 55, "thorough": 900}
LEVEL = "fault_injection"
RULE = ("a case is one seeded session in the real application with 1-4 background analyses on the thread pool, each lasting from no simulated time to many periods of the "
        "automatic saving, under a seeded schedule of the analysis thread and the event loop (random, priority or change-point scheduling at allocations and synchronization), "
        "with edits and settings between the analyses, impatient input during them (keys to the window and to the wait dialog, attempts to close it) and failing automatic "
        "saves; every report is compared with an analysis made without the GUI at the moment of the start; non-trivial: an analysis ended and the threads were switched")
NEED = {"analyses": 1, "auto-save timer": 1, "noise": 1, "saves": 1, "switches": 1}
REAL, STUB, ASSUMPTIONS = G.REAL, G.STUB, G.ASSUMPTIONS
OPS = {"run": 8, "edit": 4, "add": 2, "remove": 1, "undo": 1, "redo": 0.5, "settings": 4, "report": 2, "save": 1, "saveas": 0.5, "table": 1, "export": 1, "wait": 1}


def document(rng, **k):
    return guigen.document(rng, complete=True, ngates=rng.choice([2, 4, 7, 10]), nbasic=rng.choice([3, 6, 9, 12]), **k)


def make(rng, tier, index):
    ops = {k: v for k, v in OPS.items() if k in ("run", "edit", "settings") or rng.random() < 0.7}
    c = G.session(rng, ops, lengths=(4, 8, 12), auto=rng.random() < 0.8, document=document)
    if not c["args"]:
        c["args"] = ["m.xml"]
    at = rng.randint(0, len(c["acts"]))
    c["acts"][at:at] = guigen.acts(rng, 1, {"settings": 1}) if rng.random() < 0.6 else []
    c["acts"][at:at] = guigen.acts(rng, 1, {"edit": 1}, delays=(1, 20, 200))
    c["acts"] += guigen.acts(rng, 1, {"run": 1}, delays=(1, 20, 200))
    c["sched"] = {"seed": rng.randrange(1, 1 << 30), "rate": rng.choice([2, 5, 20, 100]), "mode": rng.choice([0, 0, 1, 2]), "changes": rng.randint(1, 8),
                  "span": rng.choice([200, 2000, 20000]), "tick_ns": rng.choice([0, 1000000, 10000000, 100000000, 100000000, 1000000000])}
    c["noise"] = rng.choice([0, 50, 500, 3000])
    c["fault"] = []
    if rng.random() < 0.15:
        c["fault"].append("rename|xml|%d%s|EACCES|" % (rng.randint(1, 3), rng.choice(["", "+"])))
    if rng.random() < 0.1:
        c["fault"].append("open_w|xml.|%d%s|ENOSPC|" % (rng.randint(1, 3), rng.choice(["", "+"])))
    return c


def run(ctx, case):
    out = harness.Out()
    p = G.plan(case)
    p["fault"] = case["fault"]
    if case["noise"]:
        p["noise.ms"] = case["noise"]
    res = ctx.sim(p, G.files(case), exe="gui")
    G.judge(res, out, G.WORK)
    n = 0
    for l in res.trace.split("\n"):
        if l.startswith("analysis compared "):
            k = l.split()[2]
            a, b = (report.strip_volatile(res.files.get("report-%s-%s.xml" % (x, k), b"")) for x in ("gui", "ref"))
            if not b:
                out.bad("no-reference", "there is no reference for analysis %s" % k)
            elif a != b:
                d = [x for x in difflib.unified_diff(b.split("\n"), a.split("\n"), n=0) if x[:1] in "+-" and x[:3] not in ("+++", "---")]
                out.bad("other-results", "the analysis of action %s in the GUI differs from the undisturbed one: %s" % (k, " ".join(d)[:300]))
            n += 1
    out.key = (res.sched, res.hash)
    out.nontrivial = n > 0 and res.counters.get("switches", 0) > 0
    out.sample = dict(G.sample(case, res), schedule=case["sched"], analyses=n, switches=res.counters.get("switches", 0))
    return out


def shrink(case):
    import copy
    for k, v in (("fault", []), ("noise", 0)):
        if case[k]:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    yield from G.shrink(case)
