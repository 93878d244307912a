"""Runs cases of a check in one warm server, again in another one, and after a restart: every hash must agree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from simlib import harness, sim  # noqa: E402

name, n, start = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 0
check = importlib.import_module("checks." + name.lower())
d = harness.Driver(check, "quick", 1)
exes = d.build()
root = sim.Root()
a, b = harness.Ctx(exes, root.path, sim.numbered("run", 38)), harness.Ctx(exes, root.path, sim.numbered("run", 101))
bad = 0
for i in range(start, start + n):
    case = check.make(harness.case_rng(1, check.PROP, i), "quick", i)
    r = []
    for ctx in (a, b):
        ctx.reset()
        check.run(ctx, case)
        r.append(list(ctx.hashes))
    if i % 10 == 0:
        b.restart()
    if r[0] != r[1]:
        bad += 1
        bad < 4 and print("case %d differs: %s %s" % (i, r[0], r[1]))
print("%d of %d differ" % (bad, n))
a.close()
b.close()
root.close()
