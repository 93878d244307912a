#!/usr/bin/env python3-vt
"""survey.py C11 COUNT [START]: runs cases and counts the signatures of violations (for development)."""
import collections, importlib, json, multiprocessing as mp, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib import build, harness, sim
mod = importlib.import_module("checks." + sys.argv[1].lower())
n, start = int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 0
exes = {e: getattr(build, "build_" + e)() for e in getattr(mod, "EXES", ("core",))}
root = sim.Root()


def work(slot):
    ctx = harness.Ctx(exes, root.path, "s%d" % slot)
    res = []
    for i in range(start + slot, start + n, 8):
        ctx.reset()
        case = mod.make(harness.case_rng(int(os.environ.get("VERIF_SEED", "1")), mod.PROP, i), "quick", i)
        out = mod.run(ctx, case)
        res.append((i, out.violations, dict(out.features)))
    ctx.close()
    return res


with mp.Pool(8) as pool:
    all_ = sum(pool.map(work, range(8)), [])
c, ex, f = collections.Counter(), {}, collections.Counter()
for i, v, fe in sorted(all_):
    for s, m in v:
        c[s] += 1
        ex.setdefault(s, []).append((i, m))
    f.update(fe)
for s, k in c.most_common():
    print("%5d %s" % (k, s))
    for i, m in ex[s][:8]:
        print("        case %d: %s" % (i, m.replace("\n", " ")[-300:]))
print(sorted(f.items()))
root.close()
