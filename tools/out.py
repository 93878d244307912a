"""python3-vt tools/out.py <replay> <file>: shows a file of the first run of a replay."""
import importlib, json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib import harness, sim
body = json.load(open(sys.argv[1]))
mod = importlib.import_module("checks." + body["property"].lower())
d = harness.Driver(mod, "quick", 1)
root = sim.Root()
ctx = harness.Ctx(d.build(), root.path, "replay")
keep = []
orig = ctx.sim
def f(*a, **k):
    r = orig(*a, **k); keep.append(r); return r
ctx.sim = f
out = mod.run(ctx, body["case"])
n = int(sys.argv[3]) if len(sys.argv) > 3 else 0
print(len(keep), [r.end for r in keep], out.violations[:2])
print(keep[n].files.get(sys.argv[2], b"?").decode("utf-8", "replace") if sys.argv[2] != "trace" else keep[n].trace)
ctx.close(); root.close()
