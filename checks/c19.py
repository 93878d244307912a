"""C19: common-cause groups expand to the stated factor model."""
from checks import c07, c08
from simlib import analysis as A
from simlib import gen, harness, model as M, ref

PROP = "C19"
CASES = {"quick": 20000, "thorough": 200000}
SECONDS = {"quick": 40, "thorough": 1200}
LEVEL = "exploration"
RULE = ("a case is one seeded model with common-cause groups (beta-factor, MGL, alpha-factor, phi-factor; 2-5 members; given levels in any order, "
        "missing upper levels, parameters and time-dependent distributions) whose members are used under any gates, analysed with common cause on "
        "and off in any order on one loaded model in one simulated process; non-trivial: a common-cause event is in the products")
NEED = {"beta-factor": 1, "MGL": 1, "alpha-factor": 1, "phi-factor": 1, "off after on": 1}


def make(rng, tier, index):
    g = gen.Gen(rng, nvars=(2, 6), ngates=(1, 6), ccf=True, ccf_sizes=[2, 2, 3, 3, 4, 5], comps=False, coherent=rng.random() < 0.6,
                aligns=rng.random() < 0.1)
    m = g.model()
    opts = []
    for _ in range(rng.randint(2, 4)):
        o = {"algorithm": rng.choice(A.ALGOS), "prob": 1}
        if rng.random() < 0.75:
            o["ccf"] = 1
        if rng.random() < 0.5:
            o["imp"] = 1
        if o["algorithm"] != "bdd":
            o["approx"] = rng.choice(["rare-event", "mcub", "none"])
        elif rng.random() < 0.15:
            o["prime"] = 1
        if rng.random() < 0.2:
            o["limit"] = rng.choice([0, 1, 2, 3])
        if rng.random() < 0.3:
            o["mission"] = rng.choice([1, 100, 8760])
        opts.append(o)
    return {"model": m, "opts": opts, "env": A.env_plan(rng), "style": rng.choice([0, 0, 1, 3])}


def run(ctx, case):
    out = harness.Out()
    reps = A.run_case(ctx, case, out)
    if reps is None:
        return out
    c08.compare(out, case, reps, 13)
    m = case["model"]
    out.nontrivial = False
    on = False
    for o, rep in zip(case["opts"], reps):
        if on and not o.get("ccf"):
            out.feat("off after on")
        on = on or bool(o.get("ccf"))
        for sop in (rep or {"sop": {}})["sop"].values():
            for p in sop["products"]:
                if any(isinstance(n, tuple) for n, _ in p["lits"]):
                    out.nontrivial = True
    if out.nontrivial:
        for c in m.get("ccfs", []):
            out.feat(c["model"])
    out.key = str(m.get("ccfs")) + str(sorted((g["n"], str(g["f"])) for g in m["gates"])) + str(case["opts"])
    out.sample = {"groups": m.get("ccfs", []), "configurations": [A.opts_text(o) for o in case["opts"]]}
    return out


shrink = c07.shrink
