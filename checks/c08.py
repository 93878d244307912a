"""C08: total, product and importance numbers are the ones the products and event probabilities define."""
from checks import c07
from simlib import analysis as A
from simlib import gen, harness, model as M, ref

PROP = "C08"
CASES = {"quick": 8000, "thorough": 200000}
SECONDS = {"quick": 60, "thorough": 1200}
LEVEL = "exploration"
RULE = ("a case is one seeded random fault tree model with constant, derived and time-dependent probabilities (including 0 and 1), "
        "analysed for probability and importance with BDD (exact), ZBDD and MOCUS (rare-event, MCUB, exact) and order limits, several "
        "configurations after each other on one loaded model inside one simulated process; non-trivial: at least one target with "
        "probability strictly between 0 and 1 and two or more products")


def options(rng, mission=True):
    opts = [{"algorithm": "bdd"}]
    for a in rng.sample(A.ALGOS, 2):
        ap = rng.choice(["rare-event", "mcub", "none"]) if a != "bdd" else "none"
        opts.append({"algorithm": a, "approx": ap})
    if rng.random() < 0.3:
        opts.append({"algorithm": rng.choice(["zbdd", "mocus"]), "approx": rng.choice(["rare-event", "mcub"]),
                     "limit": rng.choice([0, 1, 1, 2, 2, 3])})
    for o in opts:
        o["prob"] = 1
        if rng.random() < 0.75:
            o["imp"] = 1
        if mission and rng.random() < 0.5:
            o["mission"] = rng.choice([0, 1, 100, 1000, 8760, 87600])
    return opts


def make(rng, tier, index):
    big = rng.random() < 0.25
    subs = rng.random() < 0.12
    exchange = subs and rng.random() < 0.6
    g = gen.Gen(rng, nvars=(3, 11) if big else (2, 7), ngates=(2, 12) if big else (1, 7), rare=rng.random() < 0.2,
                subs=subs, exchange=exchange)
    m = g.model()
    opts = options(rng)
    if len(m["basics"]) <= 8 and rng.random() < 0.3:
        opts.append({"algorithm": "bdd", "prime": True, "prob": 1, "imp": 1})
    opts = c07.inexact(rng, m, opts)
    rng.shuffle(opts)
    return {"model": m, "opts": opts, "env": A.env_plan(rng), "style": rng.choice([0, 0, 1, 3])}


def compare(out, case, reps, max_vars=14):
    m = case["model"]
    for o, rep in zip(case["opts"], reps):
        if rep is None:
            continue
        where0 = A.opts_text(o)
        try:
            want = A.targets(m, o, max_vars)
        except ref.Unsupported:
            out.skipped = "too large"
            continue
        ids = set(t[0] for t in want if t[1] != "expression")
        if set(rep["sop"]) != ids:
            out.bad("wrong-targets", "%s: results for %s, expected %s" % (where0, sorted(map(str, rep["sop"])), sorted(map(str, ids))))
            continue
        for i, kind, u, w in want:
            where = "%s [%s]" % ("/".join(str(x) for x in i if x is not None), where0)
            if kind == "expression":
                continue
            sop = rep["sop"][i]
            r = A.compare_products(out, where, sop, u)
            if r is None:
                continue
            out.feat("targets")
            if o.get("prob"):
                A.compare_probability(out, where, sop, u, *r)
                out.feat("probability " + A.full_opts(o)["approx"])
                if u.p_total in (0, 1):
                    out.feat("probability 0 or 1")
                elif len(u.products) >= 2:
                    out.nontrivial = True
            if o.get("imp"):
                A.compare_importance(out, where, rep["imp"].get(i, {}), u)
                out.feat("importance " + A.full_opts(o)["approx"])


def run(ctx, case):
    out = harness.Out()
    reps = A.run_case(ctx, case, out)
    if reps is None:
        return out
    compare(out, case, reps)
    m = case["model"]
    out.key = str(sorted((g["n"], str(g["f"])) for g in m["gates"])) + str([b.get("e") for b in m["basics"]])
    out.sample = {"gates": [[M.eid(g), g["f"]] for g in m["gates"]][:6], "events": [[M.eid(b), b.get("e")] for b in m["basics"]][:6],
                  "configurations": [A.opts_text(o) for o in case["opts"]]}
    return out


shrink = c07.shrink
