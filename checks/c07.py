"""C07: the reported products are exactly the minimal cut sets / prime implicants, for every algorithm."""
from simlib import analysis as A
from simlib import gen, harness, model as M, ref

PROP = "C07"
CASES = {"quick": 12000, "thorough": 400000}
SECONDS = {"quick": 60, "thorough": 1200}
LEVEL = "exploration"
RULE = ("a case is one seeded random fault tree model (own mix of connectives, negations, house events, constants, modules, "
        "components, several trees) analysed with BDD, ZBDD, MOCUS, prime implicants and order limits inside one simulated "
        "process with its own heap layout, memory contents, clock and partial reads/writes; non-trivial: the top is not constant "
        "and has at least two products")


def make(rng, tier, index):
    big = rng.random() < 0.25
    subs = rng.random() < 0.15
    exchange = subs and rng.random() < 0.6
    g = gen.Gen(rng, exprs=False, params=False, time=False, nvars=(3, 12) if big else (2, 7), ngates=(2, 14) if big else (1, 7),
                subs=subs, exchange=exchange)
    m = g.model()
    lim = rng.choice([1, 2, 2, 3, 4])
    opts = [{"algorithm": a} for a in A.ALGOS]
    opts += [{"algorithm": rng.choice(A.ALGOS), "limit": lim}]
    opts += [{"algorithm": a, "limit": rng.choice([0, 1, 1, 2, 2, 3])} for a in rng.sample(A.ALGOS, 1)]
    if max(2, len(m["basics"])) <= 9:
        opts += [{"algorithm": "bdd", "prime": True}, {"algorithm": "bdd", "prime": True, "limit": lim}]
    opts = inexact(rng, m, opts)
    rng.shuffle(opts)
    return {"model": m, "opts": opts, "env": A.env_plan(rng), "style": rng.choice([0, 0, 1, 3])}


def inexact(rng, m, opts):
    """Substitutions with sources apply to approximate analyses only."""
    if not any(s.get("source") for s in m.get("subs") or []):
        return opts
    opts = [o for o in opts if not o.get("prime")]
    for o in opts:
        if o["algorithm"] == "bdd":
            o["algorithm"] = rng.choice(["zbdd", "mocus"])
        if o.get("approx") in ("none", "", None):
            o["approx"] = rng.choice(["rare-event", "mcub"])
    return opts


def run(ctx, case):
    out = harness.Out()
    try:
        reps = A.run_case(ctx, case, out)
    except ref.Unsupported:
        out.skipped = "too large"
        return out
    if reps is None:
        return out
    m = case["model"]
    for o, rep in zip(case["opts"], reps):
        if rep is None:
            continue
        where0 = A.opts_text(o)
        try:
            want = A.targets(m, o)
        except ref.Unsupported:
            out.skipped = "too large"
            continue
        ids = set(t[0] for t in want)
        if set(rep["sop"]) != ids:
            out.bad("wrong-targets", "%s: results for %s, expected %s" % (where0, sorted(map(str, rep["sop"])), sorted(map(str, ids))))
            continue
        for i, kind, u, w in want:
            where = "%s [%s]" % (i[1], where0)
            A.compare_products(out, where, rep["sop"][i], u)
            out.feat("targets")
            out.feat("products", len(u.products))
            if u.f == 0:
                out.feat("top is false")
            elif u.f == u.tb.full:
                out.feat("top is true")
            if len(u.products) < len(u.all_products):
                out.feat("order limit cuts")
            if o.get("prime") and any(n for x in u.products for _, n in x):
                out.feat("negative literals in implicants")
            if len(u.products) >= 2:
                out.nontrivial = True
    for s in m.get("subs") or []:
        out.feat("substitution with sources" if s.get("source") else "declarative substitution")
    out.key = str(sorted((g["n"], str(g["f"])) for g in m["gates"]))
    out.sample = {"gates": [[M.eid(g), g["f"]] for g in m["gates"]][:6], "configurations": [A.opts_text(o) for o in case["opts"]]}
    return out


def shrink(case):
    for i in range(len(case["opts"])):
        if len(case["opts"]) > 1:
            c = dict(case)
            c["opts"] = case["opts"][:i] + case["opts"][i + 1:]
            yield c
    for k in list(case["env"]):
        if k != "seed":
            c = dict(case)
            c["env"] = {x: v for x, v in case["env"].items() if x != k}
            yield c
    for m in M.shrink_model(case["model"]):
        c = dict(case)
        c["model"] = m
        yield c
