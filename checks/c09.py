"""C09: event-tree and phased results follow the model of each path and phase."""
from checks import c07, c08
from simlib import analysis as A
from simlib import gen, harness, model as M, ref
from simlib.report import close

PROP = "C09"
CASES = {"quick": 8000, "thorough": 200000}
SECONDS = {"quick": 55, "thorough": 1200}
LEVEL = "exploration"
RULE = ("a case is one seeded model with event trees (forks, named branches, links, rules, conditions, collected formulas or expressions, "
        "house events set on the way) and/or alignments with several phases, analysed under several configurations after each other on one "
        "loaded model in one simulated process; non-trivial: a sequence reached by two or more paths, or two or more phases")


def make(rng, tier, index):
    ets = rng.random() < 0.75
    g = gen.Gen(rng, nvars=(2, 6), ngates=(1, 6), houses=rng.random() < 0.75, ets=ets, aligns=not ets or rng.random() < 0.3,
                time=rng.random() < 0.6)
    m = g.model()
    opts = c08.options(rng)
    rng.shuffle(opts)
    return {"model": m, "opts": opts, "env": A.env_plan(rng), "style": rng.choice([0, 0, 1, 3])}


def compare_ies(out, case, reps, max_vars=14):
    m = case["model"]
    for o, rep in zip(case["opts"], reps):
        if rep is None:
            continue
        where0 = A.opts_text(o)
        try:
            want = A.targets(m, o, max_vars)
        except ref.Unsupported:
            out.skipped = "too large"
            continue
        exp = {}
        for i, kind, u, w in want:
            if i[0] is not None:
                exp.setdefault((i[0], i[2], i[3]), {})[i[1]] = (kind, u.p_total if isinstance(u, ref.Unit) else u)
                out.feat("sequences by " + kind)
        if not o.get("prob"):
            exp = {}
        if set(rep["ie"]) != set(exp):
            out.bad("wrong-event-tree-results", "%s: event-tree results for %s, expected %s" % (
                where0, sorted(map(str, rep["ie"])), sorted(map(str, exp))))
            continue
        for k, seqs in exp.items():
            got = rep["ie"][k]
            names = [n for n, _ in got["seqs"]]
            if sorted(names) != sorted(seqs) or got["n"] != len(names):
                out.bad("wrong-sequences", "%s: %s reports sequences %s (%d), expected %s" % (where0, k, names, got["n"], sorted(seqs)))
                continue
            for n, v in got["seqs"]:
                out.feat("sequence values")
                if not close(v, seqs[n][1], abs_=1e-13):
                    out.bad("wrong-sequence-value", "%s: sequence %s of %s has %r, expected %.12g" % (where0, n, k, v, seqs[n][1]))


def run(ctx, case):
    out = harness.Out()
    reps = A.run_case(ctx, case, out)
    if reps is None:
        return out
    c08.compare(out, case, reps)
    compare_ies(out, case, reps)
    m = case["model"]
    out.nontrivial = False
    if any(len(a["phases"]) > 1 for a in m.get("aligns", [])):
        out.nontrivial = True
        out.feat("several phases")
    for ie in m.get("ies", []):
        if ie.get("et"):
            ss = ref.sequences(m, ie, 1.0)
            out.feat("paths", sum(len(p) for p in ss.values()))
            if any(len(p) > 1 for p in ss.values()):
                out.nontrivial = True
                out.feat("sequence of several paths")
            if any(p.sets for ps in ss.values() for p in ps):
                out.feat("house events set on a path")
    out.key = str(m.get("ets")) + str(m.get("aligns")) + str(sorted((g["n"], str(g["f"])) for g in m["gates"]))
    out.sample = {"event trees": m.get("ets", [])[:1], "alignments": m.get("aligns", []), "configurations": [A.opts_text(o) for o in case["opts"]]}
    return out


shrink = c07.shrink
