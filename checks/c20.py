"""C20: results do not depend on how a model is split into files or ordered."""
import random

from checks import c01, c07, c08, c09
from simlib import analysis as A
from simlib import gen, harness, layout, model as M, ref, report

PROP = "C20"
CASES = {"quick": 8000, "thorough": 200000}
SECONDS = {"quick": 50, "thorough": 1200}
LEVEL = "exploration"
RULE = ("a case is one seeded model (trees with components, event trees, alignments, common-cause groups, parameters; some with a planted "
        "error) delivered in one canonical file and in three seeded other ways: definitions permuted at every level, split over up to four files in "
        "any order and directory, moved into included files (nested), listed in a project file with the settings in the project, on the command line "
        "or both; every delivery must be accepted or rejected alike, and its products, probabilities, importance, sequence values and model counts "
        "must equal the reference and each other; non-trivial: an accepted delivery through two or more files")
NEED = {"several files": 1, "includes": 1, "nested includes": 1, "project": 1, "settings split between project and command line": 1, "rejected alike": 1,
        "event trees": 1, "common cause": 1, "components": 1}

BREAK = ["dup-event", "dup-gate", "undefined", "cycle", "dup-house"]


def make(rng, tier, index):
    kind = rng.choice(["tree", "tree", "tree", "ets", "aligns", "ccf"])
    g = gen.Gen(rng, nvars=(2, 7), ngates=(2, 8), ets=kind == "ets", aligns=kind == "aligns" or rng.random() < 0.1, ccf=kind == "ccf", comps=rng.random() < 0.5,
                multi_ft=rng.random() < 0.6, params=rng.random() < 0.6, houses=rng.random() < 0.6)
    m = g.model()
    if rng.random() < 0.08:
        m["break"] = rng.choice(BREAK)
    opts = []
    for _ in range(rng.randint(1, 2)):
        o = {"algorithm": rng.choice(A.ALGOS)}
        if rng.random() < 0.85:
            o["prob"] = 1
            if rng.random() < 0.5:
                o["imp"] = 1
            if rng.random() < 0.4:
                o["mission"] = rng.choice([1, 100, 8760.0, 1234.5])
        if rng.random() < 0.3:
            o["limit"] = rng.randint(0, 5)
        if o["algorithm"] == "bdd":
            if rng.random() < 0.2 and len(m["basics"]) <= 7 and not m.get("ccfs"):
                o["prime"] = 1
        elif rng.random() < 0.6:
            o["approx"] = rng.choice(["rare-event", "mcub"])
        if m.get("ccfs") and rng.random() < 0.8:
            o["ccf"] = 1
        opts.append(o)
    return {"model": m, "opts": opts, "env": A.env_plan(rng), "style": rng.choice([0, 1, 3]),
            "layouts": [layout.random_layout(rng) for _ in range(3)]}


def broken(m):
    """The model with its planted error."""
    b = m.get("break")
    if not b:
        return m
    m = M.clone(m)
    top = [x for x in m["basics"] if not x["path"]]
    if b == "dup-event":
        m["more_pieces"] = [["basics", {"n": "Zdup", "path": [], "e": ["c", 0.1]}], ["basics", {"n": "Zdup", "path": [], "e": ["c", 0.2]}]]
    elif b == "dup-house":
        m["more_pieces"] = [["houses", {"n": "Zdup", "path": [], "s": True}], ["basics", {"n": "Zdup", "path": [], "e": ["c", 0.2]}]]
    elif b == "dup-gate":
        m["fts"] = m["fts"] + ["Zft"]
        m["gates"].append({"n": "Zg", "path": [m["fts"][0]], "role": "public", "f": ["null", [["b", M.eid((m["basics"])[0]), 0]]]})
        m["gates"].append({"n": "Zg", "path": ["Zft"], "role": "public", "f": ["null", [["b", M.eid((m["basics"])[0]), 0]]]})
    elif b == "undefined":
        m["gates"].append({"n": "Zg", "path": [m["fts"][0]], "role": "public", "f": ["null", [["g", "Zmissing", 0]]]})
    else:
        m["fts"] = m["fts"] + ["Zft"]
        m["gates"].append({"n": "Zg1", "path": [m["fts"][0]], "role": "public", "f": ["null", [["g", "Zg2", 0]]]})
        m["gates"].append({"n": "Zg2", "path": ["Zft"], "role": "public", "f": ["null", [["g", "Zg1", 0]]]})
    return m


def go(ctx, case, m, lay):
    plan = dict(case["env"])
    ops = []
    if lay is None:
        files, mains = {"m.xml": M.to_xml(m, case["style"]) if not m.get("more_pieces") else M.assemble(
            m, M.pieces(m) + [tuple(x) for x in m["more_pieces"]], case["style"])}, ["m.xml"]
    else:
        files, mains = layout.deliver(m, lay, case["style"])
    split = False
    for k, o in enumerate(case["opts"]):
        out = ["-o", "r%d.xml" % k]
        if lay is None or not lay["project"]:
            ops.append("|".join(["cli", "scram"] + c01.cli_args(o) + mains + out))
            continue
        r = random.Random(lay["seed"] + 7 + k)
        base = "proj/" if lay["pdir"] else ""
        po, args = dict(o), []
        listed, direct = mains, []
        if lay["mixed"]:
            split = True
            # the command line overrides what the project says, and adds what it lacks
            for key in ("limit", "mission"):
                if key in o:
                    args += ["--limit-order", str(o[key])] if key == "limit" else ["--mission-time", repr(o[key])]
                    if r.random() < 0.5:
                        po[key] = 3 if key == "limit" else 17.0
                    else:
                        del po[key]
            if r.random() < 0.4:
                args.append("--" + o["algorithm"])
                if not o.get("prime"):
                    po["algorithm"] = r.choice([a for a in A.ALGOS])
                    if "approx" in o:
                        args.append("--" + o["approx"])
                        del po["approx"]
            for key, flag in (("prob", "--probability"), ("ccf", "--ccf")):
                if o.get(key) and r.random() < 0.3 and not (key == "prob" and o.get("imp")):
                    del po[key]
                    args.append(flag)
            if len(mains) > 1 and r.random() < 0.5:
                listed, direct = mains[:1], mains[1:]
        pf = base + "project%d.xml" % k
        files[pf] = layout.project_text(listed, layout.opts_xml(po), lay, base)
        ops.append("|".join(["cli", "scram", "--project", pf] + args + direct + out))
    plan["op"] = ops
    res = ctx.sim(plan, files)
    return res, files, mains, split


def norm(rep):
    """What must be equal between deliveries (numbers are compared with the reference)."""
    f = dict(rep["features"])
    return {"features": f, "products": {i: frozenset(frozenset((A.norm_lit(n), neg) for n, neg in p["lits"]) for p in s["products"])
                                        for i, s in rep["sop"].items()}, "ie": {i: sorted(n for n, _ in v["seqs"]) for i, v in rep["ie"].items()}}


def run(ctx, case):
    out = harness.Out()
    m = broken(case["model"])
    base = None
    for li, lay in enumerate([None] + case["layouts"]):
        res, files, mains, split = go(ctx, case, m, lay)
        if res.end != "exit 0":
            sig, err = A.abnormal(res)
            out.bad(sig, "delivery %d: the run ended with %s\n%s" % (li, res.end, err))
            return out
        ops = A.op_results(res)
        rcs = [ops.get(k) for k in range(len(case["opts"]))]
        err = res.files.get("stderr", b"").decode("utf-8", "replace")[-800:]
        reps = []
        for k, o in enumerate(case["opts"]):
            if rcs[k] != "rc=0":
                reps.append(None)
                continue
            try:
                reps.append(report.parse(res.files["r%d.xml" % k]))
            except (report.BadReport, KeyError) as e:
                out.bad("bad-report", "delivery %d, configuration %s: %s" % (li, A.opts_text(o), e))
                return out
        if base is None:
            base = (rcs, [r and norm(r) for r in reps])
            if m.get("break"):
                if any(r == "rc=0" for r in rcs):
                    out.bad("error-accepted", "the planted error %s was accepted: %s" % (m["break"], rcs))
            elif any(r != "rc=0" for r in rcs):
                out.skipped = "rejected"
                out.sample = err
        else:
            if rcs != base[0]:
                out.bad("delivery-decides", "delivery %d %s ends with %s, the single file with %s\n%s\nfiles: %s" % (li, lay, rcs, base[0], err, sorted(files)))
                continue
            for k, rep in enumerate(reps):
                if rep is not None and norm(rep) != base[1][k]:
                    a, b = base[1][k], norm(rep)
                    out.bad("delivery-changes-results", "delivery %d, configuration %s: %s" % (
                        li, A.opts_text(case["opts"][k]), [(x, a[x], b[x]) for x in a if a[x] != b[x]]))
        if m.get("break"):
            if all(r != "rc=0" for r in rcs):
                out.feat("rejected alike")
            continue
        if out.skipped:
            continue
        c = dict(case, model=m)
        c08.compare(out, c, reps, 12)
        c09.compare_ies(out, c, reps, 12)
        if lay is not None and any(reps):
            inc = [n for n in files if "inc" in n]
            if len(mains) > 1:
                out.feat("several files")
                out.nontrivial = True
            if inc:
                out.feat("includes")
                if any("xi:include" in files[n] for n in inc):
                    out.feat("nested includes")
            if lay["project"]:
                out.feat("project")
                if split:
                    out.feat("settings split between project and command line")
            if m.get("ets"):
                out.feat("event trees")
            if m.get("ccfs"):
                out.feat("common cause")
            if any(len(x["path"]) > 1 for x in m["gates"]):
                out.feat("components")
    out.key = str(sorted((g["n"], str(g["f"])) for g in m["gates"])) + str([x["seed"] for x in case["layouts"]])
    out.sample = out.sample or {"layouts": case["layouts"], "configurations": [A.opts_text(o) for o in case["opts"]]}
    return out


def shrink(case):
    for i in range(len(case["layouts"])):
        if len(case["layouts"]) > 1:
            yield dict(case, layouts=case["layouts"][:i] + case["layouts"][i + 1:])
        lay = case["layouts"][i]
        for k, v in (("project", 0), ("mixed", False), ("absolute", False), ("backslash", False), ("pdir", False), ("dirs", False), ("deep", 0), ("fallback", 0), ("linked", False), ("include", 0),
                     ("chunk", 0), ("files", 1), ("shuffle", False)):
            if lay.get(k, v) != v:
                c = dict(case, layouts=list(case["layouts"]))
                c["layouts"][i] = dict(lay, **{k: v})
                yield c
    yield from c07.shrink(case)
