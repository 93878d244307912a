"""C04: same model, settings and seed always give the same results."""
from checks import c01, c07
from simlib import analysis as A
from simlib import gen, harness, model as M, report

PROP = "C04"
CASES = {"quick": 4000, "thorough": 120000}
SECONDS = {"quick": 45, "thorough": 1200}
LEVEL = "exploration"
RULE = ("a case is one seeded model (trees, event trees, alignments, common cause, substitutions, uncertain parameters) and one command line "
        "or library history, run four times in environments that differ in heap placement and reuse, contents of fresh and freed memory, "
        "wall and monotonic clocks (standstill, jumps, far dates), partial reads and writes, environment variables and the spelling of "
        "the input path; the reports must be the same bytes but for time stamp and calculation times; non-trivial: the report has two or more "
        "products or event-tree results, and the environments placed objects differently")
NEED = {"uncertainty": 1, "event trees": 1, "alignments": 1, "default seed": 1, "common cause": 1}
ENVS = ["TZ=UTC", "TZ=Pacific/Kiritimati", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_NUMERIC=de_DE", "TMPDIR=/nonexistent", "HOME=/x",
        "MALLOC_PERTURB_=17", "XML_CATALOG_FILES=none", "PYTHONHASHSEED=3", "COLUMNS=20", "POSIXLY_CORRECT=1"]


def make(rng, tier, index):
    kind = rng.choice(["tree", "tree", "ets", "aligns", "unc", "unc", "ccf", "subs", "big"])
    g = gen.Gen(rng, nvars=(8, 16) if kind == "big" else (2, 8), ngates=(6, 20) if kind == "big" else (1, 9), ets=kind == "ets",
                aligns=kind == "aligns" or rng.random() < 0.15, deviates=kind == "unc" or rng.random() < 0.15, ccf=kind == "ccf",
                subs=kind == "subs", houses=rng.random() < 0.5, coherent=True if kind == "big" else rng.random() < 0.4)
    m = g.model()
    opts = []
    for _ in range(rng.choice([1, 1, 2])):
        o = {"algorithm": rng.choice(A.ALGOS)}
        if rng.random() < 0.8:
            o["prob"] = 1
        if rng.random() < 0.4:
            o["imp"] = 1
        if kind == "unc" or rng.random() < 0.2:
            o["unc"] = 1
            o["trials"] = rng.choice([2, 5, 20, 100])
            if rng.random() < 0.5:
                o["quantiles"] = rng.choice([1, 2, 7])
                o["bins"] = rng.choice([1, 2, 7])
        if rng.random() < 0.5:
            o["seed"] = rng.choice([1, 2, 372, 2147483647])
        if rng.random() < 0.2:
            o["mission"] = rng.choice([1, 100, 8760])
            o["step"] = o["mission"] / rng.choice([2, 3])
            o["prob"] = 1
            if rng.random() < 0.6:
                o["sil"] = 1
        if rng.random() < 0.2:
            o["limit"] = rng.randint(0, 5)
        if kind == "ccf":
            o["ccf"] = 1
        if o["algorithm"] == "bdd" and rng.random() < 0.2 and kind != "big":
            o["prime"] = 1
        if o["algorithm"] != "bdd" and rng.random() < 0.5:
            o["approx"] = rng.choice(["rare-event", "mcub"])
        opts.append(o)
    envs = [dict({"seed": 1, "heap.mode": 0, "clock.wall": 1500000000})]
    for _ in range(3):
        e = A.env_plan(rng)
        e["heap.mode"] = rng.choice([1, 2, 3, 1, 0])
        e["env"] = rng.sample(ENVS, rng.randint(0, 4))
        envs.append(e)
    return {"model": m, "opts": opts, "envs": envs, "style": rng.choice([0, 0, 1, 3]), "cli": rng.random() < 0.5,
            "paths": [rng.choice(["m.xml", "m.xml", "./m.xml", "d/../m.xml", ".//m.xml"]) for _ in envs]}


def go(ctx, case, i):
    plan = dict(case["envs"][i])
    path = case["paths"][i]
    files = {"m.xml": M.to_xml(case["model"], case["style"]), "d/x": b""}
    if case["cli"]:
        plan["op"] = ["|".join(["cli", "scram"] + c01.cli_args(o) + cli_more(o) + [path, "-o", "r%d.xml" % k]) for k, o in enumerate(case["opts"])]
    else:
        plan["op"] = A.plan_ops({"opts": case["opts"], "files": [path]})
    return ctx.sim(plan, files)


def cli_more(o):
    a = []
    if "quantiles" in o:
        a += ["--num-quantiles", str(o["quantiles"]), "--num-bins", str(o["bins"])]
    return a


def outcome(case, res):
    ops = A.op_results(res)
    docs = [report.strip_volatile(res.files.get("r%d.xml" % k, b"")) for k in range(len(case["opts"]))]
    return res.end, [ops[k].split("File:")[0] for k in sorted(ops)], docs


def run(ctx, case):
    out = harness.Out()
    base = None
    layouts = set()
    for i in range(len(case["envs"])):
        res = go(ctx, case, i)
        if res.end != "exit 0":
            sig, err = A.abnormal(res)
            out.bad(sig, "the run ended with %s\n%s" % (res.end, err))
            return out
        o = outcome(case, res)
        layouts.add(str(case["envs"][i].get("heap.mode")) + str(case["envs"][i].get("heap.seed")))
        if base is None:
            base = o
            continue
        if o[1] != base[1]:
            out.bad("different-outcome", "the same run ends differently in environment %d: %s / %s" % (i, base[1], o[1]))
        for k, (a, b) in enumerate(zip(base[2], o[2])):
            if a != b:
                what, text = difference(a, b)
                out.bad("different-report " + what, "environment %d %s, configuration %s: the report differs:\n%s" % (
                    i, case["envs"][i], A.opts_text(case["opts"][k]), text))
    docs = "".join(base[2])
    out.nontrivial = docs.count("<product ") >= 2 or docs.count("<sequence ") >= 2
    m = case["model"]
    if "<measure" in docs:
        out.feat("uncertainty")
        if any(o.get("unc") and "seed" not in o for o in case["opts"]):
            out.feat("default seed")
    if m.get("ets"):
        out.feat("event trees")
    if m.get("aligns"):
        out.feat("alignments")
    if "ccf-event" in docs:
        out.feat("common cause")
    if not any(base[2]):
        out.skipped = "rejected"
    out.key = docs
    out.sample = {"configurations": [A.opts_text(o) for o in case["opts"]], "environments": case["envs"][1:], "report bytes": len(docs)}
    return out


def difference(a, b):
    la, lb = a.split("\n"), b.split("\n")
    if sorted(la) == sorted(lb):
        kind = "order"
    else:
        kind = "content"
    for x, y in zip(la, lb):
        if x != y:
            return kind, "- %s\n+ %s" % (x.strip(), y.strip())
    return kind, "one is longer"


def shrink(case):
    if len(case["envs"]) > 2:
        for i in range(1, len(case["envs"])):
            c = dict(case)
            c["envs"] = [case["envs"][0], case["envs"][i]]
            c["paths"] = [case["paths"][0], case["paths"][i]]
            yield c
    for i in range(len(case["opts"])):
        if len(case["opts"]) > 1:
            c = dict(case)
            c["opts"] = case["opts"][:i] + case["opts"][i + 1:]
            yield c
    for i, e in enumerate(case["envs"]):
        for k in list(e):
            if k not in ("seed", "heap.mode"):
                c = dict(case)
                c["envs"] = list(case["envs"])
                c["envs"][i] = {x: v for x, v in e.items() if x != k}
                yield c
    for m in M.shrink_model(case["model"]):
        c = dict(case)
        c["model"] = m
        yield c
