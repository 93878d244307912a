"""C14: running out of memory never yields a successful wrong result."""
from checks import c01, c03, c04, c07
from simlib import analysis as A
from simlib import gen, harness, layout, model as M, report

PROP = "C14"
CASES = {"quick": 2500, "thorough": 100000}
SECONDS = {"quick": 50, "thorough": 1500}
LEVEL = "fault_injection"
RULE = ("a case is one seeded model (trees, event trees, phases, common cause, uncertain parameters; one or several files, includes, project) analysed and "
        "reported, or serialized, by the command line tool first with enough memory and then 25-40 more times with failing allocations: one failure at a seeded "
        "position or call site (a chain of callers), failures from a position on, every n-th, or only large requests; a run that ends with status 0 must have written exactly the "
        "undisturbed report; non-trivial: at least ten runs met a failing allocation")
NEED = {"failed visibly": 1, "survived with the same result": 1, "single failure": 1, "failure at a call site": 1, "failures from a point on": 1, "periodic failures": 1, "large requests fail": 1,
        "serialized": 1, "standard output": 1, "event trees": 1, "uncertainty": 1, "includes": 1, "project": 1}


def make(rng, tier, index):
    kind = rng.choice(["tree", "tree", "ets", "ccf", "aligns", "unc", "unc", "big"])
    how = rng.choice(["file", "file", "stdout", "serialize"])
    if how == "serialize":
        kind = "tree"
    g = gen.Gen(rng, nvars=(8, 14) if kind == "big" else (2, 6), ngates=(8, 16) if kind == "big" else (1, 6), ets=kind == "ets", ccf=kind == "ccf",
                aligns=kind == "aligns", deviates=kind == "unc", multi_ft=rng.random() < 0.4, coherent=True if kind == "big" else rng.random() < 0.5,
                serial=how == "serialize")
    m = g.model()
    o = {"algorithm": rng.choice(A.ALGOS)}
    if rng.random() < 0.8:
        o["prob"] = 1
        if rng.random() < 0.4:
            o["imp"] = 1
        if kind == "unc":
            o["unc"], o["trials"] = 1, rng.choice([5, 50])
        if rng.random() < 0.2:
            o["mission"], o["step"], o["sil"] = 100, 40, 1
    if m.get("ccfs"):
        o["ccf"] = 1
    if kind == "big":
        o["limit"] = 4
    lay = layout.random_layout(rng)
    lay["mixed"] = False
    if how == "serialize":
        lay["project"] = 0
    faults = []
    for _ in range(rng.randint(25, 40)):
        k = rng.choice(["at", "at", "site", "site", "site", "site", "from", "site-from", "every", "big", "site-big"])
        faults.append([k, rng.random(), rng.random(), rng.choice(["any", "any", "end"])])
    return {"model": m, "opt": o, "env": A.env_plan(rng), "style": rng.choice([0, 1]), "layout": lay, "faults": faults, "how": how, "pad": 0,
            "indent": rng.random() < 0.7}


def run(ctx, case):
    out = harness.Out()
    files, mains, args = c03.files_of(case)
    dest = "out.xml"
    if case["how"] != "file":
        args = [a for a in args if a not in ("-o", "out.xml")]
        dest = "stdout"
        if case["how"] == "serialize":
            args.append("--serialize")

    def go(extra):
        plan = dict(case["env"])
        plan["argv"] = args
        plan.update(extra)
        return ctx.sim(plan, files)
    ref = go({"alloc.sites": 1})
    if ref.rc is None:
        sig, err = A.abnormal(ref)
        out.bad(sig, "the undisturbed run ended with %s\n%s" % (ref.end, err))
        return out
    if ref.rc != 0:
        out.skipped = "rejected"
        return out
    want = report.strip_volatile(ref.files.get(dest, b""))
    n = max(1, ref.counters["allocs"])
    hits = 0
    for k, u, v, zone in case["faults"]:
        pos = 1 + int((u if zone == "any" else 1 - u * u * 0.1) * n)
        site = ref.sites[min(len(ref.sites) - 1, int((u if zone == "any" else 1 - u * u * 0.3) * len(ref.sites)))]
        if k == "site":
            extra = {"alloc.fail_at": site[1] if v < 0.4 else site[0]}
        elif k == "site-from":
            extra = {"alloc.fail_from": site[1] if v < 0.4 else site[0]}
        elif k == "site-big":
            extra = {"alloc.fail_from": site[0], "alloc.fail_min": site[3]}
        elif k == "at":
            extra = {"alloc.fail_at": pos}
        elif k == "from":
            extra = {"alloc.fail_from": pos}
        elif k == "every":
            extra = {"alloc.fail_every": max(2, int(n * v) or 2)}
        else:
            extra = {"alloc.fail_from": pos, "alloc.fail_min": [100, 500, 1000, 4000, 8000, 60000][int(v * 6)]}
        res = go(extra)
        where = "%s of %d allocations" % (extra, n)
        if not res.counters.get("alloc_failed"):
            if res.rc != 0 or report.strip_volatile(res.files.get(dest, b"")) != want:
                out.bad("undisturbed-run-differs", "%s: no allocation failed, but the run ended with %s" % (where, res.end))
            continue
        hits += 1
        out.feat({"at": "single failure", "site": "failure at a call site", "from": "failures from a point on", "site-from": "failures from a point on",
                  "every": "periodic failures", "big": "large requests fail", "site-big": "large requests fail"}[k])
        if res.end.startswith(("timeout", "stall", "hang")) or res.rc in (91, 92, 97):
            out.bad("hang", "%s: the run ended with %s" % (where, res.end))
        elif res.rc == 0:
            got = report.strip_volatile(res.files.get(dest, b""))
            if got != want:
                out.bad("success-with-wrong-result " + c04.difference(want, got)[0], "%s: exit 0, but the result differs:\n%s" % (
                    where, c04.difference(want, got)[1] if got else "(nothing written)"))
            out.feat("survived with the same result")
        else:
            out.feat("failed visibly")
    out.nontrivial = hits >= 10
    if case["how"] == "serialize":
        out.feat("serialized")
    if case["how"] == "stdout":
        out.feat("standard output")
    m = case["model"]
    if m.get("ets"):
        out.feat("event trees")
    if "<measure" in want:
        out.feat("uncertainty")
    if any("inc" in x for x in files):
        out.feat("includes")
    if case["layout"]["project"]:
        out.feat("project")
    out.key = want + str(case["faults"])
    out.sample = {"options": A.opts_text(case["opt"]), "how": case["how"], "allocations": n, "call sites": len(ref.sites), "faults": case["faults"][:3]}
    return out


def shrink(case):
    n = len(case["faults"])
    if n > 1:
        yield dict(case, faults=case["faults"][:n // 2])
        yield dict(case, faults=case["faults"][n // 2:])
    for c in c03.shrink(case):
        yield c
