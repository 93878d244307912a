"""Shared by the analysis checks: plans of analysis runs, and the comparison of reports with the reference."""
import re

from . import model as M
from . import ref, report
from .report import close

ALGOS = ("bdd", "zbdd", "mocus")


def env_plan(rng):
    """Benign environment: heap layout, dirty memory, clocks, partial reads and writes.  Must never change a result."""
    p = {"seed": rng.randrange(1, 1 << 30), "heap.mode": rng.choice([0, 0, 1, 1, 2, 3]), "heap.seed": rng.randrange(1, 1 << 30)}
    if rng.random() < 0.5:
        p["heap.fill_new"] = rng.choice([0, 85, 170, 255, 127])
        p["heap.fill_free"] = rng.choice([0, 85, 170, 221])
    if rng.random() < 0.4:
        p["heap.gap"] = rng.choice([2, 8, 64])
    if rng.random() < 0.3:
        p["io.short_reads"] = 1
    if rng.random() < 0.3:
        p["io.short_writes"] = 1
    p["clock.wall"] = rng.choice([0, 1, 951782400, 1500000000, 4102444799, 253402300700])
    if rng.random() < 0.3:
        p["clock.wall_step"] = rng.choice([0, 1000000000, 999999999999])
        p["clock.mono_step"] = rng.choice([0, 1, 5000000000])
    if rng.random() < 0.2:
        p["clock.jump_at"] = rng.randrange(1, 40)
        p["clock.jump"] = rng.choice([-86400, 3600, -1, 31536000])
    return p


def opts_text(o):
    parts = ["algorithm=" + o["algorithm"]]
    if o.get("approx") and o["approx"] != "none":
        parts.append("approx=" + o["approx"])
    elif o.get("approx") == "none" and o["algorithm"] != "bdd":
        parts.append("approx=none")
    if o.get("prime"):
        parts.append("prime")
    if "limit" in o:
        parts.append("limit=%d" % o["limit"])
    if "mission" in o:
        parts.append("mission=%r" % o["mission"])
    if o.get("step"):
        parts.append("step=%r" % o["step"])
    for k in ("prob", "imp", "unc", "ccf", "sil"):
        if o.get(k):
            parts.append(k)
    for k in ("seed", "trials", "quantiles", "bins"):
        if k in o:
            parts.append("%s=%d" % (k, o[k]))
    return ",".join(parts)


def plan_ops(case):
    """ops of a case: load once, then analyse and report every configuration."""
    files = case.get("files") or ["m.xml"]
    load = case.get("load") or case["opts"][0]
    ops = ["|".join(["load", "m", opts_text(load), case.get("extern", "")] + files)]
    for i, o in enumerate(case["opts"]):
        ops.append("analyze|a%d|m|%s" % (i, opts_text(o)))
        ops.append("report|a%d|r%d.xml" % (i, i))
    return ops


def op_results(res):
    r = {}
    for line in res.trace.split("\n"):
        if line.startswith("op ") and " -> " in line:
            a, _, b = line.partition(" -> ")
            r[int(a.split()[1])] = b
    return r


def abnormal(res):
    """A signature for a run that did not end by itself: the failed assertion when there is one."""
    err = res.files.get("stderr", b"").decode("utf-8", "replace")[-600:]
    m = re.search(r"/([\w.]+):\d+: .*?(\w+)\((?:[^()]|\([^()]*\))*\).*?: Assertion `(.*)' failed", err)
    if m:
        return "abnormal-end %s %s [%s]" % m.groups(), err
    m = re.search(r"terminate called.*?'([\w:]+)'", err)
    return "abnormal-end %s%s" % (res.end, " " + m.group(1) if m else ""), err


def acceptable(m):
    """Whether the analysed code has no reason to reject a generated model."""
    # A single factor leaves nothing to normalize an alpha-factor group with: rejected as an invalid expression.
    return not any(c["model"] == "alpha-factor" and len(c["factors"]) == 1 for c in m.get("ccfs") or [])


def run_case(ctx, case, out, files=None):
    """Runs the case; returns [report or None] per configuration, or None if it could not be loaded."""
    plan = dict(case["env"])
    plan["op"] = plan_ops(case)
    files = files or {"m.xml": M.to_xml(case["model"], case.get("style", 0))}
    res = ctx.sim(plan, files)
    if res.end != "exit 0":
        sig, err = abnormal(res)
        out.bad(sig, "the run ended with %s\n%s" % (res.end, err))
        return None
    ops = op_results(res)
    if not ops.get(0, "").startswith("ok"):
        if acceptable(case["model"]):
            out.bad("valid-model-rejected", "loading the model returned %s" % ops.get(0))
        out.skipped = "rejected"
        out.sample = ops.get(0)
        return None
    reps = []
    for i, o in enumerate(case["opts"]):
        a, b = ops.get(1 + 2 * i, "?"), ops.get(2 + 2 * i, "?")
        if a != "ok" or b != "ok":
            if "SettingsError" in a:
                reps.append(None)
                continue
            out.bad("analysis-failed", "analysis %s: %s / %s" % (opts_text(o), a, b))
            reps.append(None)
            continue
        try:
            reps.append(report.parse(res.files["r%d.xml" % i]))
        except (report.BadReport, KeyError) as e:
            out.bad("bad-report", "configuration %s: %s" % (opts_text(o), e))
            reps.append(None)
    return reps


def lits_to_ids(tb, x):
    return frozenset((tb.names[i], neg) for i, neg in x)


def norm_lit(name):
    """Event names of the reference in the report's notation."""
    if isinstance(name, tuple):
        return (name[0], name[1], tuple(sorted(name[2])))
    return name


def compare_products(out, where, sop, unit):
    want = {}
    for x in unit.products:
        want[frozenset((norm_lit(n), neg) for n, neg in lits_to_ids(unit.tb, x))] = x
    got = {}
    for p in sop["products"]:
        k = frozenset((norm_lit(n), neg) for n, neg in p["lits"])
        if len(k) != len(p["lits"]):
            out.bad("product-repeats-literal", "%s: product %s repeats a literal" % (where, p["lits"]))
        if k in got:
            out.bad("duplicate-product", "%s: product %s is listed twice" % (where, sorted(map(str, k))))
        got[k] = p
        if p["order"] != max(1, len(k)):
            out.bad("wrong-order", "%s: product %s has order %d" % (where, sorted(map(str, k)), p["order"]))
    if set(got) != set(want):
        miss = [sorted(map(str, x)) for x in want if x not in got][:4]
        extra = [sorted(map(str, x)) for x in got if x not in want][:4]
        out.bad("wrong-products", "%s: %d products reported, %d expected; missing %s; extra %s" % (
            where, len(got), len(want), miss, extra))
        return None
    if sop["n"] != len(sop["products"]):
        out.bad("wrong-count", "%s: products=%d but %d are listed" % (where, sop["n"], len(sop["products"])))
    dist = {}
    for x in unit.products:
        dist[max(1, len(x))] = dist.get(max(1, len(x)), 0) + 1
    wd = [dist.get(i, 0) for i in range(1, max(dist) + 1)] if dist else []
    if sop["dist"] != wd:
        out.bad("wrong-distribution", "%s: distribution %s, expected %s" % (where, sop["dist"], wd))
    evs = set(n for x in want for n, _ in x)
    if sop["events"] != len(evs):
        out.bad("wrong-event-count", "%s: basic-events=%d, expected %d" % (where, sop["events"], len(evs)))
    return got, want


def compare_probability(out, where, sop, unit, got, want):
    if sop["p"] is None or not close(sop["p"], unit.p_total, abs_=1e-13):
        out.bad("wrong-probability", "%s: probability %r, expected %.12g" % (where, sop["p"], unit.p_total))
    tot = sum(unit.product_p(x) for x in unit.products)
    for k, p in got.items():
        wp = unit.product_p(want[k])
        if p["p"] is None or not close(p["p"], wp, abs_=1e-300):
            out.bad("wrong-product-probability", "%s: product %s has probability %r, expected %.12g" % (
                where, sorted(map(str, k)), p["p"], wp))
        if tot > 0 and (p["c"] is None or not close(p["c"], wp / tot)):
            out.bad("wrong-contribution", "%s: product %s has contribution %r, expected %.12g" % (
                where, sorted(map(str, k)), p["c"], wp / tot))


FACTORS = ("occurrence", "probability", "MIF", "CIF", "DIF", "RAW", "RRW")


def compare_importance(out, where, imp, unit):
    want = {norm_lit(unit.tb.names[i]): r for i, r in unit.importance().items()}
    got = {norm_lit(k): v for k, v in imp.items()}
    if set(want) != set(got):
        out.bad("wrong-importance-events", "%s: importance for %s, expected for %s" % (where, sorted(map(str, got)), sorted(map(str, want))))
        return
    for n, w in want.items():
        g = got[n]
        for k in FACTORS:
            if k == "RRW" and w[k] is None:
                continue
            # The total is known up to rounding at the scale of 1: factors that divide by it get less exact as it shrinks.
            a, rel = 1e-10, 2e-5
            if k not in ("occurrence", "probability", "MIF") and unit.p_total:
                e = 1e-13 / abs(unit.p_total)
                a, rel = 1e-10 + e, 2e-5 + e
            if k == "RRW" and w[k]:
                rel += 1e-12 * abs(w[k]) / max(abs(unit.p_total), 1e-300)
            if not close(g[k], w[k], rel=rel, abs_=a):
                out.bad("wrong-" + k, "%s: %s of %s is %r, expected %.12g" % (where, k, n, g[k], w[k]))


def phases(m, mission):
    """(alignment, phase, time, house settings) of every analysis context."""
    if not m.get("aligns"):
        return [(None, None, mission, {})]
    out = []
    for a in m["aligns"]:
        for p in a["phases"]:
            out.append((a["n"], p["n"], mission * p["frac"], {h: s for h, s in p["set"]}))
    return out


def full_opts(o):
    """Fills in what the settings imply."""
    o = dict(o)
    if o["algorithm"] == "bdd":
        o["approx"] = o.get("approx") or "none"
    elif o.get("approx") in (None, ""):
        o["approx"] = "rare-event"
    o.setdefault("limit", 20)
    o.setdefault("mission", 8760.0)
    return o


def targets(m, o, max_vars=14):
    """(report id, kind, Unit) for everything that must be analysed under configuration o."""
    o = full_opts(o)
    out = []
    for al, ph, time, houses in phases(m, o["mission"]):
        w = ref.World(m, time, houses, ccf=o.get("ccf"), max_vars=max_vars)
        for ie in m.get("ies", []):
            if not ie.get("et"):
                continue
            for name, paths in ref.sequences(m, ie, time).items():
                kind, u = ref.sequence_unit(m, w, ie, paths, o)
                out.append(((ie["n"], name, al, ph), kind, u, w))
        for ft, gs in ref.tops(m):
            for g in gs:
                tb, f = w.constrain(["null", [["g", g, 0]]])
                out.append(((None, g, al, ph), "gate", ref.Unit(w, tb, f, o), w))
    return out
