"""C22: every report accounts for the analysis it belongs to."""
import calendar
import re
import time
import xml.etree.ElementTree as ET

from checks import c01, c07
from simlib import analysis as A
from simlib import gen, harness, model as M, ref, report

PROP = "C22"
CASES = {"quick": 15000, "thorough": 400000}
SECONDS = {"quick": 40, "thorough": 1200}
LEVEL = "exploration"
RULE = ("a case is one seeded model (trees, event trees, alignments, common cause, substitutions, uncertain parameters, elements nothing "
        "refers to) analysed under one to four seeded combinations of settings, one after the other in one process on the loaded model or "
        "as command lines, under seeded wall and monotonic clocks (standstill, steps of seconds, jumps back and forth, far dates, time "
        "zones); the information section and the set of results of every report are compared with what was asked for and with the simulated "
        "clocks; non-trivial: two or more reports with different settings, or two or more targets")
NEED = {"exact time stamp": 1, "wall clock jumped": 1, "slow analysis": 1, "command lines": 1, "unused elements": 1, "features": 1, "settings of an earlier report differ": 1,
        "constant target": 1, "adjusted probability": 1, "phases": 1, "several targets": 1}


def make(rng, tier, index):
    kind = rng.choice(["tree", "tree", "ets", "ets", "aligns", "unc", "ccf", "subs"])
    g = gen.Gen(rng, nvars=(1, 6), ngates=(1, 6), ets=kind == "ets", aligns=kind == "aligns" or rng.random() < 0.12,
                deviates=kind == "unc", ccf=kind == "ccf" or (kind != "subs" and rng.random() < 0.1), subs=kind == "subs", exchange=kind == "subs" and rng.random() < 0.5,
                houses=rng.random() < 0.6, params=rng.random() < 0.6, multi_ft=rng.random() < 0.5)
    m = g.model()
    loose = rng.random() < 0.5
    if loose:  # elements nothing refers to
        if rng.random() < 0.7:
            m["basics"].append({"n": "Loose", "path": [], "role": "public", "e": ["c", 0.25]})
        if rng.random() < 0.5:
            m["basics"].append({"n": "Loose2", "path": [m["fts"][0]], "role": rng.choice(["public", "private"]), "e": ["c", 0.5]})
        if rng.random() < 0.5:
            m["houses"].append({"n": "LooseH", "path": [], "role": "public", "s": rng.random() < 0.5})
        if rng.random() < 0.6:
            m["params"].append({"n": "LooseP", "path": [], "role": "public", "e": ["c", 3.5], "unit": None})
            if rng.random() < 0.5:
                m["params"].append({"n": "LooseQ", "path": [], "role": "public", "e": ["p", "LooseP"], "unit": None})
    opts = []
    for _ in range(rng.randint(1, 4)):
        o = {"algorithm": rng.choice(A.ALGOS)}
        if o["algorithm"] != "bdd":
            o["approx"] = rng.choice(["rare-event", "mcub", "none"])
        elif rng.random() < 0.2 and not m.get("ccfs"):
            o["prime"] = 1
        if rng.random() < 0.7:
            o["prob"] = 1
        if rng.random() < 0.4:
            o["imp"] = 1
        if rng.random() < (0.7 if kind == "unc" else 0.2):
            o.update(unc=1, trials=rng.choice([2, 3, 10, 50]), quantiles=rng.choice([1, 2, 5]), bins=rng.choice([1, 3, 4]))
        if rng.random() < 0.5:
            o["seed"] = rng.choice([0, 1, 372, 2147483647])
        if rng.random() < 0.6:
            o["limit"] = rng.choice([0, 1, 2, 3, 7, 20, 100])
        if rng.random() < 0.6:
            o["mission"] = rng.choice([0, 1, 0.5, 100, 1234.5, 8760, 87600])
        if rng.random() < 0.25 and o.get("prob"):
            o["step"] = rng.choice([1000.0, 2500.5, 9000.0]) if o.get("mission", 8760) > 2000 else 50.0
            if rng.random() < 0.6:
                o["sil"] = 1
        if rng.random() < (0.6 if m.get("ccfs") else 0.2):
            o["ccf"] = 1
        opts.append(o)
    opts = c07.inexact(rng, m, opts) or [{"algorithm": "zbdd", "approx": "mcub", "prob": 1}]
    env = A.env_plan(rng)
    env["clock.wall"] = rng.choice([951782400, 1500000000, 1709164799, 4102444799, rng.randrange(100000, 4102444800)])
    env["clock.wall_step"] = rng.choice([0, 0, 0, 1000, 1000000000, 7000000000])
    env["clock.mono_step"] = rng.choice([0, 1, 1000, 250000000, 5000000000])
    if rng.random() < 0.4:
        env["clock.jump_at"], env["clock.jump"] = rng.randrange(1, 30), rng.choice([-86400, 3600, -1, 1, 31536000])
    else:
        env.pop("clock.jump_at", None)
        env.pop("clock.jump", None)
    env["env"] = rng.sample(["TZ=UTC", "TZ=Pacific/Kiritimati", "TZ=XYZ-5:30", "LANG=de_DE.UTF-8", "LC_NUMERIC=de_DE"], rng.randint(0, 2))
    return {"model": m, "opts": opts, "env": env, "style": rng.choice([0, 0, 1, 3]), "cli": rng.random() < 0.35}


def references(m):
    """What something in the model refers to: kind -> names."""
    used = {k: set() for k in "bhgp"}
    used.update(rule=set(), et=set(), branch=set(), fe=set(), seq=set(), ie=set())

    def expr(e):
        if not isinstance(e, (list, tuple)) or not e:
            return
        if e[0] == "p":
            used["p"].add(e[1])
            return
        for x in e:
            if isinstance(x, (list, tuple)):
                expr(x)

    def formula(f):
        for a in f[-1]:
            if isinstance(a[0], str) and a[0] in ("b", "h", "g", "e") and isinstance(a[1], str):
                for k in "bhg" if a[0] == "e" else a[0]:
                    used[k].add(a[1])
            elif isinstance(a[0], (list, tuple)):
                formula(a[0])
            elif a[0] == "f":
                formula(a[1])

    def ins(i, et):
        k = i[0]
        if k == "cf":
            formula(i[1])
        elif k == "ce":
            expr(i[1])
        elif k == "rule":
            used["rule"].add(i[1])
        elif k == "link":
            used["et"].add(i[1])
        elif k == "block":
            for x in i[1]:
                ins(x, et)
        elif k == "if":
            expr(i[1])
            for x in i[2:]:
                if x:
                    ins(x, et)

    def branch(b, et):
        for i in b["ins"]:
            ins(i, et)
        t = b["t"]
        if t[0] == "fork":
            used["fe"].add((et, t[1]))
            for _, x in t[2]:
                branch(x, et)
        elif t[0] == "seq":
            used["seq"].add(t[1])
        elif t[0] == "br":
            used["branch"].add((et, t[1]))
    for b in m["basics"]:
        expr(b["e"])
    for p in m["params"]:
        expr(p["e"])
    for g in m["gates"]:
        formula(g["f"])
    for c in m.get("ccfs") or []:
        expr(c["dist"])
        expr(c["factors"])
    for e in m.get("ets") or []:
        branch(e["init"], e["n"])
        for b in e["branches"]:
            branch(b["b"], e["n"])
        for s in e["seqs"]:
            for i in s["ins"]:
                ins(i, e["n"])
    for r in m.get("rules") or []:
        for i in r["ins"]:
            ins(i, None)
    for i in m.get("ies") or []:
        if i.get("et"):
            used["ie"].add(i["n"])
            used["et"].add(i["et"])
    for s in m.get("subs") or []:
        formula(s["hyp"])
        for x in s.get("source") or []:
            used["b"].add(x)
        if isinstance(s["target"], str):
            used["b"].add(s["target"])
    # a house event that is only set, and a basic event that is only a member of a group, is evaluated nowhere
    return used


def unused(m):
    u = references(m)
    w = {}

    def add(head, names):
        if names:
            w[head] = sorted(names)
    add("Unused basic events", [M.eid(b) for b in m["basics"] if M.eid(b) not in u["b"]])
    add("Unused house events", [M.eid(b) for b in m["houses"] if M.eid(b) not in u["h"]])
    add("Unused parameters", [M.eid(b) for b in m["params"] if M.eid(b) not in u["p"]])
    add("Unused initiating events", [i["n"] for i in m.get("ies") or [] if i["n"] not in u["ie"]])
    add("Unused event trees", [e["n"] for e in m.get("ets") or [] if e["n"] not in u["et"]])
    add("Unused sequences", [s["n"] for e in m.get("ets") or [] for s in e["seqs"] if s["n"] not in u["seq"]])
    add("Unused rules", [r["n"] for r in m.get("rules") or [] if r["n"] not in u["rule"]])
    for e in m.get("ets") or []:
        add("In event tree %s, unused branches" % e["n"], [b["n"] for b in e["branches"] if (e["n"], b["n"]) not in u["branch"]])
        add("In event tree %s, unused functional events" % e["n"], [f for f in e["fes"] if (e["n"], f) not in u["fe"]])
    return w


def features(m):
    f = {"gates": len(m["gates"]), "basic-events": len(m["basics"]), "house-events": len(m["houses"]), "ccf-groups": len(m.get("ccfs") or []),
         "fault-trees": len(m["fts"]), "event-trees": len(m.get("ets") or []),
         "functional-events": sum(len(e["fes"]) for e in m.get("ets") or []), "sequences": sum(len(e["seqs"]) for e in m.get("ets") or []),
         "rules": len(m.get("rules") or []), "initiating-events": len(m.get("ies") or []), "substitutions": len(m.get("subs") or [])}
    return {k: v for k, v in f.items() if v}


def quantities(o):
    """(name, approximation, method, limits) of every quantity that was asked for."""
    alg = {"bdd": "Binary Decision Diagram", "zbdd": "Zero-Suppressed Binary Decision Diagram", "mocus": "MOCUS"}[o["algorithm"]]
    q = [("Prime Implicants" if o.get("prime") else "Minimal Cut Sets", None, alg, {"product-order": float(o["limit"])})]
    if o.get("ccf"):
        q.append(("Common Cause Failure Analysis", None, None, {}))
    if o.get("prob") or o.get("imp") or o.get("unc") or o.get("sil"):
        lim = {"mission-time": float(o["mission"])}
        if o.get("step"):
            lim["time-step"] = float(o["step"])
        q.append(("Probability Analysis", o["approx"], {"none": "Binary Decision Diagram", "rare-event": "Rare-Event Approximation",
                                                        "mcub": "MCUB Approximation"}[o["approx"]], lim))
    if o.get("sil"):
        q.append(("Safety Integrity Levels", None, None, {}))
    if o.get("imp"):
        q.append(("Importance Analysis", None, None, {}))
    if o.get("unc"):
        q.append(("Uncertainty Analysis", None, "Monte Carlo", {"number-of-trials": float(o.get("trials", 1000)), "seed": float(o["seed"])}))
    return q


def expected_ids(m, o):
    """{kind: ids} of the results that must be there."""
    tops, seqs, ies, exprs = [], [], [], []
    for al, ph, T, _ in A.phases(m, o["mission"]):
        for ie in m.get("ies") or []:
            if ie.get("et"):
                ies.append((ie["n"], al, ph))
                for n, paths in ref.sequences(m, ie, T).items():
                    by_expr = not any(p.formulas for p in paths) and any(p.exprs for p in paths)
                    (exprs if by_expr else seqs).append((ie["n"], n, al, ph))
        for ft, gs in ref.tops(m):
            tops += [(None, g, al, ph) for g in gs]
    return tops, seqs, ies, exprs


def run(ctx, case):
    out = harness.Out()
    m = case["model"]
    plan = dict(case["env"])
    files = {"m.xml": M.to_xml(m, case["style"])}
    if case["cli"]:
        out.feat("command lines")
        plan["op"] = ["|".join(["cli", "scram"] + c01.cli_args(o) + ["m.xml", "-o", "r%d.xml" % k]) for k, o in enumerate(case["opts"])]
    else:
        plan["op"] = A.plan_ops(case)
    res = ctx.sim(plan, files)
    if res.end != "exit 0":
        sig, err = A.abnormal(res)
        out.bad(sig, "the run ended with %s\n%s" % (res.end, err))
        return out
    ops = A.op_results(res)
    if not case["cli"] and not ops.get(0, "").startswith("ok"):
        if A.acceptable(m):
            out.bad("valid-model-rejected", "loading the model returned %s" % ops.get(0))
        out.skipped = "rejected"
        return out
    seen = []
    many = False
    spent = 0.0
    jump = case["env"].get("clock.jump") or 0
    jumped = "clock jump" in res.trace
    if jumped:
        out.feat("wall clock jumped")
    for k, o in enumerate(case["opts"]):
        where = A.opts_text(o)
        r = ops.get(k if case["cli"] else 1 + 2 * k, "?")
        if r not in ("ok", "rc=0"):
            if "SettingsError" in r or not A.acceptable(m):
                continue
            out.bad("analysis-failed", "%s: %s" % (where, r))
            continue
        data = res.files.get("r%d.xml" % k)
        try:
            rep = report.parse(data)
            root = ET.fromstring(data)
        except (report.BadReport, TypeError) as e:
            out.bad("bad-report", "%s: %s" % (where, e))
            continue
        fo = A.full_opts(o)
        if case["cli"] and o.get("approx") == "none" and o["algorithm"] != "bdd":
            fo["approx"] = "rare-event"  # there is no option for none
        fo.setdefault("seed", 0)
        if seen and quantities(fo) != seen[-1]:
            out.feat("settings of an earlier report differ")
        seen.append(quantities(fo))
        # how it was analysed
        got = []
        for n, ap, meth, lim in rep["quantities"]:
            try:
                got.append((n, ap, meth, {a: float(b) for a, b in lim.items()}))
            except (TypeError, ValueError):
                got.append((n, ap, meth, lim))
        if sorted(got, key=str) != sorted(seen[-1], key=str):
            out.bad("wrong-quantities", "%s: the report says %s, the settings are %s" % (where, got, seen[-1]))
        # what was analysed
        if rep["features"] != features(m):
            out.bad("wrong-features", "%s: features %s, the model has %s" % (where, rep["features"], features(m)))
        out.feat("features", len(rep["features"]))
        if rep["model"] != m.get("name"):
            out.bad("wrong-model-name", "%s: model %r, the name is %r" % (where, rep["model"], m.get("name")))
        w = {}
        for x in rep["warnings"]:
            head, _, names = x.rpartition(": ")
            if head in w:
                out.bad("repeated-warning", "%s: %r" % (where, x))
            w[head] = sorted(names.split(" "))
        want = unused(m)
        if w != want:
            out.bad("wrong-warnings", "%s: warnings %s, expected %s" % (where, {a: b for a, b in w.items() if want.get(a) != b},
                                                                        {a: b for a, b in want.items() if w.get(a) != b}))
        out.feat("unused elements", sum(map(len, want.values())))
        # when
        stamp = root.findtext("information/time") or ""
        t0 = case["env"]["clock.wall"]
        if not re.match(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d$", stamp):
            out.bad("bad-time-stamp", "%s: time %r" % (where, stamp))
        else:
            t = calendar.timegm(time.strptime(stamp, "%Y-%m-%dT%H:%M:%S"))
            reads = res.counters.get("clock_reads", 0)
            step = case["env"]["clock.wall_step"] / 1e9
            late = t0 + reads * step + 1
            if step == 0:
                out.feat("exact time stamp")
                if t not in (t0, t0 + jump if jumped else t0):
                    out.bad("wrong-time-stamp", "%s: time %s (%d), the clock stands at %d%s" % (where, stamp, t, t0, " then %d" % (t0 + jump) if jumped else ""))
            elif not (t0 <= t <= late or jumped and t0 + jump <= t <= late + jump):
                out.bad("wrong-time-stamp", "%s: time %s (%d), the clock ran from %d to %d, jump %d" % (where, stamp, t, t0, late, jump))
        # results
        tops, seqs, ies, exprs = expected_ids(m, fo)
        prob = bool(fo.get("prob") or fo.get("imp") or fo.get("unc") or fo.get("sil"))
        sop = set(rep["sop"])
        fts = set(tops) | set(seqs)
        exprs = set(exprs)  # sequences given by expressions have no products
        if len(fts) > 1:
            many = True
            out.feat("several targets")
        if m.get("aligns"):
            out.feat("phases")
        for tag, have, must in (("sum-of-products", sop, fts), ("measure", set(rep["measure"]), fts | exprs if fo.get("unc") else set()),
                                ("curve", set(rep["curve"]), fts | exprs if fo.get("step") else set()),
                                ("safety-integrity-levels", set(rep["sil"]), fts | exprs if fo.get("sil") else set()),
                                ("initiating-event", set(rep["ie"]), set(ies) if prob else set())):
            if have != must:
                out.bad("wrong-results", "%s: <%s> for %s, expected for %s" % (where, tag, sorted(map(str, have)), sorted(map(str, must))))
            n = sum(1 for x, _ in rep["order"] if x == tag)
            if n != len(have):
                out.bad("repeated-results", "%s: %d elements <%s> for %d targets" % (where, n, tag, len(have)))
        imp = set(rep["imp"])
        mustimp = set(i for i in fts if i in rep["sop"] and rep["sop"][i]["events"]) if fo.get("imp") else set()
        if imp - fts or mustimp - imp or (not fo.get("imp") and imp):
            out.bad("wrong-results", "%s: <importance> for %s, expected for %s" % (where, sorted(map(str, imp)), sorted(map(str, mustimp))))
        for i, s in rep["sop"].items():
            if (s["p"] is not None) != prob:
                out.bad("wrong-results", "%s: %s %s a probability" % (where, i, "lacks" if prob else "has"))
            words = []
            if not s["products"]:
                words.append("The set is NULL/Empty.")
            elif len(s["products"]) == 1 and not s["products"][0]["lits"]:
                words.append("The set is UNITY/Base.")
            if words:
                out.feat("constant target")
            allowed = ["; ".join(words)]
            if s["p"] is not None and s["p"] == 1 and fo["approx"] != "none":
                cut = "; ".join(words + ["Probability may have been adjusted to 1."])
                # the printed value is rounded: only a product of no events and a large sum are exactly 1
                if words or fo["approx"] == "rare-event" and sum(p["p"] or 0 for p in s["products"]) > 1.0001:
                    out.feat("adjusted probability")
                    allowed = [cut]
                else:
                    allowed.append(cut)
            if (s["warning"] or "") not in allowed:
                out.bad("wrong-warning", "%s: %s has the warning %r, expected %r" % (where, i, s["warning"], allowed))
        # how long
        if sorted(map(str, rep["perf"])) != sorted(map(str, fts | exprs)):
            out.bad("wrong-performance", "%s: calculation times for %s, expected for %s" % (where, rep["perf"], sorted(map(str, fts | exprs))))
        kinds = ["products"] + ["probability"] * prob + ["importance"] * bool(fo.get("imp")) + ["uncertainty"] * bool(fo.get("unc"))
        for c in root.findall("information/performance/calculation-time"):
            must = [x for x in kinds if x not in ("products", "importance")] if report._id(c) in exprs else kinds
            if sorted(x.tag for x in c) != sorted(must):
                out.bad("wrong-performance", "%s: calculation times of %s, expected of %s" % (where, [x.tag for x in c], must))
            for x in c:
                v = float(x.text)
                spent += v
                if not v >= 0:
                    out.bad("wrong-time", "%s: %s took %s s" % (where, x.tag, x.text))
                mono = case["env"]["clock.mono_step"] / 1e9
                if (mono > 0) != (v > 0):
                    out.bad("wrong-time", "%s: %s took %s s when every look at the clock takes %g s" % (where, x.tag, x.text, mono))
                if v > 1:
                    out.feat("slow analysis")
    if spent > res.sim_ns / 1e9 * (1 + 1e-4) + 1e-9:
        out.bad("wrong-time", "the calculation times add up to %g s, the whole run took %g s" % (spent, res.sim_ns / 1e9))
    out.nontrivial = many or any(a != b for a, b in zip(seen, seen[1:]))
    if seen:
        out.sample = {"quantities": [str(q) for q in seen], "warnings": unused(m), "features": features(m), "clocks": {
            k: v for k, v in case["env"].items() if k.startswith("clock")}}
    return out


shrink = c07.shrink
