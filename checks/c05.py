"""C05: one analysis leaves no trace in the model or in later analyses."""
import copy

from checks import c01, c04, c07
from simlib import analysis as A
from simlib import gen, harness, model as M, report

PROP = "C05"
CASES = {"quick": 6000, "thorough": 100000}
SECONDS = {"quick": 45, "thorough": 1200}
LEVEL = "exploration"
RULE = ("a case is one seeded history of 6-16 operations in one simulated process over two or three models: loads, rejected loads, failing loads "
        "(read errors), analyses with changing settings, reports (some of them late, some hit by write errors), serializations, whole command "
        "lines, dropped objects; every successful result must equal the result of the same operation in a fresh process; non-trivial: a result "
        "was compared after at least three earlier operations")
NEED = {"results after a rejected load": 1, "late report": 1, "serialized after analysis": 1, "failed report": 1}

BAD = ["<opsa-mef><define-fault-tree name='X'><define-gate name='G'><and><basic-event name='a'/><gate name='Q'/></and></define-gate></define-fault-tree></opsa-mef>",
       "<opsa-mef><define-fault-tree name='X'><define-gate name='G'><or><gate name='G'/><basic-event name='B1'/></or></define-gate></define-fault-tree></opsa-mef>",
       "<opsa-mef><define-fault-tree name='FT1'><define-gate name='G1'>", "<scram/>", "",
       "<opsa-mef><model-data><define-basic-event name='B1'><float value='1.5'/></define-basic-event></model-data></opsa-mef>",
       "<opsa-mef><model-data><define-basic-event name='B1'><float value='0.5'/></define-basic-event><define-basic-event name='B1'/></model-data></opsa-mef>",
       "<opsa-mef><model-data><define-parameter name='P1'><parameter name='P2'/></define-parameter><define-parameter name='P2'><parameter name='P1'/></define-parameter></model-data></opsa-mef>",
       "<opsa-mef><define-event-tree name='E'><define-sequence name='S'/><initial-state><sequence name='T'/></initial-state></define-event-tree></opsa-mef>"]


def option(rng, m):
    o = {"algorithm": rng.choice(A.ALGOS)}
    if rng.random() < 0.8:
        o["prob"] = 1
        if rng.random() < 0.4:
            o["imp"] = 1
        if rng.random() < (0.7 if m.get("params") else 0.35):
            o["unc"], o["trials"], o["seed"] = 1, rng.choice([2, 10, 40]), rng.choice([1, 7, 372])
            if rng.random() < 0.4:
                o["quantiles"], o["bins"] = rng.choice([1, 3]), rng.choice([1, 4])
        if rng.random() < 0.3:
            o["mission"] = rng.choice([1, 50, 8760])
            if rng.random() < 0.6:
                o["step"] = o["mission"] / rng.choice([1, 2, 3])
                if rng.random() < 0.5:
                    o["sil"] = 1
    if m.get("ccfs") and rng.random() < 0.6:
        o["ccf"] = 1
    if rng.random() < 0.2:
        o["limit"] = rng.randint(1, 4)
    if o["algorithm"] == "bdd":
        if rng.random() < 0.2:
            o["prime"] = 1
    elif rng.random() < 0.7:
        o["approx"] = rng.choice(["rare-event", "mcub", "none"])
    return o


def make(rng, tier, index):
    models = []
    for i in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(["serial", "serial", "aligns", "ets", "ets", "unc", "ccf", "time"])
        more = dict(params=True, share=0.6, multi_top=True) if kind == "unc" and rng.random() < 0.6 else {}
        g = gen.Gen(rng, nvars=(2, 6), ngates=(1, 6), **more, serial=kind == "serial", ets=kind == "ets", aligns=kind in ("aligns", "ets") and rng.random() < 0.8,
                    deviates=kind in ("unc", "aligns") and rng.random() < 0.8, ccf=kind == "ccf", houses=True, time=rng.random() < 0.7)
        m = g.model()
        if kind == "unc" and rng.random() < 0.7:  # events of different targets share an uncertain parameter
            m.setdefault("params", []).append({"n": "PU", "path": [], "role": "public", "e": g.deviate(m)})
            for k, b in enumerate([b for b in m["basics"] if not b["path"]][:4]):
                b["e"] = rng.choice([["p", "PU"], ["mul", ["p", "PU"], ["c", 0.5]], ["p", "PU"], b["e"]]) or ["p", "PU"]
                m["gates"].append({"n": "GU%d" % k, "path": [m["fts"][0]], "role": "public", "f": ["null", [["b", M.eid(b), 0]]]})
        m["serial"] = kind == "serial"
        models.append(m)
    ops = []
    live, ans, k, opts_of = {}, {}, 0, {}
    n = rng.randint(6, 16)
    while len(ops) < n:
        x = rng.random()
        if x < 0.18 or not live:
            i = rng.randrange(len(models))
            if i in live:
                for a in [a for a in ans if ans[a] == i]:
                    del ans[a]
            live[i] = 1
            ops.append(["load", i, option(rng, models[i]) if rng.random() < 0.5 else {"algorithm": "bdd"}])
        elif x < 0.30:
            ops.append(["bad", rng.randrange(len(BAD))])
        elif x < 0.36:
            i = rng.randrange(len(models))
            ops.append(["flaky", i, rng.choice(["read", "open_r"]), rng.choice(["EIO", "ENOMEM", "EACCES", "EMFILE"])])
        elif x < 0.42:
            i = rng.randrange(len(models))
            ops.append(["cli", i, option(rng, models[i])])
        elif x < 0.50:
            ser = [i for i in live if models[i]["serial"]]
            if ser:
                ops.append(["serialize", rng.choice(ser)])
        elif x < 0.80 or not ans:
            i = rng.choice(sorted(live))
            o = option(rng, models[i])
            if rng.random() < 0.3 and opts_of.get(i):
                o = dict(opts_of[i])
            opts_of[i] = o
            ans[k] = i
            ops.append(["analyze", k, i, o])
            if rng.random() < 0.7:
                ops.append(["report", k])
            k += 1
        elif x < 0.92:
            ops.append(["report", rng.choice(sorted(ans))])
        elif x < 0.96:
            ops.append(["badreport", rng.choice(sorted(ans)), rng.choice(["write", "open_w", "close"]), rng.choice(["EIO", "ENOSPC"])])
        else:
            a = rng.choice(sorted(ans))
            del ans[a]
            ops.append(["drop", a])
    return {"models": models, "ops": ops, "env": A.env_plan(rng), "styles": [rng.choice([0, 1]) for _ in models]}


def fresh(ctx, case, cache, key, ops, files, names):
    if key not in cache:
        res = ctx.sim({"seed": 5, "clock.wall": 1500000000, "op": ops}, files)
        r = A.op_results(res)
        cache[key] = (res.end, [r.get(i, "?") for i in range(len(ops))], [report.strip_volatile(res.files.get(n, b"")) for n in names])
    return cache[key]


def run(ctx, case):
    out = harness.Out()
    models = case["models"]
    files = {"m%d.xml" % i: M.to_xml(m, case["styles"][i]) for i, m in enumerate(models)}
    for i, b in enumerate(BAD):
        files["bad%d.xml" % i] = b
    ops, plan = [], dict(case["env"])
    faults, opts, owner, checks = [], {}, {}, []
    # a flaky load reads its own copy of the file, and a failing report has its own name, so the fault meets nothing else
    for j, op in enumerate(case["ops"]):
        n = len(ops)
        if op[0] == "load":
            ops.append("load|m%d|%s||m%d.xml" % (op[1], A.opts_text(op[2]), op[1]))
            checks.append((j, n, "load", op[1], op[2], None))
        elif op[0] == "bad":
            ops.append("load|bad|algorithm=bdd||bad%d.xml" % op[1])
            checks.append((j, n, "bad", op[1], None, None))
        elif op[0] == "flaky":
            files["flaky%d.xml" % j] = files["m%d.xml" % op[1]]
            faults.append("%s|flaky%d.xml|1+|%s|" % (op[2], j, op[3]))
            ops.append("load|flaky|algorithm=bdd||flaky%d.xml" % j)
        elif op[0] == "cli":
            ops.append("|".join(["cli", "scram"] + c01.cli_args(op[2]) + c04.cli_more(op[2]) + ["m%d.xml" % op[1], "-o", "o%d.xml" % j]))
            checks.append((j, n, "cli", op[1], op[2], "o%d.xml" % j))
        elif op[0] == "serialize":
            ops.append("serialize|m%d|o%d.xml" % (op[1], j))
            checks.append((j, n, "serialize", op[1], None, "o%d.xml" % j))
        elif op[0] == "analyze":
            ops.append("analyze|a%d|m%d|%s" % (op[1], op[2], A.opts_text(op[3])))
            opts[op[1]], owner[op[1]] = op[3], op[2]
        elif op[0] == "report":
            ops.append("report|a%d|o%d.xml" % (op[1], j))
            checks.append((j, n, "report", owner[op[1]], opts[op[1]], "o%d.xml" % j))
        elif op[0] == "badreport":
            faults.append("%s|f%d.xml|1+|%s|" % (op[2], j, op[3]))
            ops.append("report|a%d|f%d.xml" % (op[1], j))
            out.feat("failed report")
        elif op[0] == "drop":
            ops.append("dropa|a%d" % op[1])
    # a reload replaces the model object: its analyses go first
    full, remap, alive = [], {}, {}
    for n, t in enumerate(ops):
        p = t.split("|")
        if p[0] == "load" and p[1].startswith("m"):
            for a in [a for a, m in alive.items() if m == p[1]]:
                full.append("dropa|" + a)
                del alive[a]
        if p[0] == "analyze":
            alive[p[1]] = p[2]
        if p[0] == "dropa":
            alive.pop(p[1], None)
        remap[n] = len(full)
        full.append(t)
    plan["op"] = full
    if faults:
        plan["fault"] = faults
    res = ctx.sim(plan, files)
    if res.end != "exit 0":
        sig, err = A.abnormal(res)
        out.bad(sig, "the run ended with %s\n%s" % (res.end, err))
        return out
    r = A.op_results(res)
    cache = {}
    seen_bad = analysed = 0
    reported = set()
    ok = {}
    for j, n, kind, i, o, name in checks:
        got = r.get(remap[n], "?")
        if kind == "bad":
            want = fresh(ctx, case, cache, ("bad", i), [ops[n]], files, [])[1][0]
            if got != want:
                out.bad("different-rejection", "operation %d (%s): %s, in a fresh process %s" % (j, ops[n], got, want))
            seen_bad = 1
            continue
        base = "m%d.xml" % i
        if kind == "load":
            want = fresh(ctx, case, cache, ("load", i, str(o)), ["load|m|%s||%s" % (A.opts_text(o), base)], files, [])[1][0]
            if got != want:
                out.bad("different-load", "operation %d (%s): %s, in a fresh process %s" % (j, ops[n], got, want))
            ok[i] = got == "ok"
            continue
        if kind == "cli":
            f = fresh(ctx, case, cache, ("cli", i, str(o)), ["|".join(ops[n].split("|")[:-1] + ["z.xml"])], files, ["z.xml"])
            want = f[1][0]
        elif kind == "serialize":
            f = fresh(ctx, case, cache, ("ser", i), ["load|m|algorithm=bdd||" + base, "serialize|m|z.xml"], files, ["z.xml"])
            want = f[1][1]
        else:
            f = fresh(ctx, case, cache, ("an", i, str(o)), ["load|m|algorithm=bdd||" + base, "analyze|a|m|" + A.opts_text(o), "report|a|z.xml"], files, ["z.xml"])
            want = f[1][2]
        if f[0] != "exit 0":
            out.bad("fresh-run-abnormal", "the fresh run of operation %d ended with %s" % (j, f[0]))
            continue
        if got != want:
            out.bad("different-outcome", "operation %d (%s): %s, in a fresh process %s" % (j, ops[n], got, want))
            continue
        doc = report.strip_volatile(res.files.get(name, b""))
        if n >= 3:
            out.nontrivial = True
        out.feat("results compared")
        if seen_bad:
            out.feat("results after a rejected load")
        if kind == "serialize" and any(x[0] == "analyze" and x[2] == i for x in case["ops"][:j]):
            out.feat("serialized after analysis")
        if kind == "report":
            if not (j and case["ops"][j - 1][0] == "analyze"):
                out.feat("late report")
        if doc != f[2][0]:
            what, text = c04.difference(f[2][0], doc)
            out.bad("different-%s %s" % (kind, what), "operation %d (%s %s): the result differs from that of a fresh process:\n%s" % (
                j, ops[n], A.opts_text(o) if o else "", text))
    if "z" and not cache:
        out.skipped = "nothing to compare"
    out.key = str(case["ops"]) + str([g["f"] for m in models for g in m["gates"]])
    out.sample = {"operations": ["|".join(str(y) for y in x) for x in case["ops"]]}
    return out


def shrink(case):
    ops = case["ops"]
    for k in range(len(ops) - 1, -1, -1):
        c = dict(case)
        c["ops"] = ops[:k] + ops[k + 1:]
        # keep only histories whose references resolve
        an, lv, good = set(), set(), True
        for op in c["ops"]:
            if op[0] == "load":
                lv.add(op[1])
            elif op[0] == "analyze":
                good &= op[2] in lv
                an.add(op[1])
            elif op[0] in ("report", "badreport", "drop"):
                good &= op[1] in an
                if op[0] == "drop":
                    an.discard(op[1])
            elif op[0] == "serialize":
                good &= op[1] in lv
        if good:
            yield c
    for k in list(case["env"]):
        if k != "seed":
            c = dict(case)
            c["env"] = {x: v for x, v in case["env"].items() if x != k}
            yield c
    for i, m in enumerate(case["models"]):
        for s in M.shrink_model(m):
            s["serial"] = m["serial"]
            c = dict(case)
            c["models"] = case["models"][:i] + [s] + case["models"][i + 1:]
            yield c
