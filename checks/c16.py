"""C16: external libraries are loaded only when allowed, and failures are errors."""
import json
import posixpath
import re

import numpy as np

from checks import c01, c06, c07
from simlib import analysis as A
from simlib import gen, harness, layout, model as M, ref, report

PROP = "C16"
CASES = {"quick": 20000, "thorough": 200000}
SECONDS = {"quick": 50, "thorough": 900}
LEVEL = "fault_injection"
RULE = ("a case is one seeded model with external libraries and functions (every interface of up to five int and double parameters, bare, relative, decorated and "
        "system paths, over one or several files, includes and projects), run by the command line tool and by library histories under a simulated loader: "
        "without permission (also after a permitted run in the same process, with --validate and --serialize), with permission, with libraries or "
        "symbols missing, with the n-th load or lookup failing, with wrong argument counts, undefined libraries, and with values no probability may have; "
        "every load and lookup is recorded and checked, and results are compared with a reference that knows the functions; "
        "non-trivial: a load was refused, failed or gave the values of the report")
NEED = {"refused": 1, "refused after a permitted run": 1, "refused with a project": 1, "refused validation": 1, "library missing": 1, "symbol missing": 1, "load fault": 1, "lookup fault": 1,
        "wrong argument count": 1, "undefined library": 1, "undefined function": 1, "improper value": 1, "values compared": 1, "decorated": 1, "system": 1, "several libraries": 1, "int result": 1,
        "int parameter": 1, "five parameters": 1, "no parameter": 1, "uncertain argument": 1, "time argument": 1, "several files": 1, "unused function": 1, "unused library": 1, "second analysis": 1, "phases": 1}
PATHS = ["libsim.so", "./libsim.so", "ext/libsim.so", "../libsim.so", "libsim", "sim", "ext/sim", "libsim.so.1", "\u00fcb/libsim.so"]


def make(rng, tier, index):
    dev = rng.random() < 0.25
    g = gen.Gen(rng, nvars=(2, 6), ngates=(1, 6), deviates=dev, params=rng.random() < 0.6, comps=rng.random() < 0.3, ccf=False, aligns=rng.random() < 0.15)
    m = g.model()
    libs, funcs = [], []
    for i in range(rng.choice([1, 1, 1, 2, 3])):
        p = rng.choice(PATHS)
        lib = {"n": "Lib%d" % i, "p": p if not i else p.replace("sim", "sim%d" % i), "salt": rng.randrange(4)}
        for k in ("system", "decorate"):
            if rng.random() < 0.4:
                lib[k] = rng.choice(["true", "true", "1", "false", "0"])
        libs.append(lib)
    for i in range(rng.randint(1, 4)):
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 5])
        f = {"n": "Fun%d" % i, "lib": rng.choice(libs)["n"], "ret": rng.choice(["double", "double", "int"]), "args": [rng.choice(["int", "double", "double"]) for _ in range(n)]}
        f["sym"] = "f_%s_%s" % (f["ret"][0], "".join(a[0] for a in f["args"]))
        funcs.append(f)
    m["libs"], m["funcs"] = libs, funcs
    targets = [b for b in m["basics"]] + [p for p in m["params"] if p.get("prob")]
    calls = rng.sample(targets, min(len(targets), rng.randint(1, 3)))
    for t in calls:
        f = rng.choice(funcs)
        args = []
        for a in f["args"]:
            if a == "int":
                args.append(rng.choice([["c", round(rng.uniform(0, 2.9), 2)], ["i", rng.randint(0, 2)], ["div", ["t"], ["c", 5000]], ["c", -0.75]]))
            else:
                x = rng.random()
                args.append(["c", round(rng.random(), 3)] if x < 0.4 else ["exp", ["c", 1e-5], ["t"]] if x < 0.6 else g.prob_expr({**m, "params": []}))
        e = ["extern", f["n"], args]
        t["e"] = ["div", e, ["c", 100]] if f["ret"] == "int" else e
    o = {"algorithm": rng.choice(A.ALGOS), "prob": 1}
    if dev:
        o.update(unc=1, trials=rng.choice([100, 2000]), quantiles=rng.choice([2, 10]), bins=rng.choice([3, 20]), seed=rng.randrange(1000))
    if rng.random() < 0.4:
        o["mission"] = rng.choice([1, 100, 8760])
    o2 = dict(o, mission=rng.choice([0, 1, 500, 8760, 20000]))
    lay = layout.random_layout(rng)
    lay.update(mixed=False, linked=False, backslash=False, fallback=0)
    if rng.random() < 0.4:
        lay.update(include=0, deep=0)
    mode = rng.choice(["ok", "ok", "ok", "deny", "deny", "missing", "symbol", "fault", "fault", "broken"])
    return {"model": m, "opt": o, "opt2": o2, "env": A.env_plan(rng), "style": rng.choice([0, 1]), "layout": lay, "mode": mode, "u": rng.random(), "v": rng.random(),
            "how": rng.choice(["cli", "cli", "cli", "history", "after", "validate", "serialize"] if mode == "deny" else ["cli", "cli", "history", "after", "validate"]),
            "broken": rng.choice(["count", "library", "function", "value"]), "op": rng.choice(["dlopen", "dlsym"])}


def truth(x):
    return x in ("true", "1")


def expected_paths(lib, files, mains):
    """Paths (relative to the working directory) a load may name, in the order they may be tried."""
    p = lib["p"]
    dirs = [""]
    if not truth(lib.get("system")) or "/" in p:
        mark = 'define-extern-library name="%s"' % lib["n"]
        owner = [n for n in mains if mark in files[n]]
        dirs = [posixpath.dirname(n) for n in (owner or mains)]
    out = []
    for d in dirs:
        full = posixpath.join(d, p)
        head, tail = posixpath.split(full)
        if truth(lib.get("decorate")):
            out.append(posixpath.normpath(posixpath.join(head, ("%s.so" if tail.startswith("lib") else "lib%s.so") % tail)))
        out.append(posixpath.normpath(full))
    return out


def run(ctx, case):
    out = harness.Out()
    m = json.loads(json.dumps(case["model"]))
    mode, how, lay, o = case["mode"], case["how"], case["layout"], case["opt"]
    u, v = case["u"], case["v"]
    ext = [e for e in m["basics"] + m["params"] if '"extern"' in json.dumps(e.get("e"))]

    def call(e):
        return e if e[0] == "extern" else e[1]
    if not ext:
        out.skipped = "no call"
        return out
    missing = None
    if mode == "symbol":
        f = m["funcs"][int(u * len(m["funcs"]))]
        f["sym"] = ["g_none", f["sym"] + "x", "F" + f["sym"][1:]][int(v * 3)]
    if mode == "broken":
        e = ext[int(u * len(ext))]
        if case["broken"] == "count":
            a = call(e["e"])[2]
            if v < 0.5 and a:
                a.pop()
            else:
                a.append(["c", 0.5])
        elif case["broken"] == "library":
            m["funcs"][int(u * len(m["funcs"]))]["lib"] = "Nowhere"
        elif case["broken"] == "function":
            call(e["e"])[1] = "Fun99"
        else:
            e["e"] = ["mul", e["e"], ["c", 1e4]] if v < 0.5 else ["sub", e["e"], ["c", 200]]
    files, mains = layout.deliver(m, lay, case["style"])
    if len(mains) > 1:
        out.feat("several files")
    paths = {lib["n"]: expected_paths(lib, files, mains) for lib in m["libs"]}
    known = []
    for i, lib in enumerate(m["libs"]):
        if mode == "missing" and i == int(u * len(m["libs"])):
            missing = lib["n"]
            continue
        ps = paths[lib["n"]]
        # the library exists under one of the names to try, for every directory it may be meant in
        step = 2 if truth(lib.get("decorate")) else 1
        ps = [p for k, p in enumerate(ps) if k % step == int(v * step)]
        known += ["/" + p.replace("../", "") if not truth(lib.get("system")) or "/" in lib["p"] else p for p in ps]
    known = [k + "#%d" % lib_salt(m, paths, k.lstrip("/")) for k in known]
    faults = []
    if mode == "fault":
        n = len(m["libs"]) if case["op"] == "dlopen" else len(m["funcs"])
        faults = ["%s|*|%d%s|fail|" % (case["op"], 1 + int(u * n), "+" if v < 0.5 else "")]
    plan = dict(case["env"])
    plan["dl.known"] = ",".join(known)
    if faults:
        plan["fault"] = faults
    allow = mode != "deny"
    args = ["scram"]
    if lay["project"] and how in ("cli", "validate"):
        base = "proj/" if lay["pdir"] else ""
        files[base + "project.xml"] = layout.project_text(mains, layout.opts_xml(o), lay, base)
        args += ["--project", base + "project.xml"]
        if not allow:
            out.feat("refused with a project")
    else:
        args += c01.cli_args(o) + mains
    args += ["-o", "out.xml"] + (["--allow-extern"] if allow else [])
    if how == "validate":
        args.append("--validate")
        if not allow:
            out.feat("refused validation")
    if how == "serialize":
        args.append("--serialize")
    load = "|".join(["load", "%s", A.opts_text(o), "%s"] + mains)
    if how in ("cli", "validate", "serialize"):
        plan["argv"] = args
    elif how == "history":
        plan["op"] = [load % ("m", "extern" if allow else ""), "analyze|a|m|" + A.opts_text(o), "report|a|out.xml"]
        if allow:  # a second analysis of the same model at another time
            plan["op"] += ["analyze|a2|m|" + A.opts_text(case["opt2"]), "report|a2|out2.xml"]
    elif allow:  # after a refusal
        plan["op"] = [load % ("x", ""), load % ("m", "extern"), "analyze|a|m|" + A.opts_text(o), "report|a|out.xml"]
    else:  # after a permitted run
        plan["op"] = [load % ("x", "extern"), "analyze|b|x|" + A.opts_text(o), load % ("m", ""), "analyze|a|m|" + A.opts_text(o), "report|a|out.xml"]
        if u < 0.5:
            plan["op"][1:1] = ["dropm|x"]
    res = ctx.sim(plan, files)
    err = res.files.get("stderr", b"").decode("utf-8", "replace")[-600:]
    if res.rc is None:
        sig, err = A.abnormal(res)
        out.bad(sig, "the run ended with %s\n%s" % (res.end, err))
        return out
    # what happened
    rep = res.files.get("out.xml")
    ops = A.op_results(res)
    if "op" in plan:
        n = [i for i, x in enumerate(plan["op"]) if x.startswith("load|m|")][0]
        done = ops.get(n, "?") == "ok" and ops.get(n + 1) == "ok" and ops.get(n + 2) == "ok"
        msg = ops.get(n, "?")
        if done != (rep is not None):
            out.bad("report-and-outcome", "operations %s, report %s" % (ops, "written" if rep else "missing"))
            return out
    else:
        done, msg = res.rc == 0, err
        if rep is not None and not done:
            out.bad("report-of-a-failed-run", "status %d, but a report was written\n%s" % (res.rc, err))
    opened, found = [], []
    phase = None
    for line in res.trace.split("\n"):
        if line.startswith("dlopen "):
            mm = re.match(r"dlopen (.*) = (ok|null)", line)
            opened.append((posixpath.normpath(mm.group(1).lstrip("/")) if "/" in mm.group(1) else mm.group(1), mm.group(2), phase))
        elif line.startswith("dlsym "):
            mm = re.match(r"dlsym (.*) = (ok|null)", line)
            found.append((mm.group(1), mm.group(2)))
        elif line.startswith("op "):
            phase = int(line.split()[1])
    allp = set(p for ps in paths.values() for p in ps)
    for p, r, _ in opened:
        if p not in allp:
            out.bad("loaded-something-else", "the run tried to load %s; libraries of the model: %s" % (p, sorted(allp)))
            return out
    # permission
    if not allow:
        extra = 0
        if how == "after":
            ref_plan = dict(plan)
            ref_plan["op"] = plan["op"][:1]
            extra = len([1 for x in ctx.sim(ref_plan, files).trace.split("\n") if x.startswith("dlopen ")])
            out.feat("refused after a permitted run")
        if len(opened) > extra:
            out.bad("loaded-without-permission", "the run loaded %s without permission" % opened[extra:])
        if done:
            out.bad("accepted-without-permission", "a model with external libraries was accepted without permission")
        if not done and not (err.strip() if "op" not in plan else msg):
            out.bad("no-message", "the run was refused without a message")
        out.feat("refused")
        out.nontrivial = True
        return out
    if how == "after" and allow:
        pass  # the refused load before must leave no trace: everything below is as for a single load
    ok_libs = [n for n, ps in paths.items() if any(p in ps and r == "ok" for p, r, _ in opened)]
    reason = None
    if missing:
        reason = "library missing"
    elif mode == "symbol":
        reason = "symbol missing"
    elif mode == "fault" and res.counters.get("fault_dl"):
        # a failed load may be made up for by the next name to try; a failed lookup may not
        if case["op"] == "dlsym" or len(ok_libs) < len(paths):
            reason = "lookup fault" if case["op"] == "dlsym" else "load fault"
    elif mode == "broken":
        reason = {"count": "wrong argument count", "library": "undefined library", "function": "undefined function", "value": "improper value"}[case["broken"]]
    values_ok = True
    if reason is None or reason == "improper value":
        try:
            env = ref.Env(m, A.full_opts(o)["mission"])
            vals = [ref.ev(b["e"], env) for b in m["basics"] if b.get("e")]
            if any(abs(x - 1) < 1e-9 or abs(x) < 1e-12 for x in vals) and not all(0 <= x <= 1 for x in vals):
                out.skipped = "at the limit"
                return out
            values_ok = all(0 <= x <= 1 for x in vals)
        except ref.Unsupported:
            out.skipped = "truncation at a step"
            return out
        if reason is None and not values_ok:
            reason = "improper value"
        elif reason and values_ok:
            out.skipped = "a proper value after all"
            return out
        if reason == "improper value":
            # only what some gate uses is validated as a probability
            used = json.dumps([x["f"] for x in m["gates"]])
            bad = [M.eid(b) for b, x in zip([b for b in m["basics"] if b.get("e")], vals) if not 0 <= x <= 1]
            if not any('"%s"' % n in used for n in bad):
                out.skipped = "improper value of an unused event"
                return out
    if reason:
        out.feat(reason)
        out.nontrivial = True
        if done:
            out.bad("accepted-in-spite-of-" + reason.replace(" ", "-"), "the run succeeded, though: %s (loads %s, lookups %s)" % (reason, opened, found))
        elif not msg.strip():
            out.bad("no-message", "failed without a message, though: %s" % reason)
        elif "op" not in plan and res.rc == 0:
            out.bad("status-0", "status 0")
        return out
    if not done:
        if "SettingsError" in msg:
            out.skipped = "rejected"
            return out
        out.bad("rejected", "every library and function was there, but the run failed: %s\n%s\nloads %s, lookups %s, known %s" % (msg[-500:], res.end, opened, found, known))
        return out
    if len(ok_libs) < len(paths):
        out.bad("library-not-loaded", "success without loading %s (loads %s)" % (sorted(set(paths) - set(ok_libs)), opened))
        return out
    want_syms = sorted(set(f["sym"] for f in m["funcs"]))
    if sorted(set(n for n, r in found if r == "ok")) != want_syms:
        out.bad("symbol-not-looked-up", "success with the lookups %s, functions need %s" % (found, want_syms))
        return out
    for lib in m["libs"]:
        if truth(lib.get("decorate")):
            out.feat("decorated")
        if truth(lib.get("system")):
            out.feat("system")
    if len(m["libs"]) > 1:
        out.feat("several libraries")
    if set(x["n"] for x in m["libs"]) - set(f["lib"] for f in m["funcs"]):
        out.feat("unused library")
    used = json.dumps([x["e"] for x in ext])
    if any('"%s"' % f["n"] not in used for f in m["funcs"]):
        out.feat("unused function")
    if how in ("validate", "serialize"):
        out.nontrivial = True
        return out
    both = [(o, rep)]
    if how == "history":
        env = ref.Env(m, A.full_opts(case["opt2"])["mission"])
        try:
            if all(0 <= ref.ev(b["e"], env) <= 1 for b in m["basics"] if b.get("e")):
                both.append((case["opt2"], res.files.get("out2.xml", b"")))
        except ref.Unsupported:
            pass
    for o, rep in both:
        try:
            r = report.parse(rep)
        except report.BadReport as e:
            out.bad("bad-report", str(e))
            return out
        if o is not case["opt"]:
            out.feat("second analysis")
        values(out, m, o, r, used, case["env"]["seed"])
        if out.skipped:
            return out
    out.key = used
    out.sample = {"libs": m["libs"], "funcs": m["funcs"], "calls": [[M.eid(x), x["e"]] for x in ext], "mode": mode}
    return out


def values(out, m, o, r, used, seed):
    where = A.opts_text(o)
    try:
        want = A.targets(m, o, 12)
        for i, kind, un, w in want:
            if kind == "expression" or i not in r["sop"]:
                continue
            x = A.compare_products(out, where, r["sop"][i], un)
            if x:
                A.compare_probability(out, where, r["sop"][i], un, *x)
                out.feat("values compared")
                out.nontrivial = True
                for f in m["funcs"]:
                    if '"%s"' % f["n"] in used:
                        if f["ret"] == "int":
                            out.feat("int result")
                        if "int" in f["args"]:
                            out.feat("int parameter")
                        if len(f["args"]) == 5:
                            out.feat("five parameters")
                        if not f["args"]:
                            out.feat("no parameter")
                if '["t"]' in used:
                    out.feat("time argument")
                if m.get("aligns"):
                    out.feat("phases")
            if o.get("unc") and i in r["measure"] and c06.consistent(out, where, o, r["measure"][i]):
                s = np.sort(ref.unit_samples(un, 20000, np.random.default_rng(seed)))
                c06.against(out, where, o, r["measure"][i], s, any("int" in [f["ret"]] + f["args"] for f in m["funcs"]))
                if any(k in used for k in ("uniform", "beta", "histogram")):
                    out.feat("uncertain argument")
    except ref.Unsupported:
        out.skipped = "too large"


def lib_salt(m, paths, p):
    for lib in m["libs"]:
        if p in [x.replace("../", "") for x in paths[lib["n"]]]:
            return lib["salt"]
    return 0


def shrink(case):
    for k in list(case["env"]):
        if k != "seed":
            c = dict(case)
            c["env"] = {x: v for x, v in case["env"].items() if x != k}
            yield c
    for k, v in (("files", 1), ("include", 0), ("deep", 0), ("shuffle", False), ("dirs", False), ("project", 0)):
        if case["layout"].get(k) != v:
            c = dict(case)
            c["layout"] = dict(case["layout"], **{k: v})
            yield c
    for mm in M.shrink_model(case["model"]):
        if len(mm.get("libs", [])) == len(case["model"]["libs"]) and len(mm.get("funcs", [])) == len(case["model"]["funcs"]):
            c = dict(case)
            c["model"] = mm
            yield c
