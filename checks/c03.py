"""C03: faults while reading inputs never silently change an analysis."""
import random

from checks import c01, c04, c07
from simlib import analysis as A
from simlib import gen, harness, layout, model as M, report

PROP = "C03"
CASES = {"quick": 4500, "thorough": 150000}
SECONDS = {"quick": 50, "thorough": 1200}
LEVEL = "fault_injection"
RULE = ("a case is one seeded model delivered over one to four files, with nested includes and through a project file, analysed by the command line "
        "tool first without disturbance, then 5-9 more times with a read-side fault at a seeded place (open failure or error, early end at a byte offset, "
        "error at the n-th read, partial reads, failing stat or close; of a main file, included file, project file or schema; once or for good); "
        "the faulted run must fail visibly or give the undisturbed report; non-trivial: a fault fired and the run was decided by it")
NEED = {"failed visibly": 1, "same report": 1, "fault in an included file": 1, "fault in the project": 1, "fault in a schema": 1, "fault in a main file": 1,
        "early end": 1, "read error": 1, "open error": 1, "partial reads": 1}

ERR_R = ["EIO", "ENOMEM", "EISDIR", "EBADF", "ESTALE"]
ERR_O = ["EACCES", "EMFILE", "ENFILE", "EIO", "ENOENT", "ENOMEM", "ELOOP", "ENAMETOOLONG"]


def make(rng, tier, index):
    kind = rng.choice(["tree", "tree", "ets", "ccf", "aligns", "big"])
    g = gen.Gen(rng, nvars=(8, 16) if kind == "big" else (2, 6), ngates=(8, 20) if kind == "big" else (1, 6), ets=kind == "ets", ccf=kind == "ccf",
                aligns=kind == "aligns", multi_ft=rng.random() < 0.6, coherent=True if kind == "big" else rng.random() < 0.5)
    m = g.model()
    o = {"algorithm": rng.choice(A.ALGOS)}
    if rng.random() < 0.7:
        o["prob"] = 1
        if rng.random() < 0.4:
            o["imp"] = 1
    if m.get("ccfs"):
        o["ccf"] = 1
    if kind == "big":
        o["limit"] = 4
    lay = layout.random_layout(rng)
    lay["mixed"] = False
    faults = []
    for _ in range(rng.randint(5, 9)):
        faults.append({"what": rng.choice(["main", "main", "include", "include", "project"] * 5 + ["schema"]), "u": rng.random(), "v": rng.random(),
                       "kind": rng.choice(["open", "read", "read", "eof", "trunc", "trunc", "trunc", "close", "stat", "short"]),
                       "err": [rng.choice(ERR_R), rng.choice(ERR_O)], "sticky": rng.random() < 0.5, "short": rng.random() < 0.5,
                       "tail": rng.random() < 0.3})
    return {"model": m, "opt": o, "env": A.env_plan(rng), "style": rng.choice([0, 1]), "layout": lay, "faults": faults,
            "pad": rng.choice([0, 0, 0, 5000, 20000]), "indent": rng.random() < 0.7}


def files_of(case):
    files, mains = layout.deliver(case["model"], case["layout"], case["style"])
    if case["pad"]:  # several reads per file
        for n in [x for x in files if isinstance(files[x], str) and x.endswith(".xml")]:
            files[n] = files[n].replace("?>\n", "?>\n<!--" + "x" * case["pad"] + "-->\n", 1) + "<!--" + "y" * (case["pad"] // 3) + "-->\n"
    lay, o = case["layout"], case["opt"]
    args = ["scram"]
    if lay["project"]:
        base = "proj/" if lay["pdir"] else ""
        files[base + "project.xml"] = layout.project_text(mains, layout.opts_xml(o), lay, base)
        args += ["--project", base + "project.xml"]
    else:
        args += c01.cli_args(o) + mains
    args += ["-o", "out.xml"] + ([] if case["indent"] else ["--no-indent"])
    return files, mains, args


def kinds(files, mains):
    r = {"main": mains, "include": [n for n in files if "inc" in n.split("/")[-1]], "project": [n for n in files if n.endswith("project.xml")],
         "schema": ["input.rng", "project.rng"]}
    return r


def run(ctx, case):
    out = harness.Out()
    files, mains, args = files_of(case)
    ks = kinds(files, mains)
    base = {}

    def go(extra, cold):
        plan = dict(case["env"])
        plan["argv"] = args
        plan.update(extra)
        return ctx.sim(plan, files, warm=not cold)
    ref = go({}, False)
    if ref.rc is None:
        sig, err = A.abnormal(ref)
        out.bad(sig, "the undisturbed run ended with %s\n%s" % (ref.end, err))
        return out
    if ref.rc != 0:
        out.skipped = "rejected"
        return out
    want = report.strip_volatile(ref.files.get("out.xml", b""))
    reads = {}
    for line in ref.trace.split("\n"):
        w = line.split()
        if w[:1] == ["read"] and len(w) > 2:
            reads[w[1]] = reads.get(w[1], 0) + 1
    used_kinds = set()
    for f in case["faults"]:
        names = ks[f["what"]] or ks["main"]
        what = f["what"] if ks[f["what"]] else "main"
        if what == "schema" and not ks["project"]:
            names = names[:1]
        name = names[int(f["u"] * len(names)) % len(names)]
        cold = what == "schema"
        extra = {}
        nth = 1
        if f["kind"] in ("read", "eof"):
            n = reads.get(name, 2)
            if what == "schema":
                n = 8
            elif f["short"]:
                extra["io.short_reads"] = 1
                n *= 3
            nth = 1 + int(f["v"] * n)
        plus = "+" if f["sticky"] else ""
        k = f["kind"]
        if k == "open":
            fl = "open_r|%s|%d%s|%s|" % (name, 1, plus, f["err"][1])
        elif k == "read":
            fl = "read|%s|%d%s|%s|" % (name, nth, plus, f["err"][0])
        elif k == "eof":
            fl = "read|%s|%d%s|eof|" % (name, nth, plus)
        elif k == "trunc":
            size = len(files[name].encode()) if name in files else 60000
            at = size - 1 - int(f["v"] * 40) if f["tail"] else int(f["v"] * size)
            fl = "truncate_r|%s|1|x|%d" % (name, max(0, at))
        elif k == "close":
            fl = "close|%s|1%s|%s|" % (name, plus, f["err"][0])
        elif k == "stat":
            fl = "stat|%s|%d%s|%s|" % (name, 1 + int(f["v"] * 3), plus, f["err"][1])
        else:
            fl = None
            extra["io.short_reads"] = 1
        if fl:
            extra["fault"] = [fl]
        res = go(extra, cold)
        fired = any(res.counters.get(c) for c in ("fault_open", "fault_read", "fault_close", "fault_stat", "early_eof", "short_read"))
        where = "fault %s (%s)" % (fl or "partial reads", what)
        err = res.files.get("stderr", b"").decode("utf-8", "replace")[-500:]
        if not fired:
            out.feat("fault not reached")
            if res.rc != 0 or report.strip_volatile(res.files.get("out.xml", b"")) != want:
                out.bad("undisturbed-run-differs", "%s did not fire, but the run ended with %s\n%s" % (where, res.end, err))
            continue
        out.feat("fault in " + {"main": "a main file", "include": "an included file", "project": "the project", "schema": "a schema"}[what])
        out.feat({"open": "open error", "read": "read error", "eof": "early end", "trunc": "early end", "close": "close error", "stat": "stat error",
                  "short": "partial reads"}[k])
        if res.rc is None:
            sig, err = A.abnormal(res)
            out.bad(sig, "%s: the run ended with %s\n%s" % (where, res.end, err))
        elif res.rc == 0:
            got = report.strip_volatile(res.files.get("out.xml", b""))
            if got != want:
                what2, text = c04.difference(want, got)
                out.bad("silent-change " + what2, "%s: exit 0 with another report:\n%s" % (where, text))
            out.feat("same report")
        else:
            if k == "short":
                out.bad("partial-reads-fail", "partial reads alone end the run with %s\n%s" % (res.end, err))
            if not err.strip():
                out.bad("no-error-message", "%s: exit %d without an error message" % (where, res.rc))
            out.feat("failed visibly")
            used_kinds.add((what, k))
        if res.counters.get("short_read") and k != "short" and not any(res.counters.get(c) for c in ("fault_open", "fault_read", "fault_close", "fault_stat", "early_eof")):
            if res.rc != 0:
                out.bad("partial-reads-fail", "partial reads alone end the run with %s\n%s" % (res.end, err))
    out.nontrivial = bool(used_kinds)
    out.key = want + str(case["faults"])
    out.sample = {"layout": case["layout"], "faults": case["faults"][:3], "report bytes": len(want)}
    return out


def shrink(case):
    for i in range(len(case["faults"])):
        if len(case["faults"]) > 1:
            yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    if case["pad"]:
        yield dict(case, pad=0)
    lay = case["layout"]
    for k, v in (("project", 0), ("absolute", False), ("backslash", False), ("pdir", False), ("dirs", False), ("deep", 0), ("fallback", 0), ("linked", False), ("include", 0),
                 ("chunk", 0), ("files", 1), ("shuffle", False)):
        if lay.get(k, v) != v:
            yield dict(case, layout=dict(lay, **{k: v}))
    for k in list(case["env"]):
        if k != "seed":
            yield dict(case, env={x: v for x, v in case["env"].items() if x != k})
    for m in M.shrink_model(case["model"]):
        yield dict(case, model=m)
