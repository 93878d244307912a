"""C17: log messages stay intact under concurrency and failing log output."""
import re

from checks import c01, c07
from simlib import analysis as A
from simlib import gen, harness, layout, model as M, report

PROP = "C17"
CASES = {"quick": 10000, "thorough": 150000}
SECONDS = {"quick": 50, "thorough": 900}
LEVEL = "exploration"
RULE = ("two kinds of cases: (1) two to six threads of one simulated process log messages of seeded levels and lengths through the real logger, some while a whole "
        "analysis runs in one of them, under a seeded scheduler that switches threads at allocations, stream operations, locks, clock reads and parts of "
        "messages, with partial and failing writes to the standard error: every message must be there once, whole, in the order of its thread and at the right level; "
        "(2) the command line tool at every verbosity with a healthy, partial, failing, full or closed standard error: status, report and output must be "
        "those of the quiet run, and the messages exactly those of the highest verbosity up to the level; non-trivial: threads were switched, or a log differs from the quiet run's")
NEED = {"threads": 1, "analysis among threads": 1, "switches": 1, "failing standard error": 1, "closed standard error": 1, "full standard error": 1, "partial writes": 1, "report compared": 1, "rejected input": 1,
        "output to a stream": 1, "level by level": 1, "priorities": 1, "long messages": 1, "timers": 1}
NEED.update({"verbosity %d" % i: 1 for i in range(8)})
LEVELS = ["ERROR", "WARNING", "INFO", "DEBUG1", "DEBUG2", "DEBUG3", "DEBUG4", "DEBUG5"]
HEAD = re.compile(r"^(ERROR|WARNING|INFO|DEBUG[1-5]): ")


def make(rng, tier, index):
    kind = rng.choice(["threads", "cli", "cli"])
    env = A.env_plan(rng)
    c = {"kind": kind, "env": env, "style": rng.choice([0, 1])}
    if kind == "threads":
        n = rng.randint(2, 6)
        work = rng.random() < 0.4
        c["level"] = rng.choice([0, 1, 2, 3, 5, 7])
        c["threads"] = []
        for t in range(n):
            steps = []
            for s in range(rng.randint(1, 6)):
                x = rng.random()
                if x < 0.1:
                    steps.append(["timer", rng.randint(0, 7), "job-%d-%d" % (t, s)])
                else:
                    parts = ["t%ds%d:" % (t, s)] + ["".join(rng.choice("abcdefgh XYZ.%=<>") for _ in range(rng.choice([1, 3, 10, 40, 40, 300, 3000])))
                                                   for _ in range(rng.choice([0, 1, 1, 2, 4]))] + ["$"]
                    steps.append(["log", rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])] + parts)
            c["threads"].append(steps)
        if work:
            c["work"] = rng.randrange(n)
            c["model"] = gen.Gen(rng, nvars=(2, 5), ngates=(1, 4), ccf=False).model()
            c["opts"] = [{"algorithm": rng.choice(A.ALGOS), "prob": 1}]
        c["sched"] = {"seed": rng.randrange(1, 1 << 30), "mode": rng.choice([0, 0, 1]), "rate": rng.choice([1, 2, 3, 8, 30]), "changes": rng.choice([1, 2, 3, 6]),
                      "span": rng.choice([20, 100, 500, 5000])}
        c["fail"] = rng.choice([None, None, None, None, "short", "EIO", "EIO+"])
        c["nth"] = rng.randint(1, 12)
        return c
    how = rng.choice(["file", "file", "file", "stdout", "validate", "serialize", "print", "no-report"])
    g = gen.Gen(rng, nvars=(2, 8), ngates=(1, 8), serial=True) if how == "serialize" else gen.Gen(rng, nvars=(2, 8), ngates=(1, 8), ets=rng.random() < 0.2, aligns=rng.random() < 0.1, ccf=rng.random() < 0.2, deviates=rng.random() < 0.2)
    m = g.model()
    o = {"algorithm": rng.choice(A.ALGOS)}
    if o["algorithm"] == "bdd" and rng.random() < 0.2 and len(m["basics"]) < 8:
        o["prime"] = True
    if rng.random() < 0.7:
        o["prob"] = 1
        if rng.random() < 0.4:
            o["imp"] = 1
        if rng.random() < 0.3:
            o["unc"], o["trials"], o["seed"] = 1, rng.choice([10, 200]), 3
    if m.get("ccfs") and rng.random() < 0.8:
        o["ccf"] = 1
    if rng.random() < 0.2:
        o["limit"] = rng.randint(1, 3)
    c.update(model=m, opts=[o], verb=rng.randint(0, 7), how=how,
             broken=rng.choice([None, None, None, None, "cycle", "undefined", "xml", "option", "nofile", "outfile"]),
             fail=rng.choice([None, None, "short", "EIO", "EIO+", "ENOSPC+", "closed", "full", "capacity"]), nth=rng.randint(1, 30), sim=rng.random() < 0.8)
    return c


def cli_files(case):
    m = M.clone(case["model"])
    b = case["broken"]
    if b == "cycle" and m["gates"]:
        m["gates"][-1]["f"] = ["null", [["g", M.eid(m["gates"][0]), 0]]]
        if len(m["gates"]) == 1:
            m["gates"][0]["f"] = ["null", [["g", M.eid(m["gates"][0]), 0]]]
    elif b == "undefined":
        m["gates"][0]["f"] = ["and", [["b", "Missing", 0], ["b", M.eid(m["basics"][0]), 0]]]
    text = M.to_xml(m, case["style"])
    if b == "xml":
        text = text[:len(text) * 2 // 3]
    return {"m.xml": text}


def records(text):
    """Messages with their continuation lines; what precedes the first one is not the logger's."""
    out = []
    for line in text.split("\n"):
        if HEAD.match(line) or not out:
            out.append(line)
        else:
            out[-1] += "\n" + line
    return out


def norm(text):
    """Without measured times."""
    return re.sub(r"(?m)(in |time |: ?|= ?)[-+0-9.e]+$", r"\1#", re.sub(r"0x[0-9a-f]+", "0x#", text))


def run_cli_case(ctx, case, out):
    files = cli_files(case)
    o = case["opts"][0]

    def args(verb):
        a = ["scram"] + c01.cli_args(o) + ["m.xml" if case["broken"] != "nofile" else "none.xml"]
        how = case["how"]
        if how == "file":
            a += ["-o", "out.xml" if case["broken"] != "outfile" else "nodir/out.xml"]
        elif how == "validate":
            a.append("--validate")
        elif how != "stdout":
            a.append("--" + how)
        if case["broken"] == "option":
            a.append("--limit-order=-3")
        return a + (["--verbosity", str(verb)] if verb is not None else [])

    def go(verb, fail):
        plan = dict(case["env"])
        plan["argv"] = args(verb)
        plan.setdefault("clock.mono_step", 0)  # measured times are part of the messages
        if case["sim"]:
            plan["stderr.sim"] = 1
        f = []
        if fail == "closed":
            plan["stderr"] = "closed"
        elif fail == "full":
            plan["stderr"] = "/dev/full"
        elif fail == "short":
            plan["stderr.sim"] = 1
            f = ["write|stderr|%d|short|%d" % (1 + i, 1 + (i * 7) % 5) for i in range(20)]
        elif fail:
            plan["stderr.sim"] = 1
            f = ["write|stderr|%d%s|%s|" % (case["nth"], "+" if fail.endswith("+") else "", fail.rstrip("+") if fail != "capacity" else "ENOSPC")]
        if f:
            plan["fault"] = f
        return ctx.sim(plan, files)
    base = go(None, None)
    if base.rc is None:
        sig, err = A.abnormal(base)
        out.bad(sig, "the quiet run ended with %s\n%s" % (base.end, err))
        return

    def outcome(res):
        return (res.rc, report.strip_volatile(res.files.get("out.xml", b"")), report.strip_volatile(res.files.get("stdout", b"")),
                res.files.get("cout", b"") if case["how"] != "print" else re.sub(rb"[0-9.e+-]+", b"#", res.files.get("cout", b"")))
    v = case["verb"]
    runs = [(v, case["fail"]), (v, None), (7, None)]
    logs = {}
    for verb, fail in runs:
        res = go(verb, fail)
        where = "verbosity %d%s" % (verb, ", standard error " + fail if fail else "")
        if res.rc is None:
            sig, err = A.abnormal(res)
            out.bad(sig, "%s: ended with %s (quiet run: %s)\n%s" % (where, res.end, base.end, err))
            return
        if outcome(res) != outcome(base):
            a, b = outcome(res), outcome(base)
            what = [n for n, x, y in zip(("status", "report", "standard output", "terminal output"), a, b) if x != y]
            out.bad("log-changes-" + what[0].replace(" ", "-"), "%s: %s differs from the quiet run (status %s, quiet %s)\n%s" % (
                where, ", ".join(what), res.rc, base.rc, res.files.get("stderr", b"").decode("utf-8", "replace")[-300:]))
            return
        out.feat("report compared" if base.rc == 0 else "rejected input")
        if case["how"] in ("stdout", "serialize") and base.rc == 0:
            out.feat("output to a stream")
        out.feat("verbosity %d" % verb)
        if fail:
            out.feat({"closed": "closed standard error", "full": "full standard error", "short": "partial writes"}.get(fail, "failing standard error"))
        else:
            logs[verb] = res.files.get("stderr", b"").decode("utf-8", "replace")
            if logs[verb] != base.files.get("stderr", b"").decode("utf-8", "replace"):
                out.nontrivial = True
    if base.rc == 0 and not case["broken"] and case["how"] != "print" and case["env"].get("clock.mono_step") is None:
        full = records(norm(logs[7]))
        want = [r for r in full if HEAD.match(r) and LEVELS.index(HEAD.match(r).group(1)) <= v]
        got = [r for r in records(norm(logs[v])) if r]
        want = [w.rstrip("\n") for w in want]
        got = [g.rstrip("\n") for g in got]
        if got != want:
            d = [(a, b) for a, b in zip(got + [None] * len(want), want + [None] * len(got)) if a != b][:1]
            out.bad("wrong-level", "verbosity %d: %d messages, verbosity 7 has %d up to that level; first difference %r" % (v, len(got), len(want), d))
        out.feat("level by level")
    out.key = str([g["f"] for g in case["model"]["gates"]]) + str(o) + str(v) + str(case["fail"])
    out.sample = {"verbosity": v, "standard error": case["fail"], "broken": case["broken"], "how": case["how"]}


def run_threads(ctx, case, out):
    plan = dict(case["env"])
    files = {}
    if "model" in case:
        files["m.xml"] = M.to_xml(case["model"], case["style"])
    scripts = []
    for i, steps in enumerate(case["threads"]):
        t = []
        for s in steps:
            if s[0] == "log":
                t.append(",".join(["log", str(s[1])] + s[2:]))
            else:
                t.append("timer,%d,%s" % (s[1], s[2]))
        if case.get("work") == i:
            o = A.opts_text(case["opts"][0])
            t[len(t) // 2:len(t) // 2] = ["op," + x for x in ("load|m|%s||m.xml" % o, "analyze|a|m|" + o, "report|a|out.xml")]
        scripts.append("~".join(t))
    plan["log.level"] = case["level"]
    plan["stderr.sim"] = 1
    if "work" in case:
        plan["clock.mono_step"] = 0  # measured times are part of the analysis's messages
    for k, v in case["sched"].items():
        plan["sched." + k] = v
    fail = case["fail"]
    if fail == "short":
        plan["fault"] = ["write|stderr|%d|short|%d" % (1 + i, 1 + (i * 7) % 5) for i in range(40)]
    elif fail:
        plan["fault"] = ["write|stderr|%d%s|EIO|" % (case["nth"], "+" if fail.endswith("+") else "")]
    plan["thread"] = scripts
    res = ctx.sim(plan, files)
    if res.rc is None or res.rc != 0:
        sig, err = A.abnormal(res)
        if "DEADLOCK" in res.trace:
            sig = "deadlock"
        out.bad(sig, "the run ended with %s\n%s" % (res.end, err))
        return
    out.feat("threads")
    if res.counters.get("switches"):
        out.feat("switches")
        out.nontrivial = True
    if case["sched"]["mode"]:
        out.feat("priorities")
    text = res.files.get("stderr", b"").decode("utf-8", "replace")
    lines = text.split("\n")
    if text and lines[-1] != "" and fail in (None, "short"):
        out.bad("unfinished-line", "the last line is not ended: %r" % lines[-1][:200])
        return
    if lines and lines[-1] == "":
        lines.pop()
    work = set()
    if "work" in case:
        ref_plan = {k: v for k, v in plan.items() if k not in ("thread", "fault")}
        me = case["work"]
        ref_plan["thread"] = ["~".join(x for x in scripts[me].split("~") if x.startswith("op,"))]
        base = ctx.sim(ref_plan, files)
        work = set(norm(x) for x in base.files.get("stderr", b"").decode("utf-8", "replace").split("\n"))
        if report.strip_volatile(base.files.get("out.xml", b"")) != report.strip_volatile(res.files.get("out.xml", b"")):
            out.bad("log-changes-report", "the analysis among logging threads wrote another report than alone")
            return
        if [b.split("-> ")[1] for b in base.trace.split("\n") if " op " in b] != [b.split("-> ")[1] for b in res.trace.split("\n") if " op " in b]:
            out.bad("log-changes-outcome", "the operations among logging threads ended differently")
            return
        out.feat("analysis among threads")
        nwork = [norm(x) for x in base.files.get("stderr", b"").decode("utf-8", "replace").split("\n") if x]
    else:
        nwork = []
    want = []  # per thread, in order
    for i, steps in enumerate(case["threads"]):
        w = []
        for s in steps:
            if s[1] > case["level"]:
                continue
            head = LEVELS[s[1]] + ": " + "\t" * max(0, s[1] - 2)
            if s[0] == "log":
                w.append(head + "".join(s[2:]))
                if len(w[-1]) > 1000:
                    out.feat("long messages")
            else:
                w += [head + s[2] + "...", norm(head + "Finished " + s[2] + " in 0.1")]
                out.feat("timers")
        want.append(w)
    owner = {}
    for i, w in enumerate(want):
        for k, x in enumerate(w):
            owner[x] = (i, k)
    if fail and fail != "short":
        out.feat("failing standard error")
        for x in lines:  # some are lost, none may be damaged beyond losing its end
            known = [y for y in list(owner) + list(work) if y]

            def piece(z):  # a message or the beginning of one
                return z in owner or norm(z) in owner or norm(z) in work or any(y.startswith(z) for y in known)
            if not piece(x) and not any(piece(x[:m.start()]) and piece(x[m.start():]) for m in re.finditer("(ERROR|WARNING|INFO|DEBUG[1-5]): ", x)):
                out.bad("damaged-message", "with a failing standard error: %r" % x[:300])
                return
        return
    if fail == "short":
        out.feat("partial writes")
    nxt = [0] * len(want)
    rest = []
    for x in lines:
        y = x if x in owner else norm(x)
        if y in owner:
            i, k = owner[y]
            if nxt[i] != k:
                out.bad("message-lost-or-out-of-order", "thread %d: message %d %r came when message %d was next" % (i, k, x[:80], nxt[i]))
                return
            nxt[i] += 1
        else:
            rest.append(norm(x))
    if rest != nwork:
        d = [(a, b) for a, b in zip(rest + [None] * len(nwork), nwork + [None] * len(rest)) if a != b][:1]
        out.bad("damaged-message", "unexpected line or order: %s" % str(d)[:600])
        return
    for i, w in enumerate(want):
        if nxt[i] != len(w):
            out.bad("message-lost", "thread %d: %d of %d messages arrived" % (i, nxt[i], len(w)))
            return
    out.key = str(res.sched)
    out.sample = {"threads": [[s[:2] + [str(s[2])[:20]] for s in t] for t in case["threads"]][:3], "switches": res.counters.get("switches"), "schedule": case["sched"]}


def run(ctx, case):
    out = harness.Out()
    (run_threads if case["kind"] == "threads" else run_cli_case)(ctx, case, out)
    return out


def shrink(case):
    for k in list(case["env"]):
        if k != "seed":
            c = dict(case)
            c["env"] = {x: v for x, v in case["env"].items() if x != k}
            yield c
    if case["kind"] == "threads":
        for i in range(len(case["threads"])):
            if len(case["threads"]) > 2 and i != case.get("work"):
                c = dict(case)
                c["threads"] = case["threads"][:i] + case["threads"][i + 1:]
                if case.get("work", -1) > i:
                    c["work"] = case["work"] - 1
                yield c
            for j in range(len(case["threads"][i])):
                if len(case["threads"][i]) > 1:
                    c = dict(case)
                    c["threads"] = list(case["threads"])
                    c["threads"][i] = case["threads"][i][:j] + case["threads"][i][j + 1:]
                    yield c
        if "work" in case:
            yield {k: v for k, v in case.items() if k not in ("work", "model", "opts")}
        for s in range(1, 6):
            c = dict(case)
            c["sched"] = dict(case["sched"], seed=s, mode=0, rate=3)
            if c["sched"] != case["sched"]:
                yield c
        return
    for mm in M.shrink_model(case["model"]):
        c = dict(case)
        c["model"] = mm
        yield c
