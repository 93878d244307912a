"""C01: a report or serialized model acknowledged as written is complete."""
import xml.etree.ElementTree as ET

from checks import c07
from simlib import analysis as A
from simlib import gen, harness, model as M, report

PROP = "C01"
CASES = {"quick": 5000, "thorough": 150000}
SECONDS = {"quick": 55, "thorough": 1200}
LEVEL = "fault_injection"
RULE = ("a case is one seeded model written as a report (-o file, standard output, or through the library) or serialized, first without "
        "disturbance and then 4-8 more times with a fault placed at a seeded point of the write path (open, each write, close, full disk "
        "after n bytes, short writes, combinations; sticky or once), over a fresh, shorter or longer existing file; non-trivial: a fault "
        "fired while data was being written")
NEED = {"fault fired": 1, "disk_full": 1, "fault_close": 1, "fault_open": 1, "short_write": 1}
REAL = harness.REAL_CORE
ASSUMPTIONS = ["a write accepted by write(2) and a successful close(2) count as stored: SCRAM does not promise to survive power loss"]

ERRNOS_W = ["EIO", "ENOSPC", "EDQUOT", "EFBIG"]
ERRNOS_O = ["EACCES", "ENOSPC", "EMFILE", "EROFS", "EISDIR", "EIO", "ENOENT"]


def cli_args(o):
    a = ["--" + o["algorithm"]]
    if o.get("prob"):
        a.append("--probability")
    if o.get("imp"):
        a.append("--importance")
    if o.get("unc"):
        a += ["--uncertainty", "--num-trials", str(o.get("trials", 100))]
        for k in ("quantiles", "bins"):
            if k in o:
                a += ["--num-" + k, str(o[k])]
    if o.get("step"):
        a += ["--time-step", repr(o["step"])]
    if o.get("sil"):
        a.append("--sil")
    if "limit" in o:
        a += ["--limit-order", str(o["limit"])]
    if "seed" in o:
        a += ["--seed", str(o["seed"])]
    if "mission" in o:
        a += ["--mission-time", repr(o["mission"])]
    if o.get("prime"):
        a.append("--prime-implicants")
    if o.get("ccf"):
        a.append("--ccf")
    if o.get("approx") in ("rare-event", "mcub"):
        a.append("--" + o["approx"])
    return a


def make(rng, tier, index):
    big = rng.random() < 0.35
    how = rng.choice(["file", "file", "stdout", "serialize", "lib-report", "lib-report", "lib-serialize", "lib-serialize"])
    g = gen.Gen(rng, serial=how.endswith("serialize"), nvars=(8, 14) if big else (2, 6), ngates=(5, 14) if big else (1, 5), coherent=True if big else rng.random() < 0.5,
                params=False, time=rng.random() < 0.4)
    m = g.model()
    o = {"algorithm": rng.choice(A.ALGOS)}
    if rng.random() < 0.7:
        o["prob"] = 1
    if rng.random() < 0.5:
        o["imp"] = 1
    if rng.random() < 0.3:
        o["limit"] = rng.randint(1, 5)
    case = {"model": m, "opt": o, "how": how, "env": A.env_plan(rng), "style": rng.choice([0, 1]),
            "indent": rng.random() < 0.7, "before": rng.choice(["none", "none", "short", "long"]),
            "buf": rng.choice([0, 0, 1, 64, 4096, 100000]), "faults": None, "u": [rng.random() for _ in range(8)],
            "kinds": [rng.choice(["open", "write", "write", "write", "full", "full", "full", "close", "short", "short+full", "dir", "last"])
                      for _ in range(rng.randint(4, 8))],
            "errs": [[rng.choice(ERRNOS_W), rng.choice(ERRNOS_O), rng.random() < 0.5, rng.random()] for _ in range(8)]}
    return case


DEST = "out.xml"


def plan_of(case):
    plan = dict(case["env"])
    how = case["how"]
    if case["buf"] and how in ("stdout", "serialize"):
        plan["stdout.buf"] = case["buf"]
    if how in ("file", "stdout", "serialize"):
        a = ["scram"] + cli_args(case["opt"]) + ["m.xml"]
        if not case["indent"]:
            a.append("--no-indent")
        if how == "file":
            a += ["-o", DEST]
        if how == "serialize":
            a.append("--serialize")
        plan["argv"] = a
    else:
        ops = ["load|m|%s||m.xml" % A.opts_text(case["opt"])]
        if how == "lib-report":
            ops += ["analyze|a|m|" + A.opts_text(case["opt"]), "report|a|" + DEST, "report|a|again.xml"]
        else:
            ops += ["serialize|m|" + DEST, "serialize|m|again.xml"]
        plan["op"] = ops
    return plan


def one(ctx, case, extra):
    plan = plan_of(case)
    plan.update(extra)
    files = {"m.xml": M.to_xml(case["model"], case["style"])}
    dest = DEST if case["how"] not in ("stdout", "serialize") else "stdout"
    if dest == DEST and case["before"] != "none":
        files[DEST] = b"<old/>" if case["before"] == "short" else b"<old>" + b"x" * 300000 + b"</old>\n"
    return ctx.sim(plan, files), dest


def acknowledged(case, res):
    """(the document counts as written, the error is visible)"""
    if case["how"] in ("file", "stdout", "serialize"):
        err = res.files.get("stderr", b"").decode("utf-8", "replace")
        return res.end == "exit 0", "IOError" in err
    ops = A.op_results(res)
    r = ops.get(2 if case["how"] == "lib-report" else 1, "?")
    return r == "ok", r.startswith("io-error")


def run(ctx, case):
    out = harness.Out()
    base, dest = one(ctx, case, {})
    if base.end != "exit 0" or not acknowledged(case, base)[0]:
        if base.end.startswith("exit"):
            out.skipped = "undisturbed run rejected"
        else:
            sig, err = A.abnormal(base)
            out.bad(sig, "the undisturbed run ended with %s\n%s" % (base.end, err))
        return out
    want = base.files.get(dest, b"")
    try:
        ET.fromstring(want)
    except ET.ParseError as e:
        out.bad("bad-document", "%s: the document of the undisturbed run is not well-formed: %s" % (case["how"], e))
        return out
    ref = report.strip_volatile(want)
    size = len(want)
    nw = max(1, base.trace.count("\nwrite " + dest))
    out.feat("writes of the document", nw)
    for k, (ew, eo, sticky, u) in zip(case["kinds"], case["errs"]):
        extra = {}
        nth = 1 + int(u * nw)
        if k == "last":
            nth, k = nw, "write"
        if k == "open":
            extra["fault"] = ["open_w|%s|1%s|%s|" % (dest, "+" if sticky else "", eo)]
        elif k == "write":
            extra["fault"] = ["write|%s|%d%s|%s|" % (dest, nth, "+" if sticky else "", ew)]
        elif k == "close":
            extra["fault"] = ["close|%s|1|%s|" % (dest, ew)]
        elif k == "full":
            extra["disk.capacity"] = int(u * (size + 40))
        elif k == "short":
            extra["io.short_writes"] = 1
        elif k == "short+full":
            extra["io.short_writes"] = 1
            extra["disk.capacity"] = int(u * (size + 40))
        elif k == "dir":
            extra["fault"] = ["write|%s|%d|short|%d" % (dest, nth, 1 + int(u * 100)), "write|%s|%d|%s|" % (dest, nth + 1, ew)]
        res, _ = one(ctx, case, extra)
        what = "%s, %s: %s" % (case["how"], k, extra)
        if not res.end.startswith("exit"):
            sig, err = A.abnormal(res)
            out.bad("write-fault " + sig, "%s: the run ended with %s\n%s" % (what, res.end, err))
            continue
        ack, visible = acknowledged(case, res)
        c = res.counters
        # standard output and the two documents of a library history share the disk: look at this document only
        fired = sum(res.trace.count(x) for x in ("open %s w = E" % dest, "close %s = E" % dest)) + sum(
            1 for l in res.trace.split("\n") if l.startswith("write %s " % dest) and ("FAULT" in l or "FULL" in l))
        if fired:
            out.feat("fault fired")
            out.nontrivial = True
        got = res.files.get(dest, b"")
        if ack:
            if report.strip_volatile(got) != ref:
                out.bad("acknowledged-incomplete", "%s: status 0, but %d of %d bytes are in place" % (what, len(got), size))
            elif "close %s = E" % dest in res.trace:
                out.bad("close-error-ignored", "%s: closing the destination failed, and the run reports success" % what)
        else:
            out.feat("reported failures")
            if not fired:
                out.bad("false-failure", "%s: no fault hit the document, but the run reports a failure: %s %s" % (
                    what, res.end, res.files.get("stderr", b"")[-300:]))
            elif not visible:
                out.bad("failure-not-named", "%s: the failure is not reported as an I/O error: %s %s" % (
                    what, res.end, res.files.get("stderr", b"")[-300:]))
        # a later write to another file, once the disk works again, is complete
        if case["how"].startswith("lib") and "disk.capacity" not in extra:
            ops = A.op_results(res)
            r = ops.get(3 if case["how"] == "lib-report" else 2)
            if r != "ok":
                out.bad("no-recovery", "%s: the next document could not be written: %s" % (what, r))
            elif report.strip_volatile(res.files.get("again.xml", b"")) != ref:
                out.bad("recovery-incomplete", "%s: the next document is incomplete" % what)
    out.key = (case["how"], case["before"], size, tuple(case["kinds"]))
    out.sample = {"how": case["how"], "bytes": size, "writes": nw, "faults": case["kinds"], "existing file": case["before"]}
    return out


def shrink(case):
    n = len(case["kinds"])
    for i in range(n):
        if n > 1:
            c = dict(case)
            c["kinds"] = [case["kinds"][i]]
            c["errs"] = [case["errs"][i]]
            yield c
    for k in list(case["env"]):
        if k != "seed":
            c = dict(case)
            c["env"] = {x: v for x, v in case["env"].items() if x != k}
            yield c
    for k, v in (("before", "none"), ("buf", 0), ("indent", True), ("style", 0)):
        if case[k] != v:
            c = dict(case)
            c[k] = v
            yield c
    for m in M.shrink_model(case["model"]):
        c = dict(case)
        c["model"] = m
        yield c
