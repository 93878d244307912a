"""C02: saving in the GUI never damages the model file."""
from simlib import guirun as G
from simlib import guigen, harness

PROP = "C02"
EXES = ("gui",)
CASES = {"quick": 2000, "thorough": 60000}
SECONDS = {"quick": 55, "thorough": 1200}
LEVEL = "fault_injection"
RULE = ("a case is one seeded session of edits, saves, saves under other names, automatic saves, loads and exits, run once undisturbed and then 3-6 times with faults placed "
        "at seeded points of its write path: failing open, write (full, short, torn), close, rename, a full disk, or the death of the process before, within or after any of "
        "these operations or at any other event; the files are judged at every file operation, at rest after every action, and after a crash by loading them afresh; "
        "non-trivial: a fault fired or the process was killed while it was saving or with unsaved changes")
NEED = {"killed": 1, "fault_rename": 1, "fault_write": 1, "fault_open": 1, "disk_full": 1, "box IO Error": 1, "auto-save timer": 1}
REAL, STUB, ASSUMPTIONS = G.REAL, G.STUB, G.ASSUMPTIONS
OPS = {"add": 6, "edit": 8, "remove": 4, "name": 1, "undo": 3, "redo": 2, "saveas": 4, "save": 7, "new": 1, "open": 1.5, "close": 1, "wait": 3, "prefs": 0.4, "export": 0.5, "run": 1, "settings": 1}
ERR_W = ["EIO", "ENOSPC", "EDQUOT", "EFBIG"]
ERR_O = ["EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO"]
ERR_R = ["EACCES", "EPERM", "ENOSPC", "EIO", "EBUSY", "EXDEV", "EISDIR"]


def make(rng, tier, index):
    ops = {k: v for k, v in OPS.items() if k in ("edit", "add", "save") or rng.random() < 0.75}
    c = G.session(rng, ops, lengths=(4, 8, 14, 22), auto=rng.random() < 0.6)
    if rng.random() < 0.3:  # a time without saves by the user, for the timer
        at = rng.randint(0, len(c["acts"]))
        quiet = {k: v for k, v in OPS.items() if k not in ("save", "saveas", "open", "new", "close")}
        c["acts"][at:at] = (guigen.acts(rng, 1, {"save": 1}) + guigen.acts(rng, 1, {"settings": 1}) + guigen.acts(rng, 1, {"run": 1}) +
                            guigen.acts(rng, rng.randint(3, 9), quiet, delays=(2000, 20000)))
        if rng.random() < 0.7:
            c["conf"] = guigen.settings(rng, rng.choice([1000, 5000]))
    c["kinds"] = [rng.choice(["open", "write", "write", "close", "rename", "rename", "full", "short", "torn", "torn", "crash-open", "crash-write", "crash-close",
                              "crash-rename", "crash-renamed", "crash-renamed", "tick", "tick"]) for _ in range(rng.randint(3, 6))]
    c["u"] = [[rng.random(), rng.random(), rng.random() < 0.3, rng.choice(ERR_W), rng.choice(ERR_O), rng.choice(ERR_R)] for _ in c["kinds"]]
    return c


TMP = "xml."  # part of the names of the temporary files


def faults(kind, u, base):
    """The fault of this kind at a place among the operations of the undisturbed run."""
    lines = base.trace.split("\n")
    n = {k: max(1, sum(1 for l in lines if l.startswith(k + " ") and TMP in l and " r = " not in l)) for k in ("open", "write", "close")}
    n["rename"] = max(1, sum(1 for l in lines if l.startswith("rename -> ") and ".xml" in l))
    at = lambda k: 1 + int(u[0] * n[k])
    plus = "+" if u[2] else ""
    if kind == "open":
        return {"fault": ["open_w|%s|%d%s|%s|" % (TMP, at("open"), plus, u[4])]}
    if kind == "write":
        return {"fault": ["write|%s|%d%s|%s|" % (TMP, at("write"), plus, u[3])]}
    if kind == "close":
        return {"fault": ["close|%s|%d%s|%s|" % (TMP, at("close"), plus, u[3])]}
    if kind == "rename":
        return {"fault": ["rename|xml|%d%s|%s|" % (at("rename"), plus, u[5])]}
    if kind == "full":
        return {"disk.capacity": int(u[0] * u[1] * 20000)}
    if kind == "short":
        return {"io.short_writes": 1}
    if kind == "torn":
        return {"fault": ["write|%s|%d|torn|%d" % (TMP, at("write"), int(u[1] * 5000))]}
    if kind == "crash-renamed":
        return {"fault": ["rename|xml|%d|crash_after|" % at("rename")]}
    if kind == "crash-rename":
        return {"fault": ["rename|xml|%d|crash|" % at("rename")]}
    if kind == "tick":
        t = base.counters.get("ticks", 1)
        return {"crash.tick": 1 + int((0.5 + 0.5 * u[0]) * t if u[1] < 0.7 else u[0] * t)}
    op = kind.split("-")[1]
    return {"fault": ["%s|%s|%d|crash|" % ({"open": "open_w"}.get(op, op), TMP, at(op))]}


def models(ctx, names, contents):
    """What the files hold, as a load by the application sees it: name -> hash, None if it is no model."""
    contents = {k: v for k, v in contents.items() if k in names}
    res = ctx.sim({"seed": 1, "judge": 1, "watch": sorted(contents), "arg": [], "cpu_s": 20}, contents, exe="gui")
    out = {}
    for l in res.trace.split("\n"):
        f = l.split()
        if len(f) == 4 and f[0] == "file":
            out[f[1]] = f[2] if f[3] == "ok" else None
    return out


def after_crash(ctx, out, case, res, what):
    """Every file holds the contents from before or a complete model the session had at that time."""
    last, told = {}, None
    for l in res.trace.split("\n"):
        if l.startswith("model "):
            told = l.split()[1]
        elif l.startswith("saved "):
            last[l.split()[1]] = told
    now = {f: res.files[f] for f in G.WATCH if f in res.files}
    now.update({f: case["files"][f].encode() for f in G.WATCH if f in res.same})
    hold = models(ctx, G.WATCH, now)
    for f in G.WATCH:
        old = case["files"].get(f)
        if isinstance(old, str):
            old = old.encode()
        if f not in now:
            if old is not None or f in last:
                out.bad("crash-gone", "%s: after the death of the application %s is gone" % (what, f))
            continue
        if f not in last and old is not None and now[f] == old:
            continue
        good = {h for h in (last.get(f), told) if h}
        if hold.get(f) is None:
            out.bad("crash-damaged", "%s: after the death of the application %s (%d bytes) is no model" % (what, f, len(now[f])))
        elif hold[f] not in good:
            out.bad("crash-other", "%s: after the death of the application %s is neither the last saved nor the current model" % (what, f))
        else:
            out.feat("judged after a crash")


def run(ctx, case):
    out = harness.Out()
    base = ctx.sim(G.plan(case), G.files(case), exe="gui")
    G.judge(base, out, G.SAVES)
    if out.violations:
        return out
    for kind, u in zip(case["kinds"], case["u"]):
        p = G.plan(case)
        p.update(faults(kind, u, base))
        what = "%s %s" % (kind, {k: v for k, v in p.items() if k in ("fault", "disk.capacity", "io.short_writes", "crash.tick")})
        res = ctx.sim(p, G.files(case), exe="gui")
        o = harness.Out()
        crashed = G.judge(res, o, G.SAVES, crash_ok=True)
        for s, m in o.violations:
            out.bad(s, what + ": " + m)
        for k, v in o.features.items():
            out.feat(k, v)
        if crashed:
            after_crash(ctx, out, case, res, what)
        if crashed or any(v for k, v in res.counters.items() if k.startswith("fault_") or k == "disk_full"):
            out.nontrivial = True
            out.feat("fault " + kind)
    out.key = base.hash
    out.sample = dict(G.sample(case, base), faults=case["kinds"])
    return out


def shrink(case):
    import copy
    for i in range(len(case["kinds"])):
        if len(case["kinds"]) > 1:
            c = copy.deepcopy(case)
            c["kinds"], c["u"] = [case["kinds"][i]], [case["u"][i]]
            yield c
    yield from G.shrink(case)
