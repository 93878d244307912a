"""Runs of the GUI simulator and their judgement, shared by the checks of the GUI."""
from . import guigen, harness

REAL = harness.REAL_CORE + ["gui/*.cpp of the working tree: main(), main window, dialogs, undo stack and commands, tables, model and report trees, diagram scenes, "
                            "saving, automatic saving, background analysis", "Qt 5 widgets, event loop, timers, settings and thread pool (offscreen platform)"]
STUB = harness.STUB_CORE + ["native file dialogs (a modal dialog whose answer the simulated user gives)", "poll/eventfd waiting and condition variables of Qt (seeded scheduler)",
                            "the user (seeded input events)", "the window system (offscreen); the diagram view (QGLWidget) is not opened"]
ASSUMPTIONS = ["a write accepted by write(2) and a completed rename(2) survive the death of the process (not: power loss)",
               "the files of the session are not changed by others"]
HISTORY = ("undo-redo", "untracked-change", "serialized-order", "history-", "modified-flag", "save-action", "unmodified-differs", "proxies-", "table-", "view-",
           "unsorted-", "model-tree", "top-gate", "no-table")
EDITS = ("edit-result", "remove-re", "name-result", "settings", "preferences", "no-table")
SAVES = ("damaged", "incomplete", "not-in-file", "input-files", "silent-failure", "auto-save", "lost-", "modified-flag", "unmodified-differs", "save-action")
WORK = ("no-report", "report-", "export-disabled", "disabled", "stale-report", "damaged", "incomplete", "untracked-change", "auto-save")
ALWAYS = ("internal-error", "stuck")


def env(rng):
    p = {"seed": rng.randrange(1, 1 << 30), "heap.mode": rng.choice([0, 0, 1, 1, 2, 3]), "heap.seed": rng.randrange(1, 1 << 30)}
    if rng.random() < 0.4:
        p["heap.fill_new"] = rng.choice([0, 85, 170, 255])
        p["heap.fill_free"] = rng.choice([0, 85, 170, 221])
    return p


def session(rng, ops, lengths=(3, 8, 15, 30, 50), auto=None, document=None):
    document = document or guigen.document
    c = {"env": env(rng), "conf": guigen.settings(rng, auto), "files": {"m.xml": document(rng)}, "args": ["m.xml"]}
    x = rng.random()
    if x < 0.15:
        c["files"]["n.xml"] = document(rng, prefix="x")
        c["args"] = ["m.xml", "n.xml"]
    elif x < 0.3:
        c["args"] = []
    else:
        c["files"]["two.xml"] = document(rng)
    if rng.random() < 0.7:  # as desktops start programs
        c["args"] = ["@CWD@/" + f for f in c["args"]]
    c["acts"] = guigen.acts(rng, rng.choice(lengths), ops)
    if not c["args"]:
        c["acts"].insert(0, "10|new,1")
    c["sched"] = {"seed": rng.randrange(1, 1 << 30), "rate": rng.choice([5, 30, 200]), "mode": rng.choice([0, 0, 1])}
    return c


WATCH = ["m.xml", "out.xml", "two.xml", "exit.xml"]


def plan(case):
    p = dict(case["env"])
    p.update({"arg": case["args"], "act": case["acts"], "watch": WATCH, "cpu_s": 20,
              "auto.ms": int(case["conf"].split("autoSave=")[1].split()[0])})
    for k, v in case["sched"].items():
        p["sched." + k] = v
    return p


def files(case):
    f = dict(case["files"])
    f["cfg/scram/scram.conf"] = case["conf"]
    return f


def errors(res):
    return res.files.get("stderr", b"").decode("utf-8", "replace").replace("This plugin does not support propagateSizeHints()\n", "")[-300:]


def judge(res, out, which, crash_ok=False):
    for line in res.trace.split("\n"):
        if line.startswith("BAD "):
            _, sig, msg = line.split(" ", 2)
            if sig.startswith(which) or sig.startswith(ALWAYS):
                out.bad(sig, msg)
            else:
                out.feat("left to another check: " + sig)
        elif line.startswith("box "):
            out.feat(line.split(":")[0])
        elif line.startswith("act "):
            out.feat("act " + line.split()[2].split(",")[0])
        elif line.startswith("saved "):
            out.feat("saves")
        elif line.startswith("auto-save timer"):
            out.feat("auto-save timer")
        elif line.startswith("event dialog accepted"):
            out.feat("accepted edits")
        elif line.startswith("analysis compared"):
            out.feat("analyses")
        elif line.startswith("noise"):
            out.feat("noise")
    crashed = crash_ok and "\nCRASH " in "\n" + res.trace
    if crashed:
        out.feat("killed")
    elif not res.finished or res.rc != 0:
        if res.end == "exit 98":
            out.bad("end deadlock", "no thread can run: " + res.trace[-300:])
        else:
            out.bad("end " + res.end, "the application ends with %s: %s" % (res.end, errors(res)))
    return crashed


def shrink(case):
    import copy
    for size in (16, 8, 4, 2, 1):
        for i in range(0, len(case["acts"]), size):
            c = copy.deepcopy(case)
            del c["acts"][i:i + size]
            yield c
    for k in list(case["env"]):
        if k != "seed":
            c = copy.deepcopy(case)
            del c["env"][k]
            yield c
    if len(case["args"]) == 2:
        c = copy.deepcopy(case)
        c["args"] = case["args"][:1]
        yield c


def sample(case, res):
    return {"acts": len(case["acts"]), "arguments": case["args"], "first": case["acts"][:4], "end": res.end}
