#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (one place to edit)."""
import json, os
T = "deterministic simulation with fault injection: "
LN = "seeded search, not exhaustive: "
CHECKS = {
    "C01": (T + "simulated disk/stdio under the real CLI, write faults at every position, history compared with the fault-free run",
            LN + "every distinct write-side call of small generated runs is failed in turn; larger documents are sampled"),
    "C04": (T + "one command or library history in environments that differ in heap, clock, partial I/O and process environment; reports compared byte by byte",
            LN + "four environments per sampled model and option set"),
    "C05": (T + "seeded operation histories in one process compared with the same operation in a fresh process, with read and write errors in between",
            LN + "histories of up to 16 operations over up to three small models"),
    "C06": (T + "seeded uncertain models and random streams in a simulated process; statistics checked against each other and against an independent trial simulator",
            LN + "models of up to about 8 events; two-sample tests with error probability below 1e-11 limit how small a bias is seen"),
    "C07": (T + "generated models under random heap layouts and option histories, checked against an executable reference model",
            LN + "models of up to about 14 events so that the reference can enumerate the truth table"),
    "C08": (T + "generated models under random heap layouts and option histories, checked against an executable reference model",
            LN + "models of up to about 14 events; reports carry 6 significant digits, which bounds the comparison"),
    "C09": (T + "generated event trees, alignments and phase histories, checked against an executable reference model",
            LN + "small event trees; reports carry 6 significant digits"),
    "C03": (T + "open, read, metadata and short-read faults at every call position of seeded command lines, output compared with the fault-free run",
            LN + "every distinct input-side call of small generated runs is faulted in turn, with sampled pairs"),
    "C13": (T + "seeded damage to the stored bytes of every input file (lost, zeroed, swapped, foreign and flipped data, changed elements and numbers) under the real CLI",
            LN + "about 12 damaged variants per generated model; a run is taken for hanging after 20 s of processor time"),
    "C14": (T + "allocation failures at seeded positions of the real CLI and of library histories, results compared with the fault-free run",
            LN + "sampled failing positions, single, repeated and lasting shortages"),
    "C20": (T + "one model delivered in seeded file layouts, orders and includes through the simulated file system, outputs compared with the canonical layout",
            LN + "about five layouts per generated model"),
    "C18": (T + "curves of seeded time steps and phases in a simulated process, every point checked against an executable reference model at that time",
            LN + "up to about 13 points per curve, models of up to about 12 events"),
    "C22": (T + "seeded histories of analyses and command lines under a simulated wall and monotonic clock that stand still, run or jump; every report compared with what was asked for and with the clocks",
            LN + "models of up to about 12 elements, up to four reports in a process"),
    "C10": (T + "seeded histories of saving and loading in one process (with write faults in between), every generation compared with an executable model of the document",
            LN + "models of up to about 12 elements, up to five generations"),
    "C15": (T + "the real generator script in a simulated process with seeded string-hash seeds, heap layouts, clocks, entropy and write faults; output compared byte by byte and checked against the arguments",
            LN + "trees of up to some hundred events; settings for which the generator gives no output are outside"),
    "C16": (T + "a simulated dynamic loader records and fails every load and lookup of seeded models, permissions, layouts and histories; values checked against an executable reference model",
            LN + "up to three libraries and four functions of up to five parameters"),
    "C17": (T + "logging threads of one process under a seeded scheduler that switches them at locks, allocations and stream operations, and the real CLI with failing log output, compared with the quiet run",
            LN + "up to six threads; switching only at the interposed calls (none inside the C library)"),
    "C19": (T + "generated common-cause groups under random heap layouts and option histories, checked against an executable reference model",
            LN + "groups of up to 5 members in models of up to 13 events after expansion"),
    "C02": (T + "a simulated user at the real main window with a simulated disk: write, close, rename and open faults and kills at seeded positions of every save, files judged against the model of each moment",
            LN + "about five faulted variants per generated session; the process is killed, not the machine"),
    "C11": (T + "a simulated user's seeded histories at the real main window under simulated time; the model after every undo and redo compared with the one recorded for that position",
            LN + "sessions of up to 50 actions over models of up to about 15 elements"),
    "C12": (T + "a simulated user at the real main window with the analysis thread, timers and event delivery under a seeded scheduler and clock; reports compared with an uninterrupted analysis",
            LN + "switches of threads only at the interposed calls; small models"),
    "C21": (T + "a simulated user's seeded dialog histories at the real main window; the model after every dialog compared with an executable reference model of the edit",
            LN + "sessions of up to 50 actions over models of up to about 15 elements"),
}
NOT_YET = "planned, check not built yet"
NA = {
    "P01": "acceptance of an input is a pure function of the input: no schedule, clock, I/O fault, crash or history for a simulator to decide (damage to stored inputs is C13)",
    "P02": "evaluation of an expression is a pure numeric function of its arguments; nothing nondeterministic to simulate (random draws are C06)",
    "P03": "option handling is a pure function of the argument list and the project file, without schedule, time or fault",
    "P04": "field validators are pure functions of the entered text",
    "P05": "drawing is a pure function of the model and judging pictures needs another oracle than a recorded history",
    "P06": "a statement about cost, not about any history of events; simulated time does not measure it",
}
ALL = ["C%02d" % i for i in range(1, 23)]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks: every seam is at a library boundary (C library, allocator, clock, loader, Qt event dispatcher); the checks compile /repo's sources unchanged", "source_commits": []},
     "checks": [], "not_applicable": []}
for c in ALL:
    if c in CHECKS:
        t, n = CHECKS[c]
        m["checks"].append(dict(property=c, quick_cmd="./check.py %s quick" % c, thorough_cmd="./check.py %s thorough" % c,
                                technique=t, level="exploration", level_note=n))
    else:
        m["not_applicable"].append(dict(property=c, reason=NOT_YET))
for k, v in NA.items():
    m["not_applicable"].append(dict(property=k, reason=v))
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
