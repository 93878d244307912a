#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=hook)))

p("C01", "A report or serialized model acknowledged as written is complete",
  "When the command line tool exits with status 0 (or the report/serialization call returns normally), every byte of the "
  "XML document it was asked to write has been accepted by the operating system at the requested destination, and that document "
  "is well-formed and identical to the one a fault-free run writes. Whenever opening, writing, flushing or closing the destination "
  "fails, the tool ends with a non-zero status and an error that names the I/O failure; "
  "short (partial) writes alone change nothing.",
  ["fault_sequences", "inputs", "configurations"],
  "every write-side fault (open failure, disk full after k bytes, EIO on the n-th write or on flush/close, short writes) "
  "at every position of every report or serialized document, for file and standard-output destinations",
  "No test injects a write error: the CLI tests only write small reports to a healthy disk, so what happens on a full disk, at an "
  "arbitrary byte offset or at close is never sampled.",
  ["src/reporter.cc", "src/xml_stream.h", "src/serialization.cc", "src/scram.cc"],
  [("error check of the stream when the XML stream is destroyed", "src/xml_stream.h"),
   ("RAII FILE handle and IOError annotation", "src/reporter.cc, src/serialization.cc"),
   ("exception to exit status mapping", "src/scram.cc")],
  ["process exit status", "bytes at the destination", "standard error"])

p("C02", "Saving in the GUI never damages the model file",
  "At every instant, including after a crash of the application at any point or any I/O error, the file a model is saved to holds either "
  "the complete previous contents or the complete new model, whether the save is explicit, 'save as' or an automatic save. "
  "A save reported as successful (document no longer marked modified, file becomes the project's input) has put the complete current "
  "model in that file; a failed save is reported to the user, keeps the document marked modified and keeps the previous file. "
  "With automatic saving on, changes of a model with a file do not stay unsaved (without a reported error) for longer than its interval.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point and every fault (open, write, flush, close, rename) during every save in every history of edits, saves, automatic saves and loads",
  "The GUI tests never save under faults or crashes; there is no test of saveToFile or autosave at all.",
  ["gui/mainwindow.cpp", "src/serialization.cc", "src/xml_stream.h"],
  [("write to a unique temporary file, then rename over the destination", "gui/mainwindow.cpp saveToFile"),
   ("clean state of the undo stack drives the modified flag", "gui/mainwindow.cpp"),
   ("auto-save timer", "gui/mainwindow.cpp autoSaveModel")],
  ["contents of the destination file", "modified flag of the main window", "message boxes"],
  state=[("modified flag", "unsaved edits exist", "main window / undo stack clean state")])

p("C03", "Faults while reading inputs never silently change an analysis",
  "If reading a model file, an included file, a project file or a schema fails or ends early, the run either reports an error with a "
  "non-zero status or produces exactly the results of the fault-free run; it never succeeds with results of a partially read model. "
  "Short (partial) reads alone never change the outcome.",
  ["fault_sequences", "inputs", "configurations"],
  "every read-side fault (open failure, EIO at any read, premature end of file at any offset, short reads) on each of the files of every multi-file, "
  "include-using or project-driven input",
  "Tests read intact files from a healthy disk; only the existence of files is checked.",
  ["src/xml.cc", "src/xml.h", "src/initializer.cc", "src/project.cc", "src/scram.cc"],
  [("XML parser/XInclude error codes turned into exceptions", "src/xml.cc"),
   ("existence and duplicate-file checks", "src/initializer.cc"),
   ("schema validation of every document", "src/initializer.cc, src/project.cc")],
  ["process exit status", "report contents"])

p("C04", "Same model, settings and seed always give the same results",
  "Two runs on the same input files with the same options and the same pseudo-random seed write the same report, apart from the time stamp and "
  "the measured calculation times, whatever the memory layout and previous contents of memory, wall-clock and monotonic clock behaviour, working directory, "
  "file-system order or time zone. Without an explicit seed the default seed is as fixed as an explicit one.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every heap layout and uninitialised-memory content, every clock reading (jumps, standstill, far future), every environment, for every model and option set",
  "Tests run once per process in one memory layout and compare a few numbers; they cannot vary the allocator or the clocks.",
  ["src/preprocessor.cc", "src/pdag.cc", "src/zbdd.cc", "src/bdd.cc", "src/event_tree_analysis.cc", "src/expression/random_deviate.cc",
   "src/risk_analysis.cc", "src/reporter.cc", "src/logger.h"],
  [("index-based rather than address-based ordering of graph nodes", "src/pdag.h, src/preprocessor.cc"),
   ("explicit seeding of the single pseudo-random engine", "src/risk_analysis.cc"),
   ("clock readings used only for reporting", "src/logger.h, src/reporter.cc")],
  ["report contents"])

p("C05", "One analysis leaves no trace in the model or in later analyses",
  "In one process, the outcome of loading, analysing, reporting or serializing a model does not depend on what was loaded, analysed, reported or "
  "rejected before, and analysing a model (with alignments and phases, mission-time curves, common-cause expansion and event trees) leaves it exactly as it was, so "
  "that serializing it or analysing it again with the same settings and explicit seed gives the same result as in a fresh process.",
  ["histories", "fault_sequences", "inputs"],
  "every history of load, failed load, analyse, re-analyse with other settings, failed report, report, serialize, across several live models",
  "Tests run one short scenario per fixture; none compares a long mixed history with fresh processes.",
  ["src/risk_analysis.cc", "src/probability_analysis.cc", "src/initializer.cc", "src/event_tree_analysis.cc", "src/expression/random_deviate.cc", "src/model.h", "src/project.cc"],
  [("scope guard restoring mission time and house-event states", "src/risk_analysis.cc"),
   ("explicit reseeding", "src/risk_analysis.cc"),
   ("cached validators", "src/initializer.cc, src/project.cc")],
  ["reports of each operation", "serialized model before and after"],
  state=[("mission time", "model-wide time parameter, changed during phases and curves", "src/model.h"),
         ("house-event states", "changed during phases", "src/event.h"),
         ("random engine", "process-wide generator", "src/expression/random_deviate.cc")])

p("C06", "Uncertainty results are faithful statistics of the simulated trials",
  "With two or more trials, the reported mean, standard deviation, confidence range, quantiles and histogram of the top-event probability describe independent trials in which every uncertain "
  "parameter is drawn once per trial from its stated distribution and shared by all events that use it. The confidence range is the mean plus or minus 1.96 standard errors, "
  "quantiles are non-decreasing and lie within the sampled range, histogram fractions add up to 1, and as trials grow the statistics converge to the true moments and quantiles.",
  ["inputs", "configurations", "schedules"],
  "every model with uncertain parameters, every distribution kind, every number of trials, quantiles and bins, every pseudo-random stream (seed)",
  "Tests check a couple of seeds for a few models with loose bounds; correctness is a statement about the distribution over all random streams.",
  ["src/uncertainty_analysis.cc", "src/uncertainty_analysis.h", "src/expression/random_deviate.cc", "src/expression.cc", "src/reporter.cc"],
  [("reset-then-sample once per trial", "src/uncertainty_analysis.cc, src/expression.cc"),
   ("accumulator statistics", "src/uncertainty_analysis.cc")],
  ["report: measure element"])

p("C07", "Products are exactly the minimal cut sets or prime implicants",
  "For every fault tree, the products reported by the BDD, ZBDD and MOCUS algorithms up to the order limit are exactly the minimal cut sets of the top event "
  "(for non-coherent trees, the minimal sets of events whose occurrence alone, with no other event occurring, makes the top event occur: minimal satisfying assignments reduced to the events that occur), and with prime implicants requested exactly the prime implicants, each once, "
  "no matter how preprocessing happens to traverse the graph. House-event states, common-cause events and declarative substitutions are part of the analysed function.",
  ["inputs", "configurations", "schedules"],
  "every fault tree over all connectives, nesting, sharing and complements, every algorithm, order limit and memory layout",
  "The C++ unit tests compare hand-written results for some fifty small trees in one memory layout (and are not even built here).",
  ["src/preprocessor.cc", "src/pdag.cc", "src/bdd.cc", "src/zbdd.cc", "src/mocus.cc", "src/fault_tree_analysis.cc", "src/substitution.cc"],
  [("graph preprocessing that preserves the Boolean function", "src/preprocessor.cc"),
   ("BDD/ZBDD construction and subsuming", "src/bdd.cc, src/zbdd.cc"),
   ("MOCUS expansion", "src/mocus.cc")],
  ["report: sum-of-products elements"])

p("C08", "Probabilities and importance factors agree with the model",
  "With the BDD algorithm and no approximation the reported top-event probability is the exact probability of the fault tree's Boolean function for independent basic events; with the "
  "rare-event or MCUB approximation it is the stated formula (sum capped at 1, or one minus the product of complements) over the reported products. Product probabilities and contributions, and the MIF, CIF, DIF, RAW, RRW "
  "and occurrence of every event in the products follow their definitions from those same numbers.",
  ["inputs", "configurations", "schedules"],
  "every fault tree and probability assignment (constants and the built-in time-dependent expressions), every algorithm and approximation and memory layout",
  "Tests compare a handful of published numbers; the definition must hold for every tree shape, complement pattern, module structure and probability including 0 and 1.",
  ["src/probability_analysis.cc", "src/importance_analysis.cc", "src/bdd.cc", "src/reporter.cc", "src/expression/exponential.cc"],
  [("Shannon decomposition over the BDD", "src/probability_analysis.cc"),
   ("conditional-probability differences", "src/importance_analysis.h, src/importance_analysis.cc"),
   ("product probabilities at report time", "src/fault_tree_analysis.cc, src/reporter.cc")],
  ["report: probability, product and importance elements"])

p("C09", "Event-tree and phased results follow the model of each path and phase",
  "For every initiating event with an event tree, each sequence is reported once with the probability of the union of the paths that end in it (a path without formulas is always taken), where a path combines the formulas or expressions collected along its branches, "
  "links and rules under the house-event settings made on that path. With alignments, every phase is analysed exactly once with its own house-event settings and its own share of the mission time, and every number reported for the phase "
  "(including product and importance probabilities) refers to that phase.",
  ["inputs", "histories", "configurations"],
  "every event tree (nesting, forks, links, rules, set-house-event, collected formulas and expressions) and every alignment with its sequence of phases",
  "Only a few sample event trees are tested and phase results are never compared with independent analyses.",
  ["src/event_tree_analysis.cc", "src/risk_analysis.cc", "src/instruction.h", "src/alignment.cc", "src/reporter.cc"],
  [("path collection with copied context", "src/event_tree_analysis.cc"),
   ("context application and restoration per phase", "src/risk_analysis.cc")],
  ["report: initiating-event, sum-of-products, importance elements"])

p("C10", "Serializing and reloading preserves the model, repeatedly",
  "Serializing any model made of the constructs the GUI edits (fault trees with gates over null, not, and, or, nand, nor, xor and atleast connectives, possibly complemented arguments, basic events with constant or exponential probability, house events, undeveloped and conditional flavours, all public) and loading the result always succeeds and yields a model with the same elements, names, labels, attributes, roles, formulas and expressions, so that analysing it gives the same results and "
  "serializing it again gives the same text, any number of times.",
  ["inputs", "histories"],
  "every such model (special characters in labels and attributes, extreme numbers) and every chain of serialize/load steps",
  "One test serializes a few sample inputs and only checks schema validity.",
  ["src/serialization.cc", "src/xml_stream.h", "src/initializer.cc"],
  [("model printers for every construct", "src/serialization.cc"), ("XML escaping and number formatting", "src/xml_stream.h")],
  ["serialized text", "report of the reloaded model"])

p("C11", "Undo and redo restore the model exactly, in any history",
  "After any sequence of edits in the GUI (adding, removing, renaming, relabelling, retyping events and gates, changing formulas, expressions, flavours and states, naming the model), undoing k steps yields exactly the model from k steps before and redoing "
  "them yields exactly the later model again, as seen in the serialized model and in what the proxies and tables report. The document is marked unmodified exactly when the history stands at the last saved position. "
  "No step of such a session (with loading, saving, reporting and looking at any table or tree in between) ends in an internal error, a failed assertion or a crash.",
  ["histories", "inputs"],
  "every history of edits, undo and redo steps over every editable model",
  "The GUI tests exercise each command once, do/undo in isolation.",
  ["gui/model.h", "gui/model.cpp", "gui/mainwindow.cpp", "gui/command.h", "gui/elementcontainermodel.cpp"],
  [("involution and inverse commands", "gui/command.h, gui/model.h"), ("undo stack", "gui/mainwindow.cpp")],
  ["serialized model after each step", "proxy signals", "modified flag"])

p("C12", "GUI work during a background analysis is safe and complete",
  "However the analysis thread, the event loop, the auto-save timer and user input interleave, an analysis started in the GUI yields the same results as an uninterrupted analysis of the model at the moment it was started, every automatic save "
  "during it writes exactly that model, and once the analysis ends the window becomes responsive again with the report shown.",
  ["schedules", "histories"],
  "every interleaving of the analysis thread with timer events, automatic saves and user input at any point, and every analysis duration",
  "No test starts an analysis through the GUI; the schedule is up to the operating system.",
  ["gui/mainwindow.cpp", "src/risk_analysis.cc", "src/serialization.cc"],
  [("modal wait dialog during the analysis", "gui/mainwindow.cpp runAnalysis"), ("future watcher signalling the end", "gui/mainwindow.cpp")],
  ["report of the analysis", "files written by auto-save", "event loop progress"])

p("C13", "Damaged input ends in an orderly result, never a crash or hang",
  "Whatever bytes a stored model or project file has been damaged to (truncated, zeroed, duplicated or swapped blocks, flipped bits), the command line tool ends in bounded time with status 0 and a well-formed report or with a non-zero status and an error "
  "message; it never dies from a signal or an internal assertion, and never hangs.",
  ["inputs", "fault_sequences"],
  "every storage-level corruption of every input, project or included file",
  "Tests contain some hundred hand-written invalid files, each intact at the byte level.",
  ["src/xml.cc", "src/initializer.cc", "src/project.cc", "src/scram.cc", "src/ext/version.cc"],
  [("schema validation before construction", "src/initializer.cc"), ("exceptions mapped to exit status", "src/scram.cc")],
  ["process exit status or signal", "standard error"])

p("C14", "Running out of memory never yields a successful wrong result",
  "If any memory allocation fails at any point of a run, the run either still produces exactly the results of the undisturbed run or fails visibly (non-zero status or abnormal termination); it never ends with status 0 and a missing, partial or different report or "
  "serialized model.",
  ["fault_sequences", "inputs"],
  "every single and repeated allocation failure at any point of loading, analysis, reporting and serialization, for every model",
  "No test fails an allocation.",
  ["src/xml.cc", "src/xml_stream.h", "src/initializer.cc", "src/scram.cc", "src/reporter.cc"],
  [("null checks on XML library results", "src/xml.cc, src/xml.h"), ("std::bad_alloc propagation to main, or termination in noexcept code", "src/scram.cc")],
  ["process exit status", "report contents"])

p("C15", "The fault tree generator is reproducible and honours its factors",
  "For the same arguments and seed the fault tree generator writes byte-identical output in every run, independent of hash randomisation, environment and time, and a write error makes it fail visibly. "
  "Its output always is a valid, acyclic, connected single-top fault tree that the analysis tool accepts, with exactly the requested numbers of basic events, house events and CCF groups (and gates when constrained), and probabilities within the requested bounds.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every seed, factor setting, hash seed and write fault",
  "The script tests run a few seeds with default-like factors.",
  ["scripts/fault_tree_generator.py", "scripts/fault_tree.py"],
  [("single seeded pseudo-random source", "scripts/fault_tree_generator.py"), ("factor bookkeeping", "scripts/fault_tree_generator.py")],
  ["generated file", "exit status"])

p("C16", "External libraries are loaded only when allowed, and failures are errors",
  "A model that refers to external libraries never causes a library to be loaded unless external code was explicitly allowed on the command line (and never in the GUI). When allowed, a library or symbol that cannot be loaded or found ends the run with an error and non-zero status, "
  "and when loading succeeds the analysis uses exactly the values the external function returns for the evaluated arguments.",
  ["fault_sequences", "inputs", "configurations"],
  "every model with library and function declarations, with and without permission, and every failure of library or symbol lookup",
  "Tests load one prebuilt library under healthy conditions.",
  ["src/expression/extern.cc", "src/expression/extern.h", "src/initializer.cc", "src/scram.cc", "gui/mainwindow.cpp"],
  [("permission flag checked before library construction", "src/initializer.cc"), ("loader errors turned into model errors", "src/expression/extern.cc, src/expression/extern.h")],
  ["calls to the dynamic loader", "process exit status", "report"])

p("C17", "Log messages stay intact under concurrency and failing log output",
  "Messages logged concurrently from several threads each reach standard error once, complete and on their own line, at exactly the verbosity levels requested, and neither the verbosity level nor a failing standard error ever changes the analysis results, the report or the exit status.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of logging threads, every verbosity level and every fault of the error stream",
  "No test logs from two threads or with a failing standard error.",
  ["src/logger.cc", "src/logger.h", "src/scram.cc"],
  [("message assembled privately and emitted with one stdio call", "src/logger.cc"), ("level check before message construction", "src/logger.h")],
  ["standard error", "report", "process exit status"])

p("C18", "Time curves and SIL metrics match point-by-point analyses over time",
  "With a time step, the reported curve has a point at every multiple of the step below the mission time and one at the mission time, each equal to the total probability of a separate analysis at that mission time; the SIL averages and fractions are the trapezoidal averages and time fractions of that curve, with fractions adding up to at most 1. "
  "Computing the curve changes no other result of the run.",
  ["inputs", "configurations", "histories"],
  "every time-dependent model, mission time, time step, algorithm and approximation",
  "Tests check a few published SIL numbers; no test compares the curve with independent runs.",
  ["src/probability_analysis.cc", "src/probability_analysis.h", "src/reporter.cc", "src/settings.cc"],
  [("mission time stepped and restored during the curve", "src/probability_analysis.cc"), ("integration and partition of the curve", "src/probability_analysis.cc")],
  ["report: curve and safety-integrity-levels elements"])

p("C19", "Common-cause groups expand to the stated factor model",
  "With common-cause analysis on, each group is replaced by independent events for its subsets of members whose probabilities follow the stated model (beta-factor, MGL, alpha-factor or phi-factor) from the group's distribution and factors, every member fails exactly when one of the subset events containing it occurs, "
  "and all results equal those of the explicitly expanded model; with it off, groups have no effect beyond assigning member distributions.",
  ["inputs", "configurations", "histories"],
  "every group size, model, level, factor set and use of the members in a tree, in any analysis history",
  "Tests check a few symmetric groups of three or four members.",
  ["src/ccf_group.cc", "src/ccf_group.h", "src/pdag.cc", "src/model.cc"],
  [("factor-model probability calculation", "src/ccf_group.cc"), ("member substitution while building the graph", "src/pdag.cc")],
  ["report: products and probabilities"])

p("C20", "Results do not depend on how a model is split into files or ordered",
  "Permuting the input files, splitting a model over several files or includes, reordering definitions and nesting declarations, or giving the files through a project file instead of the command line gives the same products, probabilities and importance values (up to element order).",
  ["inputs", "schedules", "configurations"],
  "every delivery order and partition of the definitions of a model over files, includes and the project file",
  "Tests use two or three fixed splits.",
  ["src/initializer.cc", "src/project.cc", "src/xml.cc", "src/scram.cc"],
  [("two-phase definition then resolution", "src/initializer.cc")],
  ["report contents as a set"])

p("C21", "What is accepted in a GUI dialog is what takes effect, and nothing else",
  "Accepting the dialog of a new or existing element, of the model's name or of the analysis settings changes exactly what was entered there: afterwards the named element has the entered name, label, type, flavour, connective, arguments, min number, state, "
  "probability or expression (every number to its last digit), references to a renamed element follow it, and no other element changes. A dialog opened and accepted without changes changes nothing; a rejected one changes nothing; removing an element removes that element only and is refused with a message "
  "exactly while gates refer to it. The accepted settings are those of the next analysis, and the preferences (automatic saving, limit of the history) are in force as shown.",
  ["histories", "inputs"],
  "every sequence of accepted and rejected dialogs over every editable model, mixed with undo, redo, saving, loading and analyses",
  "The GUI tests exercise single commands on proxies; no test drives the dialogs or the main window through a history.",
  ["gui/mainwindow.cpp", "gui/eventdialog.cpp", "gui/namedialog.cpp", "gui/settingsdialog.cpp", "gui/model.cpp"],
  [("editing of an element by the difference between dialog and proxy", "gui/mainwindow.cpp editElement, extract"),
   ("dialog setup from a proxy and accessors", "gui/eventdialog.cpp")],
  ["serialized model and proxies after each dialog", "settings of the analysis"])

# --- properties for which the technique does not apply
p("C22", "Every report accounts for the analysis it belongs to",
  "A report names the quantities that were asked for, and no others, with the algorithm, approximation, limits, mission time, time step, number of trials and seed that analysis really used, whatever was analysed before in the process; it has exactly one result of each requested kind for every analysed target (each top event, and each sequence of each initiating event with an event tree) in every phase. "
  "It gives the model's name, the number of its elements by kind, the elements nothing refers to as warnings, and says when a set of products is empty or the base set or an approximated probability was cut to 1. Its time stamp is the UTC wall-clock time in the run; the calculation times are measured for every target and requested analysis, never negative, and together no longer than the run took on the monotonic clock, whatever jumps the wall clock makes.",
  ["configurations", "histories", "inputs", "schedules"],
  "every model, combination of settings, history of analyses in a process, and behaviour of the clocks",
  "Tests compare a few whole reports with the schema only; none checks what the information section says against what was run, and none runs with a clock that jumps or stands still.",
  ["src/reporter.cc", "src/risk_analysis.cc", "src/settings.cc", "src/settings.h", "src/analysis.h", "src/scram.cc", "src/logger.h"],
  [("calculated quantities deduced from the settings", "src/reporter.cc"), ("model features and unused elements", "src/reporter.cc"), ("calculation time on a steady clock", "src/logger.h"), ("one result per target and phase", "src/risk_analysis.cc")],
  ["report: information and results sections"])

p("P01", "Invalid models and options are rejected, valid ones accepted",
  "Every input that violates the schema or the semantic rules (undefined references, duplicate names, cycles, invalid domains, wrong argument counts) is rejected with the matching error, and every valid one is accepted.",
  ["inputs"], "every model file", "Tests hold a finite set of hand-written invalid files.",
  ["src/initializer.cc", "src/cycle.h", "src/expression.cc", "share/input.rng"], [("schema and semantic validation", "src/initializer.cc")], ["exit status", "error text"])
p("P02", "Expressions evaluate to their mathematical definition with sound intervals",
  "Each built-in expression evaluates to its documented formula and its reported interval contains every value it can take.",
  ["inputs"], "every expression tree and argument values", "Tests sample a few arguments per expression.",
  ["src/expression/exponential.cc", "src/expression/numerical.h", "src/expression/random_deviate.cc"], [("value and interval of each expression class", "src/expression/")], ["event probabilities"])
p("P03", "Option combination rules and precedence are honoured",
  "Command line options override project settings, incompatible options are rejected and dependent options imply each other as documented.",
  ["configurations"], "every combination of options and project settings", "Tests try a few combinations.",
  ["src/settings.cc", "src/scram.cc", "src/project.cc"], [("setters with constraints", "src/settings.cc")], ["exit status", "report header"])
p("P04", "GUI input validators and dialogs accept exactly the legal values",
  "Name, probability, percentage and formula fields of the dialogs accept exactly the values the model allows.",
  ["inputs"], "every text a user can type", "GUI tests try a table of strings.",
  ["gui/validator.cpp", "gui/eventdialog.cpp"], [("regular-expression validators", "gui/validator.cpp")], ["dialog state"])
p("P05", "Diagrams, tables and exports draw what the model contains",
  "The fault-tree diagram, printing, zooming and image export show the elements and structure of the model.",
  ["inputs"], "every model", "Not tested.",
  ["gui/diagram.cpp", "gui/diagramview.cpp", "gui/printable.cpp"], [("graphics scene construction", "gui/diagram.cpp")], ["rendered scene"])
p("P06", "Analysis cost stays within the documented complexity",
  "Preprocessing keeps the graph no larger than necessary and analysis of the benchmark models stays within practical time.",
  ["inputs"], "every model", "Benchmarks sample a few models.",
  ["src/preprocessor.cc", "src/zbdd.cc"], [("preprocessing phases", "src/preprocessor.cc")], ["calculation time"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
