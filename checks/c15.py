"""C15: the fault tree generator is reproducible, honours its factors, and reports write errors."""
import re
import xml.etree.ElementTree as ET

from simlib import harness

PROP = "C15"
EXES = ("core", "gen0", "gen1", "gen2")
CASES = {"quick": 800, "thorough": 30000}
SECONDS = {"quick": 75, "thorough": 900}
LEVEL = "exploration"
RULE = ("seeded generator arguments (sizes, weights, shares of common events, house events, CCF groups, formats); the real script runs in a simulated process again and again "
        "with other string-hash seeds, heap layouts, clocks, process ids, environments and random-engine histories: every output must be the same bytes; the output must be an acyclic "
        "connected fault tree with one top gate, the requested numbers and probabilities, must be accepted by the real analysis tool, and the three output forms must describe the same tree; every write-side call "
        "is failed, cut short or found full: the script must fail visibly or deliver everything; non-trivial: the generator succeeded and its environments were compared")
NEED = {"generated": 1, "environments": 1, "accepted by scram": 1, "CCF groups": 1, "house events": 1, "aralia": 1, "nested": 1, "write faults": 1, "standard output": 1, "K/N": 1, "not": 1, "xor": 1,
        "full output": 1, "short writes": 1, "constrained gates": 1, "rejected": 1}
REAL = ["scripts/fault_tree_generator.py and scripts/fault_tree.py of the working tree, the CPython interpreter with its I/O stack and exit handling", "the command line tool (validation of the output)"]
STUB = ["clocks, entropy, process id, string-hash seed, heap layout and environment of the interpreter", "file system calls (pass-through to a scratch directory with injected faults)"]
ASSUMPTIONS = ["settings with which the generator does not end within the processor limit or fails with an assertion give no output and are skipped"]


def make(rng, tier, index):
    nb = rng.choice([12, 20, 40, 60, 80, 100, 100, 150, 250])
    a = {"num-basic": nb, "seed": rng.choice([0, 1, 123, rng.randrange(10 ** 6)])}
    if rng.random() < 0.6:
        a["num-args"] = rng.choice([2.5, 3, 3, 3.5, 4, 5])
    k = a.get("num-args", 3)
    if rng.random() < 0.7:
        a["weights-g"] = rng.choice([[1], [1, 1], [1, 1, 1], [1, 1, 1, 0.1, 0.1], [1, 1, 0, 0.2, 0], [1, 2, 1, 0, 0.3], [2, 0, 1], [0, 3], [1, 1, 1, 0.5]])
    if rng.random() < 0.6:
        a["common-b"] = rng.choice([0.1, 0.2, 0.3, 0.5])
        a["common-g"] = rng.choice([0.1, 0.2, 0.3, 0.5])
    if rng.random() < 0.4:
        a["parents-b"] = rng.choice([2, 2.5, 3, 5])
        a["parents-g"] = rng.choice([2, 2.5, 3])
    if rng.random() < 0.4:
        a["num-house"] = rng.choice([1, 2, 5])
    if rng.random() < 0.5:
        a["num-ccf"] = rng.choice([1, 2, 5, max(1, int(nb / k) // 2), int(nb / k)])
    if rng.random() < 0.15:
        a["num-gate"] = rng.choice([int(nb * 0.6), nb, int(nb * 1.5)])
    if rng.random() < 0.5:
        lo = rng.choice([0, 0.001, 0.2, 0.5])
        a["min-prob"] = lo
        a["max-prob"] = rng.choice([max(lo, 0.1), max(lo, 0.5), 1, lo])
    if rng.random() < 0.2:
        a["root"] = rng.choice(["top", "R1"])
    if rng.random() < 0.2:
        a["ft-name"] = "Tree"
    if rng.random() < 0.08:  # to be rejected
        a.update(rng.choice([{"num-house": nb}, {"num-ccf": nb}, {"max-prob": 1.5}, {"min-prob": 0.9, "max-prob": 0.1}, {"num-args": 1.5}, {"common-b": 0.95}, {"parents-g": 1}, {"weights-g": [0, 0]}, {"num-basic": 0}]))
    envs = []
    for i in range(3 if tier == "quick" else 5):
        e = {"exe": rng.choice(["gen0", "gen1", "gen2"]), "heap": rng.randrange(1, 1 << 30), "clock.wall": rng.randrange(10 ** 18, 2 * 10 ** 18), "pid": rng.randrange(2, 1 << 22),
             "seed": rng.randrange(1, 1 << 30), "history": rng.randrange(1 << 30), "clock.step": rng.choice([1000, 10 ** 6])}
        if rng.random() < 0.5:
            e["env"] = ["LANG=" + rng.choice(["C", "C.UTF-8", "en_US.UTF-8"]), "HOME=/h%d" % rng.randrange(100), "SEED=%d" % rng.randrange(100)]
        envs.append(e)
    return {"args": a, "to": rng.choice(["file", "file", "stdout"]), "form": rng.choice(["xml", "xml", "xml", "nest", "aralia"]), "envs": envs, "faults": rng.randrange(1 << 30),
            "nfaults": 3 if tier == "quick" else 8}


def argv(case, form=None, to=None):
    a = []
    for k, v in case["args"].items():
        a += ["--" + k] + ([str(x) for x in v] if isinstance(v, list) else [str(v)])
    form = form or case["form"]
    if form != "xml":
        a.append("--" + form)
    if (to or case["to"]) == "file":
        a += ["--out", "out.xml"]
    return a


class Bad(Exception):
    pass


def parse_xml(text):
    """{gate: (op, k, args)}, probabilities, houses, ccf groups; nested NOTs become ('not', arg) pairs."""
    root = ET.fromstring(text)
    t = {"gates": {}, "basic": {}, "house": {}, "ccf": [], "order": [], "name": None}
    if root.tag != "opsa-mef" or [c.tag for c in root] != ["define-fault-tree", "model-data"]:
        raise Bad("unexpected structure: %s" % [c.tag for c in root])
    t["name"] = root[0].get("name")

    def formula(e):
        if e.tag in ("gate", "basic-event", "house-event"):
            return (e.tag, e.get("name"))
        return (e.tag, e.get("min"), [formula(c) for c in e])
    for d in root[0]:
        if d.tag == "define-gate":
            if d.get("name") in t["gates"]:
                raise Bad("gate %s is defined twice" % d.get("name"))
            if len(d) != 1:
                raise Bad("gate with %d formulas" % len(d))
            t["gates"][d.get("name")] = formula(d[0])
            t["order"].append(d.get("name"))
        else:
            t["ccf"].append((d.get("name"), d.get("model"), [x.get("name") for x in d.find("members")], float(d.find("distribution")[0].get("value")),
                             [(int(f.get("level")), float(f[0].get("value"))) for f in d.find("factors")]))
    for d in root[1]:
        which = "basic" if d.tag == "define-basic-event" else "house"
        if d.get("name") in t[which]:
            raise Bad("%s is defined twice" % d.get("name"))
        t[which][d.get("name")] = float(d[0].get("value")) if which == "basic" else d[0].get("value")
    return t


def parse_aralia(text):
    lines = text.split("\n")
    t = {"gates": {}, "basic": {}, "house": {}, "ccf": [], "order": [], "name": lines[0]}
    kinds = {}
    raw = []
    for l in lines[1:]:
        m = re.match(r"^([ps])\((\S+)\) = (\S+)$", l)
        g = re.match(r"^(\S+) := (.*)$", l)
        if m:
            t["basic" if m.group(1) == "p" else "house"][m.group(2)] = float(m.group(3)) if m.group(1) == "p" else m.group(3)
            kinds[m.group(2)] = "basic-event" if m.group(1) == "p" else "house-event"
        elif g:
            raw.append((g.group(1), g.group(2)))
            kinds[g.group(1)] = "gate"
        elif l:
            raise Bad("unexpected line %r" % l)
    for n, f in raw:
        m = re.match(r"^@\((\d+), \[(.*)\]\)$", f)
        k = None
        if m:
            op, k, args = "atleast", m.group(1), m.group(2).split(", ")
        elif f.startswith("~("):
            op, args = "not", [f[2:-1]]
        else:
            op = {"&": "and", "|": "or", "^": "xor"}[re.search(" ([&|^]) ", f).group(1)]
            args = re.split(r" [&|^] ", f[1:-1])
        for x in args:
            if x not in kinds:
                raise Bad("undefined argument %s" % x)
        t["gates"][n] = (op, k, [(kinds[x], x) for x in args])
        t["order"].append(n)
    return t


def refs(f):
    if len(f) == 2:
        return [f]
    return [r for c in f[2] for r in refs(c)]


def judge(t, a, out, form):
    """The statement about the generated tree."""
    gates = t["gates"]
    root = a.get("root", "root")
    if t["name"] != a.get("ft-name", "Autogenerated"):
        raise Bad("fault tree name %s" % t["name"])
    if root not in gates:
        raise Bad("no root gate %s" % root)
    used = {}
    for n, f in gates.items():
        for kind, x in refs(f):
            used.setdefault(kind, {}).setdefault(x, set()).add(n)
    ccf_members = [m for c in t["ccf"] for m in c[2]]
    if len(set(ccf_members)) != len(ccf_members):
        raise Bad("an event in two CCF groups")
    basics = set(t["basic"]) | set(ccf_members)
    if set(t["basic"]) & set(ccf_members):
        raise Bad("an event of a CCF group has a probability of its own")
    for kind, have in (("gate", set(gates)), ("basic-event", basics), ("house-event", set(t["house"]))):
        extra = set(used.get(kind, {})) - have
        if extra:
            raise Bad("undefined %s: %s" % (kind, sorted(extra)[:3]))
        orphans = have - set(used.get(kind, {})) - {root}
        if orphans:
            raise Bad("%s not connected or more than one top: %s" % (kind, sorted(orphans)[:3]))
    if root in used.get("gate", {}):
        raise Bad("the root is an argument")
    state = {}

    def visit(n):
        stack = [(n, iter([x for k, x in refs(gates[n]) if k == "gate"]))]
        state[n] = 1
        while stack:
            g, it = stack[-1]
            for x in it:
                if state.get(x) == 1:
                    raise Bad("cycle through %s" % x)
                if x not in state:
                    state[x] = 1
                    stack.append((x, iter([y for k, y in refs(gates[x]) if k == "gate"])))
                    break
            else:
                state[g] = 2
                stack.pop()
    visit(root)
    if len(state) != len(gates):
        raise Bad("%d of %d gates are not connected to the root" % (len(gates) - len(state), len(gates)))
    pos = {n: i for i, n in enumerate(t["order"])}
    w = a.get("weights-g", [1, 1]) + [0] * 5
    ops = dict(zip(["and", "or", "atleast", "not", "xor"], w))
    for n, f in gates.items():
        for kind, x in refs(f):
            if kind == "gate" and pos[x] < pos[n]:
                raise Bad("not topologically sorted: %s before %s" % (x, n))

        def check(f):
            if len(f) == 2:
                return
            op, k, args = f
            if op not in ops or not ops[op]:
                raise Bad("gate %s of type %s, whose weight is 0" % (n, op))
            if len(set(str(x) for x in args)) != len(args):
                raise Bad("gate %s repeats an argument" % n)
            if op == "not" and len(args) != 1 or op == "xor" and len(args) != 2 or op in ("and", "or") and len(args) < 2 or op == "atleast" and not 2 <= int(k) < len(args):
                raise Bad("gate %s: %s of %d arguments, min %s" % (n, op, len(args), k))
            out.feat({"atleast": "K/N"}.get(op, op))
            for x in args:
                check(x)
        check(f)
    if len(basics) != a["num-basic"]:
        raise Bad("%d basic events, requested %d" % (len(basics), a["num-basic"]))
    if len(t["house"]) != a.get("num-house", 0):
        raise Bad("%d house events, requested %d" % (len(t["house"]), a.get("num-house", 0)))
    if form != "aralia" and len(t["ccf"]) != a.get("num-ccf", 0):
        raise Bad("%d CCF groups, requested %d" % (len(t["ccf"]), a.get("num-ccf", 0)))
    lo, hi = a.get("min-prob", 0.01), a.get("max-prob", 0.1)
    for n, p in list(t["basic"].items()) + [(c[0], c[3]) for c in t["ccf"]]:
        if not lo <= p <= hi:
            raise Bad("probability %s of %s is not in [%s, %s]" % (p, n, lo, hi))
    for h, s in t["house"].items():
        if s not in ("true", "false"):
            raise Bad("state %s of %s" % (s, h))
    for n, model, members, p, factors in t["ccf"]:
        if model != "MGL" or len(members) < 2 or [l for l, _ in factors] != list(range(2, 2 + len(factors))) or not 1 <= len(factors) < len(members):
            raise Bad("CCF group %s: %s with %d members and levels %s" % (n, model, len(members), factors))
        if not all(0 < f <= 1 for _, f in factors):
            raise Bad("CCF group %s: factors %s" % (n, factors))


def canon(t):
    def c(f):
        return f if len(f) == 2 else (f[0], f[1], sorted((c(x) for x in f[2]), key=str))
    gates = dict(t["gates"])
    return {n: c(f) for n, f in gates.items()}


def flatten(t):
    """The gates of a nested tree with every NOT taken as a formula."""
    def c(f, nest):
        if len(f) == 2:
            if nest and f[0] == "gate" and t["gates"][f[1]][0] == "not":
                return c(t["gates"][f[1]], False)
            return f
        return (f[0], f[1], sorted((c(x, nest and f[0] != "not") for x in f[2]), key=str))
    return {n: c(f, True) for n, f in t["gates"].items() if f[0] != "not"}


def describe(case):
    return " ".join(argv(case))


def get(res, case, to=None):
    return res.files.get("out.xml", b"") if (to or case["to"]) == "file" else res.files.get("stdout", b"")


def run(ctx, case):
    import random
    out = harness.Out()
    a = case["args"]
    base_plan = {"arg": argv(case), "heap": 0, "cpu_s": 2, "mem_mb": 500}
    base = ctx.sim(base_plan, {}, exe="gen0")
    out.key = describe(case)
    if base.signal is not None:
        out.skipped = "no end within the limit"
        return out
    err = base.files.get("stderr", b"").decode("utf-8", "replace")
    if base.rc == 1 and b"Error in factors" in base.files.get("stdout", b""):
        out.feat("rejected")
    elif base.rc != 0:
        out.skipped = "failed: " + err.strip().split("\n")[-1][:40]
        if base.rc == 1 and "Error" not in err and "error" not in err:
            out.bad("silent-failure", "exit status 1 without a message: %s" % describe(case))
    want = (base.rc, get(base, case))
    # Other environments.
    for i, e in enumerate(case["envs"]):
        plan = dict(e)
        exe = plan.pop("exe")
        plan.update(arg=argv(case), cpu_s=10, mem_mb=500)
        res = ctx.sim(plan, {}, exe=exe)
        if res.signal is not None or (res.rc, get(res, case)) != want:
            x, y = want[1].split(b"\n"), get(res, case).split(b"\n")
            d = [(p, q) for p, q in zip(x + [b""] * len(y), y + [b""] * len(x)) if p != q][:1]
            out.bad("not-reproducible", "%s\nends with %s instead of %s in environment %s; first different line: %s" % (describe(case), res.end, base.end, e, d))
            return out
        out.feat("environments")
    if base.rc != 0:
        return out
    text = want[1].decode("utf-8", "replace")
    # The other destination gets the same.
    other = "stdout" if case["to"] == "file" else "file"
    if case["faults"] % 4 == 0:
        res = ctx.sim(dict(base_plan, arg=argv(case, to=other)), {}, exe="gen1")
        if res.rc != 0 or get(res, case, other) != want[1]:
            out.bad("destination", "%s: standard output and file differ (%s)" % (describe(case), res.end))
            return out
    try:
        t = parse_aralia(text) if case["form"] == "aralia" else parse_xml(text)
        judge(t, a, out, case["form"])
    except (Bad, ET.ParseError, ValueError, KeyError, AttributeError, IndexError) as e:
        out.bad("invalid-tree", "%s\n%s: %s" % (describe(case), type(e).__name__, e))
        return out
    out.feat("generated")
    out.nontrivial = True
    if case["form"] != "xml":
        out.feat({"nest": "nested"}.get(case["form"], case["form"]))
        res = ctx.sim(dict(base_plan, arg=argv(case, form="xml")), {}, exe="gen0")
        try:
            x = parse_xml(get(res, case).decode())
        except (Bad, ET.ParseError) as e:
            out.bad("invalid-tree", "%s (as XML): %s" % (describe(case), e))
            return out
        if case["form"] == "aralia":
            same = canon(x) == canon(t) and x["house"] == t["house"] and all(t["basic"].get(k) == v for k, v in x["basic"].items())
        else:
            same = flatten(x) == flatten(t) and x["house"] == t["house"] and x["basic"] == t["basic"] and x["ccf"] == t["ccf"]
        if not same:
            out.bad("forms-differ", "%s: not the tree of the XML form" % describe(case))
            return out
    if t["ccf"]:
        out.feat("CCF groups")
    if t["house"]:
        out.feat("house events")
    if "num-gate" in a:
        out.feat("constrained gates")
    if case["to"] == "stdout":
        out.feat("standard output")
    if case["form"] != "aralia":
        v = ctx.sim({"argv": ["scram", "--validate", "m.xml"], "seed": 1}, {"m.xml": want[1]})
        if v.rc != 0:
            out.bad("not-accepted", "%s\nscram ends with %s\n%s" % (describe(case), v.end, v.files.get("stderr", b"").decode("utf-8", "replace")[-300:]))
            return out
        out.feat("accepted by scram")
    # Write faults.
    r = random.Random(case["faults"])
    path = "out.xml" if case["to"] == "file" else "stdout"
    writes = sum(1 for l in base.trace.split("\n") if l.startswith("write %s " % path))
    for _ in range(case["nfaults"]):
        plan = dict(base_plan)
        kind = r.choice(["write", "write", "write+", "open_w", "close", "short", "capacity", "full", "closed"])
        if kind in ("open_w", "close") and case["to"] != "file" or kind in ("full", "closed") and case["to"] != "stdout":
            kind = "write"
        if kind == "capacity":
            plan["disk.capacity"] = r.randrange(len(want[1]))
        elif kind in ("full", "closed"):
            plan["stdout"] = kind
        elif kind == "short":
            plan["fault"] = ["write|%s|%d|short|%d" % (path, 1 + i, r.choice([1, 10, 1000])) for i in range(4)]
        else:
            nth = r.randint(1, max(writes, 1)) if kind.startswith("write") else 1
            plan["fault"] = ["%s|%s|%d%s|%s|" % (kind.rstrip("+"), path, nth, "+" if kind.endswith("+") else "", r.choice(["EIO", "ENOSPC", "EDQUOT"]) if kind != "open_w" else r.choice(["EACCES", "EMFILE", "ENOSPC"]))]
        res = ctx.sim(plan, {}, exe=r.choice(["gen0", "gen1"]))
        whole = res.rc == 0 and get(res, case) == want[1]
        what = "%s with %s" % (describe(case), {k: v for k, v in plan.items() if k in ("fault", "disk.capacity", "stdout")})
        out.feat({"short": "short writes", "capacity": "full output", "full": "full output", "closed": "closed output"}.get(kind, "write faults"))
        if kind == "short":
            if not whole:
                out.bad("short-write", "%s: %s" % (what, res.end))
                return out
        elif res.rc == 0 and (kind in ("full", "closed") or get(res, case) != want[1] or any(k.startswith("fault_close") for k in res.counters)):
            out.bad("silent-write-error", "%s: exit status 0, %d of %d bytes arrived" % (what, len(get(res, case)), len(want[1])))
            return out
        elif res.signal is not None:
            out.bad("write-error-crash", "%s: %s" % (what, res.end))
            return out
    out.sample = {"arguments": describe(case), "gates": len(t["gates"]), "environments": len(case["envs"])}
    return out


def shrink(case):
    for i in range(len(case["envs"])):
        c = dict(case)
        c["envs"] = case["envs"][:i] + case["envs"][i + 1:]
        yield c
    for i, e in enumerate(case["envs"]):
        for k in e:
            if k not in ("exe", "seed"):
                c = dict(case)
                c["envs"] = list(case["envs"])
                c["envs"][i] = {x: v for x, v in e.items() if x != k}
                yield c
    for k in case["args"]:
        if k not in ("num-basic", "seed"):
            c = dict(case)
            c["args"] = {x: v for x, v in case["args"].items() if x != k}
            yield c
    for n in (12, 20, 40):
        if n < case["args"]["num-basic"]:
            c = dict(case)
            c["args"] = dict(case["args"], **{"num-basic": n})
            yield c
    if case["nfaults"] > 1:
        c = dict(case)
        c["nfaults"] = 1
        yield c
