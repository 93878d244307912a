"""C13: damaged input ends in an orderly result, never a crash or hang."""
import random
import re
import xml.etree.ElementTree as ET

from checks import c01, c03, c07
from simlib import analysis as A
from simlib import gen, harness, layout, model as M, report

PROP = "C13"
CASES = {"quick": 4500, "thorough": 200000}
SECONDS = {"quick": 50, "thorough": 1500}
LEVEL = "fault_injection"
RULE = ("a case is one seeded model (every construct, several files, includes, project) whose stored files are damaged 12 times each in seeded ways - truncated, "
        "blocks zeroed, lost, duplicated, swapped or taken from another file, bits flipped, bytes overwritten, and damage that keeps the XML well-formed "
        "(elements removed, duplicated, moved, values exchanged, expressions replaced by others over extreme numbers) - and given to the command line tool; every run must end by itself with status 0 and a "
        "well-formed report or with another status and an error message; non-trivial: damage that the XML parser accepts")
NEED = {"accepted": 1, "rejected as XML": 1, "rejected by the schema": 1, "rejected as a model": 1, "damaged project": 1, "damaged include": 1, "well-formed damage": 1,
        "event trees": 1, "common cause": 1, "alignments": 1, "substitutions": 1}


def make(rng, tier, index):
    kind = rng.choice(["tree", "tree", "ets", "ets", "ccf", "aligns", "unc", "subs", "mix"])
    mix = kind == "mix"
    g = gen.Gen(rng, nvars=(2, 6), ngates=(1, 6), ets=mix or kind == "ets", ccf=mix or kind == "ccf", aligns=mix or kind == "aligns", deviates=mix or kind == "unc",
                subs=kind == "subs", multi_ft=rng.random() < 0.4, params=rng.random() < 0.5, labels=rng.random() < 0.3)
    m = g.model()
    o = {"algorithm": rng.choice(A.ALGOS)}
    if kind == "subs":
        o["approx"] = "rare-event"
    if rng.random() < 0.8:
        o["prob"] = 1
        if rng.random() < 0.4:
            o["imp"] = 1
        if kind == "unc":
            o["unc"], o["trials"] = 1, 5
        if rng.random() < 0.2:
            o["mission"], o["step"], o["sil"] = 100, 40, 1
    if m.get("ccfs"):
        o["ccf"] = 1
    lay = layout.random_layout(rng)
    lay["mixed"] = False
    return {"model": m, "opt": o, "env": A.env_plan(rng), "style": rng.choice([0, 1]), "layout": lay, "pad": 0, "indent": True,
            "damage": [[rng.choice(["main", "main", "main", "include", "project"]), rng.randrange(1 << 30), rng.choice([1, 1, 1, 2, 3])] for _ in range(12)]}


RAW = ["truncate", "zero", "lose", "dup", "swap", "foreign", "flip", "flip", "byte", "byte", "digit", "digit", "insert"]
TREE = ["del", "del", "dupel", "move", "rename", "attr", "attr", "delattr", "nudge", "text", "swapel", "retag", "expr", "expr"]
VALUES = ["", " ", "0", "-1", "1", "1e999", "-0", "nan", "inf", "1e-320", "true", "false", "99999999999999999999", "0x10", "a.b", ".", "a", "G1", "B1", "B2", "FT1", "FT1.G1",
          "public", "private", "and", "bool", "2.5", "+3", "\u00e9", "a b", "a-b", "-a", "\t", "1 2", "beta-factor", "2147483648", "1e-400", "ET1", "S"]


def raw(r, data, other):
    if not data:
        return data
    b = bytearray(data)
    k = r.choice(RAW)
    n = len(b)
    at = r.randrange(n)
    ln = min(n - at, r.choice([1, 2, 8, 16, 64, 512, 4096]))
    if k == "truncate":
        return bytes(b[:at])
    if k == "zero":
        b[at:at + ln] = b"\0" * ln
    elif k == "lose":
        del b[at:at + ln]
    elif k == "dup":
        b[at:at] = b[at:at + ln]
    elif k == "swap":
        at2 = r.randrange(n)
        x, y = b[at:at + ln], b[at2:at2 + ln]
        b[at:at + len(y)] = y
        b[at2:at2 + len(x)] = x
    elif k == "foreign":
        a2 = r.randrange(max(1, len(other)))
        b[at:at + ln] = other[a2:a2 + ln]
    elif k == "flip":
        for _ in range(r.choice([1, 1, 3])):
            b[r.randrange(n)] ^= 1 << r.randrange(8)
    elif k == "byte":
        b[at] = r.choice([r.randrange(256), 0x3c, 0x3e, 0x22, 0x26, 0x2f, 0x20, 0x30, 0x39, 0x2e, 0x2d])
    elif k == "digit":
        ds = [i for i in range(n) if 0x30 <= b[i] <= 0x39]
        if ds:
            b[r.choice(ds)] = r.choice(b"0123456789.-e")
    else:
        b[at:at] = r.choice([b"<", b"&", b"&#0;", b"]]>", b"<!--", b"<![CDATA[x]]>", b"<![CDATA[1]]>", b"<?x?>", b"\xff", b"<!DOCTYPE a>", b"&lt;", b"</opsa-mef>", b'""'])
    return bytes(b)


EDGE = ["0", "1", "-1", "0.5", "2", "1e308", "1e-308", "1e-320", "-1e308", "0.999999999999", "1e9", "-0.0", "3", "1e-9", "100"]
UNARY = ["neg", "abs", "acos", "asin", "atan", "cos", "sin", "tan", "cosh", "sinh", "tanh", "exp", "log", "log10", "sqrt", "ceil", "floor", "not"]
ARITY = {"sub": (2, 3), "add": (2, 3), "mul": (2, 3), "div": (2, 3), "mod": (2, 2), "pow": (2, 2), "min": (2, 3), "max": (2, 3), "mean": (2, 3), "df": (2, 2), "eq": (2, 2), "lt": (2, 2), "geq": (2, 2),
         "and": (2, 2), "or": (2, 2), "ite": (3, 3), "exponential": (2, 2), "GLM": (4, 4), "Weibull": (4, 4), "uniform-deviate": (2, 2), "normal-deviate": (2, 2), "lognormal-deviate": (2, 3),
         "gamma-deviate": (2, 2), "beta-deviate": (2, 2), "periodic-test": (4, 5)}
EXPR = set(UNARY) | set(ARITY) | {"float", "int", "bool", "parameter", "system-mission-time", "pi", "switch", "histogram"}


def expr(r, names, depth):
    if depth == 0 or r.random() < 0.25:
        k = r.random()
        if k < 0.15:
            return ET.Element("system-mission-time")
        if k < 0.3 and names:
            return ET.Element("parameter", name=r.choice(names))
        return ET.Element("float", value=r.choice(EDGE) if r.random() < 0.6 else str(round(r.random(), 3)))
    if r.random() < 0.3:
        tag, n = r.choice(UNARY), 1
    elif r.random() < 0.08:
        e = ET.Element("histogram")
        e.append(expr(r, names, depth - 1))
        for _ in range(r.randint(1, 2)):
            b = ET.SubElement(e, "bin")
            b.extend([expr(r, names, depth - 1), expr(r, names, depth - 1)])
        return e
    else:
        tag = r.choice(sorted(ARITY))
        n = r.randint(*ARITY[tag])
    e = ET.Element(tag)
    e.extend([expr(r, names, depth - 1) for _ in range(n)])
    if r.random() < 0.5 and tag not in ("min", "max"):  # keep it a probability more often
        m = ET.Element("min")
        z = ET.SubElement(m, "max")
        z.extend([e, ET.Element("float", value="0")])
        m.append(ET.Element("float", value="1"))
        return m
    return e


ET.register_namespace("xi", "http://www.w3.org/2001/XInclude")


def tree(r, data):
    try:
        root = ET.fromstring(data)
    except ET.ParseError:
        return data
    parents = {c: p for p in root.iter() for c in p}
    els = [e for e in root.iter() if e is not root]
    if not els:
        return data
    k = r.choice(TREE)
    bytag = {}
    for x in els:
        bytag.setdefault(x.tag, []).append(x)

    def pick(cand):  # rare kinds of elements as often as the frequent ones
        if r.random() < 0.5:
            tag = r.choice(sorted({x.tag for x in cand}))
            cand = [x for x in cand if x.tag == tag]
        return r.choice(cand)

    e = pick(els)
    p = parents[e]
    if k == "del":
        p.remove(e)
    elif k == "dupel":
        p.insert(list(p).index(e), ET.fromstring(ET.tostring(e)))
    elif k == "move":
        q = r.choice([x for x in root.iter()])
        c = ET.fromstring(ET.tostring(e))
        if r.random() < 0.5:
            p.remove(e)
        q.insert(r.randrange(len(q) + 1), c)
    elif k == "rename":
        names = [x.get("name") for x in els if x.get("name")]
        if e.get("name") and names:
            e.set("name", r.choice(names))
    elif k == "attr":
        cand = [x for x in els if x.attrib]
        if cand:
            e = pick(cand)
            e.set(r.choice(list(e.attrib)), r.choice(VALUES))
    elif k == "nudge":
        cand = [(x, a) for x in els for a, v in x.attrib.items() if re.fullmatch(r"-?\d{1,6}(\.0)?", v)]
        if cand:
            tags = sorted({x.tag for x, _ in cand})
            t = r.choice(tags)
            e, a = r.choice([(x, a) for x, a in cand if x.tag == t])
            v = e.get(a)
            e.set(a, str((int(v) if "." not in v else float(v)) + r.choice([-2, -1, 1, 1, 2])))
    elif k == "delattr":
        cand = [x for x in els if x.attrib]
        if cand:
            e = pick(cand)
            del e.attrib[r.choice(list(e.attrib))]
    elif k == "text":
        e.text = r.choice(VALUES + ["x"])
        if r.random() < 0.2:
            e.insert(0, ET.Comment("c"))
            e[0].tail = r.choice(VALUES)
    elif k == "expr":
        cand = [x for x in els if x.tag in EXPR and parents[x].tag not in ("formula", "not", "and", "or", "define-gate")]
        if cand:
            e = r.choice(cand)
            p = parents[e]
            i = list(p).index(e)
            p.remove(e)
            p.insert(i, expr(r, [x.get("name") for x in els if x.tag == "define-parameter" and x.get("name")], r.choice([1, 2, 2, 3])))
    elif k == "swapel":
        f = r.choice(els)
        e.tag, f.tag = f.tag, e.tag
    else:
        e.tag = r.choice(els).tag
    return b'<?xml version="1.0"?>\n' + ET.tostring(root)


def damaged(files, ks, d):
    if isinstance(d, dict):  # minimised
        return "main", d["name"], d["data"].encode("latin-1"), False
    what, seed, times = d
    r = random.Random(seed)
    names = ks[what] or ks["main"]
    what = what if ks[what] else "main"
    name = r.choice(names)
    data = files[name].encode()
    other = files[r.choice(sorted(x for x in files if isinstance(files[x], str)))].encode()
    soft = r.random() < 0.6
    for _ in range(times):
        data = tree(r, data) if soft else raw(r, data, other)
    return what, name, data, soft


def heavy(data):
    """Whether a damaged project asks for an amount of work that nobody can wait for."""
    try:
        lim = ET.fromstring(data).find("options/limits")
        v = {e.tag: float(e.text) for e in lim}
        return (v.get("mission-time", 8760) / (v.get("time-step") or 1e9) > 1e5 or v.get("number-of-trials", 0) > 1e5 or v.get("number-of-quantiles", 0) > 1e5
                or v.get("number-of-bins", 0) > 1e5)
    except (ET.ParseError, TypeError, ValueError):
        return False


def endless(data, mission):
    """Whether a damaged model asks for a simulation of test periods without practical end."""
    try:
        for e in ET.fromstring(data).iter("periodic-test"):
            if len(e) >= 10 and not (e[3].tag == "float" and float(e[3].get("value")) * 1e5 > mission):
                return True
    except (ET.ParseError, TypeError, ValueError):
        pass
    return False


def run(ctx, case):
    out = harness.Out()
    files, mains, args = c03.files_of(case)
    ks = c03.kinds(files, mains)
    keys = []
    for d in case["damage"]:
        what, name, data, soft = damaged(files, ks, d)
        if data == files[name].encode():
            continue
        plan = dict(case["env"])
        plan["argv"] = args
        plan["cpu_s"] = 20
        if what == "project" and heavy(data):
            out.feat("work without bound requested")
            continue
        res = ctx.sim(plan, dict(files, **{name: data}))
        err = res.files.get("stderr", b"").decode("utf-8", "replace")[-500:]
        where = "damaged %s (%s)" % (name, d)
        if res.end in ("signal 9", "timeout") and endless(data, max(8760, case["opt"].get("mission") or 0)):
            out.feat("work without bound requested")
            continue
        if res.rc is None or res.rc in (91, 92, 97):
            sig, err = A.abnormal(res)
            out.bad(sig, "%s: the run ended with %s\n%s\n%s" % (where, res.end, err, data.decode("utf-8", "replace")[:3000]))
            continue
        if res.rc == 0:
            try:
                report.parse(res.files["out.xml"])
            except (report.BadReport, KeyError) as e:
                out.bad("bad-report", "%s: exit 0 with a bad report: %s" % (where, e))
            out.feat("accepted")
        else:
            if not err.strip():
                out.bad("no-error-message", "%s: exit %d without an error message" % (where, res.rc))
            t = err
            out.feat("rejected as XML" if "ParseError" in t or "XIncludeError" in t else "rejected by the schema" if "xml::ValidityError" in t else "rejected as a model")
            if "xml::ParseError" not in t:
                out.nontrivial = True
        if res.rc == 0:
            out.nontrivial = True
        out.feat({"main": "damaged main file", "include": "damaged include", "project": "damaged project"}[what])
        if soft:
            out.feat("well-formed damage")
        keys.append((res.end, err[:200]))
    m = case["model"]
    for k, n in (("ets", "event trees"), ("ccfs", "common cause"), ("aligns", "alignments"), ("subs", "substitutions")):
        if m.get(k):
            out.feat(n)
    out.key = str(keys)
    out.sample = {"options": A.opts_text(case["opt"]), "ends": [k[0] for k in keys][:6]}
    return out


def shrink(case):
    for i in range(len(case["damage"])):
        if len(case["damage"]) > 1:
            yield dict(case, damage=case["damage"][:i] + case["damage"][i + 1:])
    if len(case["damage"]) == 1:
        d = case["damage"][0]
        if not isinstance(d, dict):
            files, mains, args = c03.files_of(case)
            what, name, data, soft = damaged(files, c03.kinds(files, mains), d)
            yield dict(case, damage=[{"name": name, "data": data.decode("latin-1")}])
        else:
            try:
                root = ET.fromstring(d["data"].encode("latin-1"))
                n = sum(1 for _ in root.iter())
            except ET.ParseError:
                n = 0
            for j in range(1, n):
                root = ET.fromstring(d["data"].encode("latin-1"))
                parents = {c: p for p in root.iter() for c in p}
                e = list(root.iter())[j]
                parents[e].remove(e)
                yield dict(case, damage=[{"name": d["name"], "data": ET.tostring(root).decode("latin-1")}])
    for i, d in enumerate(case["damage"]):
        if not isinstance(d, dict) and d[2] > 1:
            yield dict(case, damage=case["damage"][:i] + [[d[0], d[1], d[2] - 1]] + case["damage"][i + 1:])
    for k in list(case["env"]):
        if k != "seed":
            yield dict(case, env={x: v for x, v in case["env"].items() if x != k})
