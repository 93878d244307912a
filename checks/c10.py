"""C10: serializing and reloading preserves the model, repeatedly."""
import math
import struct
import xml.etree.ElementTree as ET

from checks import c04, c07
from simlib import analysis as A
from simlib import gen, harness, layout, model as M, report

PROP = "C10"
CASES = {"quick": 30000, "thorough": 250000}
SECONDS = {"quick": 50, "thorough": 1200}
LEVEL = "exploration"
RULE = ("a case is one seeded model of the constructs the GUI edits (all connectives it offers, complemented and constant arguments, constants with every bit pattern, "
        "exponentials over a constant or the mission time, flavours, labels and attributes with special characters) read from one or several files, serialized and "
        "reloaded two to four times in one simulated process (short writes and reads, adversarial heap, analyses in between, failing writes that are retried, "
        "library call or command line); every document must describe the model the generator made (read by an independent XML parser), every generation after the first "
        "must be the same text and every analysis must give the report of the original; non-trivial: at least two generations were compared")
NEED = {"exponential over mission time": 1, "constant argument": 1, "special characters": 1, "long number": 1, "atleast": 1, "xor": 1, "complemented argument": 1, "flavour": 1,
        "house event": 1, "several fault trees": 1, "retried after a failed write": 1, "no expression": 1, "command line": 1, "several files": 1, "attributes of the model": 1}

TEXTS = ["label", "a < b & c", "quo\"te 'x'", "\u00fcml\u00e4ut \u65e5\u672c", "two  spaces", ">]]>", "100%", "%s%n", "tab\there", "line\nline", "cr\rlf\r\nx", "&amp;", "&#10;",
         "<!-- x -->", "\U0001f600", "x" * 300, "a\u00a0b", "-", "0", "\\n", "<![CDATA[x]]>", "a\n\n  b", "\u2028", "'", "\"", "<", "&"]


def number(r, top):
    k = r.random()
    if k < 0.25:
        x = r.random()
    elif k < 0.4:
        x = r.choice([0.0, 1.0, 0.1, 0.5, 1e-5, 0.123456789, 1 / 3, 0.30000000000000004, 1 - 2 ** -53, 2 ** -53])
    elif k < 0.6:
        x = 10 ** r.uniform(-12, 0)
    elif k < 0.7:
        x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(62)))[0]
        x = x if 0 <= x <= 1 else r.random()
    elif k < 0.8:
        x = r.choice([5e-324, 2.2250738585072014e-308, 1e-300, 1e-100])
    else:
        x = round(r.random(), r.randint(1, 12))
    if top > 1 and r.random() < 0.5:
        x = r.choice([x * top, float(r.randrange(1, 10 ** 7)), 1234567.891, 8760.0, 1e6, 1e15 + 1, 123456789012.0])
    return min(x, top)


def decorate(r, m):
    for b in m["basics"]:
        k = r.random()
        if k < 0.5:
            b["e"] = ["c", number(r, 1)]
        elif k < 0.75:
            b["e"] = ["exp", ["c", max(number(r, 1), 1e-300)], ["t"]]
        elif k < 0.9:
            b["e"] = ["exp", ["c", max(number(r, 1), 1e-300)], ["c", number(r, 1e6)]]
        elif k < 0.95:
            b["e"] = r.choice([["i", 0], ["i", 1], ["bool", True], ["bool", False], ["exp", ["c", 1e-3], ["i", r.choice([1, 8760, 2147483647])]]])
        if r.random() < 0.2:
            b["attrs"] = [["flavor", r.choice(["undeveloped", "conditional"]), None]]
    if r.random() < 0.15:
        for b in m["basics"]:
            if r.random() < 0.5:
                b["e"] = None  # no probability analysis then
    if r.random() < 0.4:
        for g in m["gates"]:
            f = g["f"]
            if f[0] in ("and", "or", "nand", "nor", "atleast") and r.random() < 0.3:
                f[-1].insert(r.randrange(len(f[-1]) + 1), ["c", r.random() < 0.5])
            elif f[0] == "null" and r.random() < 0.1:
                f[-1][0] = ["c", r.random() < 0.5]
    if r.random() < 0.6:
        els = m["gates"] + m["basics"] + m["houses"] + [m]
        m["ft_extra"] = {}
        for ft in m["fts"]:
            m["ft_extra"][ft] = [{}]
            els.append(m["ft_extra"][ft][0])
        for el in els:
            if r.random() < 0.25:
                el["label"] = r.choice(TEXTS) + (r.choice(TEXTS) if r.random() < 0.3 else "")
            if r.random() < 0.25:
                el["attrs"] = el.get("attrs", []) + [["at%d" % i, r.choice(TEXTS + ["v"]), r.choice([None, "text", "int", "a & b"])] for i in range(r.randint(1, 3))]


def make(rng, tier, index):
    g = gen.Gen(rng, serial=True, nvars=(1, 9), ngates=(1, 9), labels=False, multi_ft=rng.random() < 0.4, houses=rng.random() < 0.5, multi_top=rng.random() < 0.3)
    m = g.model()
    decorate(rng, m)
    opts = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        o = {"algorithm": rng.choice(A.ALGOS)}
        if all(b["e"] for b in m["basics"]):
            o["prob"] = 1
            if rng.random() < 0.4:
                o["imp"] = 1
            if rng.random() < 0.4:
                o["mission"] = rng.choice([1, 100, 1234.5])
        opts.append(o)
    lay = layout.random_layout(rng) if rng.random() < 0.3 else None
    if lay:
        lay["project"], lay["mixed"], lay["linked"] = 0, False, False
    return {"model": m, "opts": opts, "env": A.env_plan(rng), "style": rng.choice([0, 1, 3]), "rounds": rng.randint(2, 4), "layout": lay,
            "early": [rng.random() < 0.5 for _ in range(4)], "fail": [rng.choice([None, None, None, "write", "open_w", "close"]) for _ in range(4)],
            "cli": rng.random() < 0.3}


def literal(a):
    return ("const", bool(a[1])) if a[0] == "c" else (a[1], bool(a[2]))


def formula(f):
    op, args = f[0], [literal(a) for a in f[-1]]
    if op == "null":
        if args[0][0] != "const" and args[0][1]:
            return ("not", (args[0][0], False))
        return ("null", args[0])
    return (op, f[1] if op == "atleast" else None) + tuple(sorted(args, key=str))


def expression(e):
    if e is None:
        return None
    if e[0] in ("c", "i", "bool"):
        return struct.pack("<d", float(e[1]) + 0.0).hex()
    if e[0] == "t":
        return "mission time"
    return ("exponential",) + tuple(expression(x) for x in e[1:])


def extra(el):
    return (el.get("label", "").strip(" "), tuple(sorted((n, v.strip(" "), t or "") for n, v, t in el.get("attrs", []))))


def wanted(m):
    return {"name": m.get("name"), "extra": extra(m), "trees": {ft: extra((m.get("ft_extra", {}).get(ft) or [{}])[0]) for ft in m["fts"]},
            "gates": {g["n"]: (g["path"][0], extra(g), formula(g["f"])) for g in m["gates"]},
            "basics": {b["n"]: (extra(b), expression(b["e"])) for b in m["basics"]},
            "houses": {h["n"]: (extra(h), bool(h["s"])) for h in m["houses"]}}


class Bad(Exception):
    pass


def x_extra(e):
    label = e.find("label")
    at = e.find("attributes")
    return ((label.text or "").strip(" ") if label is not None else "",
            tuple(sorted((a.get("name"), a.get("value").strip(" "), a.get("type") or "") for a in at)) if at is not None else ())


def x_literal(e):
    if e.tag == "constant":
        return ("const", e.get("value") == "true")
    if e.tag == "not":
        (c,) = list(e)
        n, neg = x_literal(c)
        return (n, not neg)
    if e.tag not in ("event", "gate", "basic-event", "house-event"):
        raise Bad("an argument <%s>" % e.tag)
    return (e.get("name"), False)


def x_formula(e):
    if e.tag in ("event", "gate", "basic-event", "house-event", "constant"):
        return ("null", x_literal(e))
    if e.tag == "not":
        return ("not", x_literal(list(e)[0]))
    return (e.tag, int(e.get("min")) if e.tag == "atleast" else None) + tuple(sorted([x_literal(c) for c in e], key=str))


def x_expression(e):
    if e.tag in ("float", "int"):
        return struct.pack("<d", float(e.get("value")) + 0.0).hex()
    if e.tag == "system-mission-time":
        return "mission time"
    return (e.tag,) + tuple(x_expression(c) for c in e)


def described(text):
    root = ET.fromstring(text)
    if root.tag != "opsa-mef":
        raise Bad("root element " + root.tag)
    d = {"name": root.get("name"), "extra": x_extra(root), "trees": {}, "gates": {}, "basics": {}, "houses": {}}

    def once(kind, name, value):
        if name in d[kind]:
            raise Bad("%s %s twice" % (kind, name))
        d[kind][name] = value
    for top in root:
        if top.tag in ("label", "attributes"):
            continue
        if top.tag == "define-fault-tree":
            once("trees", top.get("name"), x_extra(top))
        elif top.tag != "model-data":
            raise Bad("element " + top.tag)
        for e in top:
            rest = [c for c in e if c.tag not in ("label", "attributes")]
            if e.tag == "define-gate":
                once("gates", e.get("name"), (top.get("name"), x_extra(e), x_formula(rest[0])))
            elif e.tag == "define-basic-event":
                once("basics", e.get("name"), (x_extra(e), x_expression(rest[0]) if rest else None))
            elif e.tag == "define-house-event":
                once("houses", e.get("name"), (x_extra(e), rest[0].get("value") == "true"))
            elif e.tag not in ("label", "attributes"):
                raise Bad("element " + e.tag)
    return d


def run(ctx, case):
    out = harness.Out()
    m = case["model"]
    if case["layout"]:
        files, mains = layout.deliver(m, case["layout"], case["style"])
    else:
        files, mains = {"m.xml": M.to_xml(m, case["style"])}, ["m.xml"]
    plan = dict(case["env"])
    o0 = A.opts_text(case["opts"][0]) if case["opts"] else "algorithm=bdd"
    ops, docs, reps, faults, failed = [], [], [], [], []
    src = "|".join(mains)
    for k in range(case["rounds"]):
        ops.append("load|m%d|%s||%s" % (k, o0, src))

        def analyses():
            for i, o in enumerate(case["opts"]):
                ops.extend(["analyze|a%d_%d|m%d|%s" % (k, i, k, A.opts_text(o)), "report|a%d_%d|r%d_%d.xml" % (k, i, k, i)])
                reps.append((len(ops) - 1, k, i, "r%d_%d.xml" % (k, i)))
        if case["early"][k]:
            analyses()
        dest = "s%d.xml" % k
        if case["cli"] and k == 0:
            ops.append("|".join(["cli", "scram", "--serialize", "--bdd"] + src.split("|")))
        else:
            if case["fail"][k]:
                faults.append("%s|%s|1|%s|" % (case["fail"][k], dest, "EIO"))
                failed.append(len(ops))
                ops.append("serialize|m%d|%s" % (k, dest))
            ops.append("serialize|m%d|%s" % (k, dest))
            docs.append((len(ops) - 1, k, dest))
        if not case["early"][k]:
            analyses()
        if not (case["cli"] and k == 0):
            src = dest
    plan["op"] = ops
    if faults:
        plan["fault"] = faults
    res = ctx.sim(plan, files)
    if res.end != "exit 0":
        sig, err = A.abnormal(res)
        out.bad(sig, "the run ended with %s\n%s" % (res.end, err))
        return out
    r = A.op_results(res)
    err = res.files.get("stderr", b"").decode("utf-8", "replace")[-600:]
    if r.get(0) != "ok":
        out.bad("valid-model-rejected", "loading the model returned %s" % r.get(0))
        out.sample = str(r.get(0))
        return out
    for n in failed:
        if not r.get(n, "?").startswith("io-error"):
            out.bad("failed-write-unreported", "operation %d (%s) met a write error and returned %s" % (n, ops[n], r.get(n)))
        out.feat("retried after a failed write")
    for n, t in enumerate(ops):
        if n in failed:
            continue
        if r.get(n) not in ("ok", "rc=0"):
            out.bad("generation-fails " + t.split("|")[0], "operation %d (%s) returned %s\n%s" % (n, t, r.get(n), err))
            return out
    want = wanted(m)
    texts = []
    if case["cli"]:
        docs = [(-1, 0, "stdout")] + docs
        out.feat("command line")
    for n, k, dest in docs:
        text = res.files.get(dest, b"")
        texts.append(text)
        try:
            got = described(text)
        except (ET.ParseError, Bad, ValueError, IndexError, AttributeError) as e:
            out.bad("bad-document", "generation %d is no document of a model: %r\n%s" % (k, e, text[:2000].decode("utf-8", "replace")))
            return out
        for key in want:
            if got[key] != want[key]:
                a, b = want[key], got[key]
                if isinstance(a, dict):
                    diff = [(x, a.get(x), b.get(x)) for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)][:3]
                else:
                    diff = (a, b)
                out.bad("other-model " + key, "generation %d describes other %s than the model: %s" % (k, key, diff))
                return out
    # The first document comes from other text; the later ones all come from a serialized model.
    for i in range(1, len(texts)):
        if texts[i] != texts[i - 1]:
            out.bad("text-changes", "generation %d differs from generation %d: %s" % (docs[i][1], docs[i - 1][1], c04.difference(
                texts[i - 1].decode("utf-8", "replace"), texts[i].decode("utf-8", "replace"))))
            break
    first, doc_of = {}, {}
    for n, k, i, name in reps:
        doc = res.files.get(name, b"")
        if i in first and report.strip_volatile(doc) != first[i][1]:
            # The definitions come in another order, which shows in the order of the results.
            try:
                d = differ(first[i][0], doc)
            except report.BadReport as e:
                d = str(e)
            if d:
                out.bad("results-change", "generation %d, configuration %s: the report differs from that of the original: %s" % (k, A.opts_text(case["opts"][i]), d))
                break
            out.feat("reports in another order")
        if k and not (k == 1 and case["cli"]):
            if doc_of.setdefault(i, report.strip_volatile(doc)) != report.strip_volatile(doc):
                out.bad("results-change", "generation %d, configuration %s: the report differs from that of the generation before: %s" % (
                    k, A.opts_text(case["opts"][i]), c04.difference(doc_of[i], report.strip_volatile(doc))))
                break
        first.setdefault(i, (doc, report.strip_volatile(doc)))
    out.nontrivial = len(texts) >= 2
    probe(out, m, case)
    out.key = texts[0].decode("utf-8", "replace") + str(ops)
    out.sample = {"operations": ops[:8], "bytes": len(texts[0])}
    return out


def differ(a, b):
    """How two reports differ apart from the order of elements."""
    ra, rb = report.parse(a), report.parse(b)
    for k in ("features", "model", "quantities"):
        if ra[k] != rb[k]:
            return k, ra[k], rb[k]
    wa, wb = [sorted(" ".join(w or "" for w in r["warnings"]).split()) for r in (ra, rb)]
    if wa != wb:
        return "warnings", ra["warnings"], rb["warnings"]
    if set(ra["sop"]) != set(rb["sop"]) or set(ra["imp"]) != set(rb["imp"]):
        return "results", sorted(map(str, ra["order"])), sorted(map(str, rb["order"]))
    for i, x in ra["sop"].items():
        y = rb["sop"][i]
        for k in ("n", "events", "dist", "warning"):
            if x[k] != y[k]:
                return i, k, x[k], y[k]
        px, py = [{frozenset(p["lits"]): (p["order"], p["p"], p["c"]) for p in t["products"]} for t in (x, y)]
        if set(px) != set(py):
            return i, "products", sorted(map(str, px)), sorted(map(str, py))
        for l in px:
            if not all(u == v or (u is not None and v is not None and report.close(u, v)) for u, v in zip(px[l], py[l])):
                return i, sorted(l), px[l], py[l]
        if x["p"] != y["p"] and not (x["p"] is not None and y["p"] is not None and report.close(x["p"], y["p"])):
            return i, "probability", x["p"], y["p"]
    for i, x in ra["imp"].items():
        y = rb["imp"][i]
        if set(x) != set(y):
            return i, "importance", sorted(x), sorted(y)
        for e in x:
            for k in x[e]:
                if not report.close(x[e][k], y[e][k], 1e-4, 1e-9) and not (x[e][k] != x[e][k] and y[e][k] != y[e][k]):
                    return i, e, k, x[e][k], y[e][k]
    return None


def probe(out, m, case):
    if any(b["e"] and b["e"][0] == "exp" and b["e"][2] == ["t"] for b in m["basics"]):
        out.feat("exponential over mission time")
    if any(b["e"] is None for b in m["basics"]):
        out.feat("no expression")
    if any(b["e"] and b["e"][0] == "c" and "%g" % b["e"][1] != repr(b["e"][1]) and float("%g" % b["e"][1]) != b["e"][1] for b in m["basics"]):
        out.feat("long number")
    for g in m["gates"]:
        if any(a[0] == "c" for a in g["f"][-1]):
            out.feat("constant argument")
        if any(a[0] != "c" and a[2] for a in g["f"][-1]):
            out.feat("complemented argument")
        if g["f"][0] in ("atleast", "xor"):
            out.feat(g["f"][0])
    els = m["gates"] + m["basics"] + m["houses"]
    if any(c in str(el.get("label", "")) + str(el.get("attrs", "")) for el in els for c in "<&\"\n\t"):
        out.feat("special characters")
    if any(a[0] == "flavor" for b in m["basics"] for a in b.get("attrs", [])):
        out.feat("flavour")
    if m["houses"]:
        out.feat("house event")
    if len(m["fts"]) > 1:
        out.feat("several fault trees")
    if m.get("attrs") or m.get("label"):
        out.feat("attributes of the model")
    if case["layout"] and case["layout"]["files"] > 1:
        out.feat("several files")


def shrink(case):
    for k, v in (("layout", None), ("cli", False), ("fail", [None] * 4), ("early", [False] * 4)):
        if case[k] != v:
            yield dict(case, **{k: v})
    if case["rounds"] > 2:
        yield dict(case, rounds=case["rounds"] - 1)
    yield from c07.shrink(case)
    m = case["model"]
    for kind in ("gates", "basics", "houses"):
        for i, el in enumerate(m[kind]):
            for k in ("label", "attrs"):
                if el.get(k):
                    c = M.clone(m)
                    del c[kind][i][k]
                    yield dict(case, model=c)
            if kind == "basics" and el.get("e") and el["e"] != ["c", 0.5]:
                c = M.clone(m)
                c[kind][i]["e"] = ["c", 0.5]
                yield dict(case, model=c)
    for k in ("label", "attrs", "ft_extra"):
        if m.get(k):
            c = M.clone(m)
            del c[k]
            yield dict(case, model=c)
