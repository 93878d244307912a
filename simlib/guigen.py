"""Documents and user sessions for the GUI simulator."""
from xml.sax.saxutils import escape, quoteattr

CONN = ["and", "or", "atleast", "xor", "not", "nand", "nor", "null"]


def document(rng, nft=None, ngates=None, nbasic=None, complete=False, prefix="", null_ok=True):
    """A model that the GUI can open: fault trees of one top gate each, basic and house events."""
    nft = rng.choice([1, 1, 1, 2, 2, 3]) if nft is None else nft
    nbasic = rng.randint(2, 7) if nbasic is None else nbasic
    basics = ["%sB%d" % (prefix, i) for i in range(nbasic)]
    houses = ["%sH%d" % (prefix, i) for i in range(rng.choice([0, 1, 1, 2, 3]))]
    fts, gates, n = [], [], 0
    for t in range(nft):
        mine = []
        k = max(1, (ngates if ngates is not None else rng.randint(1, 5)))
        names = ["%sG%d" % (prefix, n + i) for i in range(k)]
        n += k
        parentless = set(names)
        for i in range(k - 1, -1, -1):  # arguments come from later gates: acyclic
            later = names[i + 1:]
            must = [x for x in later if x in parentless]
            if i:
                must = rng.sample(must, min(len(must), rng.choice([0, 1, 1, 2])))
            pool = [("b", b) for b in basics] + [("h", h) for h in houses] + [("g", x) for x in later if x not in must] + [("g", x) for x in gates if rng.random() < 0.3]
            args = [("g", x) for x in must]
            want = rng.choice([1, 2, 2, 3, 3, 4])
            rng.shuffle(pool)
            while pool and len(args) < want:
                args.append(pool.pop())
            c = rng.choice(CONN)
            m = len(args)
            if m == 1:
                c = rng.choice(["null", "not"])
            elif c in ("not", "null") or (c == "xor" and m != 2) or (c == "atleast" and m < 3):
                c = rng.choice(["and", "or", "nand", "nor"])
            rng.shuffle(args)
            mine.append((names[i], c, rng.randint(2, m - 1) if c == "atleast" else None, args))
            for kind, x in args:
                parentless.discard(x)
        if rng.random() < 0.5:
            rng.shuffle(mine)
        gates += names
        fts.append(("%sF%d" % (prefix, t), mine))

    def extra():
        s = ""
        if rng.random() < 0.25:
            s += "<label>%s</label>" % escape(rng.choice(["pump fails", "a < b & c", "über", "x  y"]))
        a = []
        if rng.random() < 0.15:
            a.append('<attribute name="vendor" value=%s/>' % quoteattr(rng.choice(["acme", "a\"b<c>", "1.5"])))
        return s, a

    def attrs(a):
        return "<attributes>%s</attributes>" % "".join(a) if a else ""

    def head():
        s, a = extra()
        return s + attrs(a)

    named = rng.random() < 0.5
    out = ['<?xml version="1.0"?>\n<opsa-mef%s>' % (' name="Model%s"' % prefix if named else "")]
    if rng.random() < 0.2:
        out.append("<label>the model</label>")
    data = []
    for b in basics:
        s, a = extra()
        if rng.random() < 0.2:
            a.append('<attribute name="flavor" value="undeveloped"/>')
        x = rng.random()
        if x < 0.12 and not complete:
            e = ""
        elif x < 0.6:
            e = '<float value="%s"/>' % rng.choice(["0.1", "0.25", "1e-3", "0.123456789012", "0.5", "1e-12", "0.3333333333333333"])
        elif x < 0.7:
            e = '<int value="%d"/>' % rng.choice([0, 1])
        elif x < 0.75:
            e = '<bool value="%s"/>' % rng.choice(["true", "false"])
        else:
            e = '<exponential><float value="%s"/>%s</exponential>' % (rng.choice(["1e-5", "1.23456789e-4", "0.001"]), rng.choice(["<system-mission-time/>", '<float value="8760"/>']))
        data.append('<define-basic-event name="%s">%s%s%s</define-basic-event>' % (b, s, attrs(a), e))
    for h in houses:
        data.append('<define-house-event name="%s">%s<constant value="%s"/></define-house-event>' % (h, head(), rng.choice(["true", "false"])))
    rng.shuffle(data)
    inside = [d for d in data if rng.random() < 0.2]
    for i, (ft, mine) in enumerate(fts):
        out.append('<define-fault-tree name="%s">%s' % (ft, head()))
        for g, c, k, args in mine:
            body = "".join('<%s name="%s"/>' % ({"g": "gate", "b": "basic-event", "h": "house-event"}[t], x) if rng.random() < 0.8 else '<event name="%s"/>' % x for t, x in args)
            if c != "null":
                body = "<%s%s>%s</%s>" % (c, ' min="%d"' % k if k else "", body, c)
            out.append('<define-gate name="%s">%s%s</define-gate>' % (g, head(), body))
        if i == 0:
            out += inside
        out.append("</define-fault-tree>")
    out.append("<model-data>%s</model-data>" % "".join(d for d in data if d not in inside))
    out.append("</opsa-mef>\n")
    return "\n".join(out)


def settings(rng, auto=None):
    auto = rng.random() < 0.5 if auto is None else auto
    ms = auto if auto > 1 else rng.choice([1000, 5000, 60000, 300000]) if auto else 0
    return "[General]\nautoSave=%d\nundoLimit=%d\n" % (ms, rng.choice([0, 0, 0, 0, 6, 9]))


def acts(rng, n, ops, delays=(1, 20, 200, 2000, 20000), files=("out.xml", "two.xml")):
    """ops: {operation: weight}"""
    names, weights = list(ops), list(ops.values())
    out = []
    for _ in range(n):
        op = rng.choices(names, weights)[0]
        a = [op]
        if op in ("edit", "remove"):
            a += [rng.choice([0, 0, 1, 1, 2]), rng.randrange(40)]
        elif op in ("undo", "redo"):
            a += [rng.choice([1, 1, 1, 2, 3, 5, 40])]
        elif op in ("table", "sort"):
            a += [rng.randrange(3)]
        elif op == "export":
            a += [rng.choice(["report.xml", "report.xml", "-"])]
        elif op in ("save", "saveas", "close"):
            a += [rng.choice(list(files) + (["-"] if rng.random() < 0.3 else []))]
        elif op == "open":
            a += [rng.choice(list(files))]
        a.append(rng.randrange(1, 1 << 30))
        out.append("%d|%s" % (rng.choice(delays), ",".join(str(x) for x in a)))
    return out
