"""Reads a report into plain data."""
import xml.etree.ElementTree as ET


class BadReport(Exception):
    pass


def _id(el):
    return (el.get("initiating-event"), el.get("name"), el.get("alignment"), el.get("phase"))


def _event(el):
    if el.tag == "basic-event":
        return el.get("name")
    if el.tag == "ccf-event":
        return ("ccf", el.get("ccf-group"), tuple(x.get("name") for x in el.findall("basic-event")))
    raise BadReport("unexpected element <%s> among events" % el.tag)


def _f(x):
    return float(x)


def parse(data):
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise BadReport("the report is not well-formed XML: %s" % e)
    if root.tag != "report":
        raise BadReport("the root element is <%s>" % root.tag)
    rep = {"order": [], "sop": {}, "imp": {}, "curve": {}, "sil": {}, "measure": {}, "ie": {}, "warnings": [], "perf": []}
    info = root.find("information")
    if info is None:
        raise BadReport("no information section")
    rep["warnings"] = [w.text for w in info.findall("warning")]
    mf = info.find("model-features")
    rep["features"] = {c.tag: int(c.text) for c in mf} if mf is not None else {}
    rep["model"] = mf.get("name") if mf is not None else None
    rep["quantities"] = [(q.get("name"), q.get("approximation"),
                          (q.find("calculation-method").get("name") if q.find("calculation-method") is not None else None),
                          {l.tag: l.text for l in q.findall("calculation-method/limits/*")})
                         for q in info.findall("calculated-quantity")]
    pf = info.find("performance")
    if pf is not None:
        rep["perf"] = [_id(c) for c in pf.findall("calculation-time")]
    res = root.find("results")
    rep["has_results"] = res is not None
    for el in (res if res is not None else []):
        i = _id(el)
        rep["order"].append((el.tag, i))
        if el.tag == "initiating-event":
            key = (el.get("name"), el.get("alignment"), el.get("phase"))
            if key in rep["ie"]:
                raise BadReport("duplicate initiating-event %s" % (key,))
            rep["ie"][key] = {"n": int(el.get("sequences")), "seqs": [(s.get("name"), _f(s.get("value"))) for s in el]}
        elif el.tag == "sum-of-products":
            if i in rep["sop"]:
                raise BadReport("duplicate sum-of-products %s" % (i,))
            prods = []
            for p in el.findall("product"):
                lits = []
                for x in p:
                    if x.tag == "not":
                        lits.append((_event(x[0]), True))
                    else:
                        lits.append((_event(x), False))
                prods.append({"lits": lits, "order": int(p.get("order")),
                              "p": _f(p.get("probability")) if p.get("probability") is not None else None,
                              "c": _f(p.get("contribution")) if p.get("contribution") is not None else None})
            rep["sop"][i] = {"products": prods, "n": int(el.get("products")), "events": int(el.get("basic-events")),
                             "p": _f(el.get("probability")) if el.get("probability") is not None else None,
                             "dist": [int(x) for x in (el.get("distribution") or "").split()], "warning": el.get("warning")}
        elif el.tag == "importance":
            d = {}
            for x in el:
                d[_event(x)] = {k: _f(v) for k, v in x.attrib.items()
                                if k in ("occurrence", "probability", "MIF", "CIF", "DIF", "RAW", "RRW")}
            if i in rep["imp"]:
                raise BadReport("duplicate importance %s" % (i,))
            if len(d) != len(list(el)) or len(d) != int(el.get("basic-events")):
                raise BadReport("importance: the number of events does not match")
            rep["imp"][i] = d
        elif el.tag == "curve":
            rep["curve"][i] = [(_f(p.get("X")), _f(p.get("Y"))) for p in el]
        elif el.tag == "safety-integrity-levels":
            rep["sil"][i] = {"pfd": _f(el.get("PFD-avg")), "pfh": _f(el.get("PFH-avg")),
                             "hist": [[(_f(b.get("lower-bound")), _f(b.get("upper-bound")), _f(b.get("value"))) for b in h]
                                      for h in el.findall("histogram")]}
        elif el.tag == "measure":
            rep["measure"][i] = {
                "mean": _f(el.find("mean").get("value")), "sd": _f(el.find("standard-deviation").get("value")),
                "lo": _f(el.find("confidence-range").get("lower-bound")),
                "hi": _f(el.find("confidence-range").get("upper-bound")),
                "ef": _f(el.find("error-factor").get("value")),
                "quantiles": [(_f(q.get("value")), _f(q.get("lower-bound")), _f(q.get("upper-bound")))
                              for q in el.find("quantiles")],
                "bins": [(_f(b.get("lower-bound")), _f(b.get("upper-bound")), _f(b.get("value")))
                         for b in el.find("histogram")]}
        else:
            raise BadReport("unexpected <%s> in results" % el.tag)
    return rep


def strip_volatile(text):
    """The report without the parts that say when and how fast."""
    import re
    if isinstance(text, bytes):
        text = text.decode("utf-8", "replace")
    text = re.sub(r"(?m)^\s*<time>[^<]*</time>\n?", "", text)
    text = re.sub(r"(?s)<performance>.*?</performance>", "<performance/>", text)
    return text


def close(a, b, rel=2e-5, abs_=1e-10):
    if a == b:
        return True
    if a != a or b != b:
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
