"""Models as plain JSON data: the XML printer.

A model is a dict:
  name      str or None
  fts       [fault tree names]
  gates     [{n, path:[ft, comp...], role, f: formula}]
  basics    [{n, path:[] or [ft, comp...], role, e: expression or None}]
  houses    [{n, path, role, s: bool}]
  params    [{n, path, role, e, unit}]
  ccfs      [{n, path, model, members:[basic index names], dist: e, factors:[e], levels: bool}]
  ets       [{n, fes:[..], seqs:[{n, ins}], branches:[{n, b}], init: branch}]
  ies       [{n, et}]
  rules     [{n, ins}]
  aligns    [{n, phases:[{n, frac, set:[[house, bool]]}]}]
  subs      [{n, type, hyp: formula, source:[...], target: id or bool}]
  libs / funcs for extern functions
formula: [op, args] | ["atleast", k, args] | ["cardinality", lo, hi, args];  op "null" is a single argument
arg: ["g"|"b"|"h", id, neg] | ["c", bool]
branch: {ins:[...], t: ["fork", fe, [[state, branch]...]] | ["seq", name] | ["br", name]}
"""
import copy
from xml.sax.saxutils import escape, quoteattr


def eid(el):
    """The identifier of an element: the full path for private ones."""
    if el.get("role") == "private" and el["path"]:
        return ".".join(el["path"] + [el["n"]])
    return el["n"]


def num(x):
    return repr(float(x))


class Printer:
    def __init__(self, style=0):
        self.style = style
        self.o = []
        self.ind = 0

    def line(self, s):
        self.o.append("  " * self.ind + s)

    def open(self, tag, **at):
        self.line("<" + tag + self.at(at) + ">")
        self.ind += 1

    def close(self, tag):
        self.ind -= 1
        self.line("</" + tag + ">")

    def empty(self, tag, **at):
        self.line("<" + tag + self.at(at) + "/>")

    @staticmethod
    def at(at):
        return "".join(" %s=%s" % (k.replace("_", "-"), quoteattr(str(v))) for k, v in at.items() if v is not None)

    # ---- formulas
    def arg(self, a):
        if a[0] == "c":
            self.empty("constant", value="true" if a[1] else "false")
            return
        if a[2]:
            self.open("not")
        tag = {"g": "gate", "b": "basic-event", "h": "house-event"}[a[0]]
        if self.style & 1:
            if self.style & 2:
                self.empty("event", name=a[1], type=tag)
            else:
                self.empty("event", name=a[1])
        else:
            self.empty(tag, name=a[1])
        if a[2]:
            self.close("not")

    def formula(self, f):
        op = f[0]
        args = f[-1]
        if op == "null":
            self.arg(args[0])
            return
        if op == "atleast":
            self.open(op, min=f[1])
        elif op == "cardinality":
            self.open(op, min=f[1], max=f[2])
        else:
            self.open(op)
        for a in args:
            self.arg(a)
        self.close(op)

    # ---- expressions
    def expr(self, e):
        k = e[0]
        if k == "c":
            self.empty("float", value=num(e[1]))
        elif k == "i":
            self.empty("int", value=int(e[1]))
        elif k == "bool":
            self.empty("bool", value="true" if e[1] else "false")
        elif k == "p":
            self.empty("parameter", name=e[1])
        elif k == "t":
            self.empty("system-mission-time")
        elif k == "pi":
            self.empty("pi")
        elif k == "tie":
            self.empty("test-initiating-event", name=e[1])
        elif k == "tfe":
            self.empty("test-functional-event", name=e[1], state=e[2])
        elif k == "histogram":
            self.open(k)
            self.expr(e[1])
            for b, w in e[2]:
                self.open("bin")
                self.expr(b)
                self.expr(w)
                self.close("bin")
            self.close(k)
        elif k == "extern":
            self.open("extern-function", name=e[1])
            for a in e[2]:
                self.expr(a)
            self.close("extern-function")
        elif k == "switch":
            self.open("switch")
            for c, v in e[1]:
                self.open("case")
                self.expr(c)
                self.expr(v)
                self.close("case")
            self.expr(e[2])
            self.close("switch")
        else:
            tag = {"exp": "exponential", "expf": "exp", "glm": "GLM", "weibull": "Weibull", "periodic": "periodic-test",
                   "uniform": "uniform-deviate", "normal": "normal-deviate", "lognormal": "lognormal-deviate",
                   "gamma": "gamma-deviate", "beta": "beta-deviate"}.get(k, k)
            self.open(tag)
            for a in e[1:]:
                self.expr(a)
            self.close(tag)

    # ---- definitions
    def extra(self, el):
        if el.get("label"):
            self.line("<label>%s</label>" % escape(el["label"], {"\r": "&#13;"}))
        if el.get("attrs"):
            self.open("attributes")
            for n, v, t in el["attrs"]:
                self.empty("attribute", name=n, value=v, **({"type": t} if t else {}))
            self.close("attributes")

    def role(self, el, default="public"):
        r = el.get("role")
        return {"role": r} if r and r != default else {}

    def basic(self, b, default="public"):
        at = self.role(b, default)
        if b.get("e") is None and not b.get("label") and not b.get("attrs"):
            self.empty("define-basic-event", name=b["n"], **at)
            return
        self.open("define-basic-event", name=b["n"], **at)
        self.extra(b)
        if b.get("e") is not None:
            self.expr(b["e"])
        self.close("define-basic-event")

    def house(self, h, default="public"):
        self.open("define-house-event", name=h["n"], **self.role(h, default))
        self.extra(h)
        self.empty("constant", value="true" if h["s"] else "false")
        self.close("define-house-event")

    def param(self, p, default="public"):
        self.open("define-parameter", name=p["n"], **dict(self.role(p, default), **({"unit": p["unit"]} if p.get("unit") else {})))
        self.extra(p)
        self.expr(p["e"])
        self.close("define-parameter")

    def gate(self, g, default="public"):
        self.open("define-gate", name=g["n"], **self.role(g, default))
        self.extra(g)
        self.formula(g["f"])
        self.close("define-gate")

    def ccf(self, c):
        self.open("define-CCF-group", name=c["n"], model=c["model"])
        self.extra(c)
        self.open("members")
        for m in c["members"]:
            self.empty("basic-event", name=m)
        self.close("members")
        self.open("distribution")
        self.expr(c["dist"])
        self.close("distribution")
        self.open("factors")
        for i in c.get("order") or range(len(c["factors"])):
            f = c["factors"][i]
            lv = c.get("first", 1) + i
            self.open("factor", **({"level": lv} if c.get("levels") else {}))
            self.expr(f)
            self.close("factor")
        self.close("factors")
        self.close("define-CCF-group")

    def ins(self, i):
        k = i[0]
        if k == "set":
            self.open("set-house-event", name=i[1])
            self.empty("constant", value="true" if i[2] else "false")
            self.close("set-house-event")
        elif k == "cf":
            self.open("collect-formula")
            self.formula(i[1])
            self.close("collect-formula")
        elif k == "ce":
            self.open("collect-expression")
            self.expr(i[1])
            self.close("collect-expression")
        elif k == "if":
            self.open("if")
            self.expr(i[1])
            self.ins(i[2])
            if i[3] is not None:
                self.ins(i[3])
            self.close("if")
        elif k == "block":
            self.open("block")
            for x in i[1]:
                self.ins(x)
            self.close("block")
        elif k == "rule":
            self.empty("rule", name=i[1])
        elif k == "link":
            self.empty("event-tree", name=i[1])

    def branch(self, b):
        for i in b["ins"]:
            self.ins(i)
        t = b["t"]
        if t[0] == "fork":
            self.open("fork", functional_event=t[1])
            for st, br in t[2]:
                self.open("path", state=st)
                self.branch(br)
                self.close("path")
            self.close("fork")
        elif t[0] == "seq":
            self.empty("sequence", name=t[1])
        else:
            self.empty("branch", name=t[1])

    def et(self, e):
        self.open("define-event-tree", name=e["n"])
        self.extra(e)
        for f in e["fes"]:
            self.empty("define-functional-event", name=f)
        for s in e["seqs"]:
            if s.get("ins") or s.get("label") or s.get("attrs"):
                self.open("define-sequence", name=s["n"])
                self.extra(s)
                for i in s["ins"]:
                    self.ins(i)
                self.close("define-sequence")
            else:
                self.empty("define-sequence", name=s["n"])
        for b in e["branches"]:
            self.open("define-branch", name=b["n"])
            self.branch(b["b"])
            self.close("define-branch")
        self.open("initial-state")
        self.branch(e["init"])
        self.close("initial-state")
        self.close("define-event-tree")

    def align(self, a):
        self.open("define-alignment", name=a["n"])
        self.extra(a)
        for p in a["phases"]:
            self.open("define-phase", name=p["n"], time_fraction=num(p["frac"]))
            for h, s in p["set"]:
                self.ins(["set", h, s])
            self.close("define-phase")
        self.close("define-alignment")

    def sub(self, s):
        self.open("define-substitution", name=s["n"], **({"type": s["type"]} if s.get("type") else {}))
        self.extra(s)
        self.open("hypothesis")
        self.formula(s["hyp"])
        self.close("hypothesis")
        if s.get("source"):
            self.open("source")
            for x in s["source"]:
                self.empty("basic-event", name=x)
            self.close("source")
        self.open("target")
        if isinstance(s["target"], bool):
            self.empty("constant", value="true" if s["target"] else "false")
        else:
            self.empty("basic-event", name=s["target"])
        self.close("target")
        self.close("define-substitution")

    def container(self, m, path, order=None):
        """The members of a fault tree or a component."""
        items = []
        for kind in ("params", "basics", "houses", "gates", "ccfs"):
            for i, el in enumerate(m.get(kind, [])):
                if el["path"] == path:
                    items.append((kind, i, el))
        subs = []
        for kind in ("params", "basics", "houses", "gates", "ccfs"):
            for el in m.get(kind, []):
                p = el["path"]
                if len(p) > len(path) and p[:len(path)] == path and p[len(path)] not in subs:
                    subs.append(p[len(path)])
        for s in subs:
            items.append(("comp", 0, s))
        if order:
            order(items)
        default = "public" if len(path) == 1 else None  # members of components always say their role
        for kind, _, el in items:
            if kind == "comp":
                sub = path + [el]
                at = {}
                for c in m.get("comps", []):
                    if c["path"] == sub:
                        at = {"role": c["role"]} if c.get("role") else {}
                self.open("define-component", name=el, **at)
                self.container(m, sub, order)
                self.close("define-component")
            else:
                if el.get("label_skip"):
                    continue
                {"params": self.param, "basics": self.basic, "houses": self.house, "gates": self.gate}.get(
                    kind, lambda e, d: self.ccf(e))(el, default)


def to_xml(m, style=0):
    """The whole model in one file in canonical order."""
    return assemble(m, pieces(m), style)


def pieces(m):
    """Top-level definitions, as (kind, element) in canonical order."""
    out = []
    for k in ("libs", "funcs", "ies", "ets", "rules", "aligns", "subs"):
        for el in m.get(k, []):
            out.append((k, el))
    for ft in m.get("fts", []):
        out.append(("ft", ft))
    for k in ("ccfs",):
        for el in m.get(k, []):
            if not el["path"]:
                out.append((k, el))
    members = ccf_members(m)
    for k in ("basics", "houses", "params"):
        for el in m.get(k, []):
            if not el["path"] and not (k == "basics" and el["n"] in members):
                out.append((k, el))
    return out


def ccf_members(m):
    """Basic events that are declared by their common-cause groups (always public and at the top level)."""
    return set(b for c in m.get("ccfs", []) for b in c["members"])


def assemble(m, ps, style=0, order=None, with_name=True, chunk=0):
    p = Printer(style)
    p.line('<?xml version="1.0"?>')
    name = m.get("name") if with_name else None
    p.open("opsa-mef", **({"name": name} if name else {}))
    if with_name:
        p.extra(m)
    data_open = False
    count = 0
    for kind, el in ps:
        if kind in ("basics", "houses", "params"):
            if not data_open:
                p.open("model-data")
                data_open = True
                count = 0
            {"basics": p.basic, "houses": p.house, "params": p.param}[kind](el)
            count += 1
            if chunk and count >= chunk:
                p.close("model-data")
                data_open = False
            continue
        if data_open:
            p.close("model-data")
            data_open = False
        if kind == "ft":
            p.open("define-fault-tree", name=el)
            for x in m.get("ft_extra", {}).get(el, []):
                p.extra(x)
            p.container(m, [el], order)
            p.close("define-fault-tree")
        elif kind == "ccfs":
            p.ccf(el)
        elif kind == "ies":
            if el.get("label") or el.get("attrs"):
                p.open("define-initiating-event", name=el["n"], **({"event_tree": el["et"]} if el.get("et") else {}))
                p.extra(el)
                p.close("define-initiating-event")
            else:
                p.empty("define-initiating-event", name=el["n"], **({"event_tree": el["et"]} if el.get("et") else {}))
        elif kind == "ets":
            p.et(el)
        elif kind == "rules":
            p.open("define-rule", name=el["n"])
            p.extra(el)
            for i in el["ins"]:
                p.ins(i)
            p.close("define-rule")
        elif kind == "aligns":
            p.align(el)
        elif kind == "subs":
            p.sub(el)
        elif kind == "libs":
            p.empty("define-extern-library", name=el["n"], path=el["p"],
                    **{k: v for k, v in (("system", el.get("system")), ("decorate", el.get("decorate"))) if v is not None})
        elif kind == "funcs":
            p.open("define-extern-function", name=el["n"], symbol=el["sym"], library=el["lib"])
            p.extra(el)
            p.empty(el["ret"])
            for a in el["args"]:
                p.empty(a)
            p.close("define-extern-function")
    if data_open:
        p.close("model-data")
    p.close("opsa-mef")
    return "\n".join(p.o) + "\n"


def clone(m):
    return copy.deepcopy(m)


# ---------------------------------------------------------------- shrinking

def shrink_model(m):
    """Yields smaller models (possibly invalid: the caller re-runs and keeps what still fails)."""
    for k in ("aligns", "subs", "ccfs", "ies", "rules"):
        for i in range(len(m.get(k, []))):
            c = clone(m)
            del c[k][i]
            yield c
    if m.get("ets") and not m.get("ies"):
        c = clone(m)
        c["ets"] = []
        yield c
    for i in range(len(m.get("aligns", []))):
        if len(m["aligns"][i]["phases"]) > 1:
            for j in range(len(m["aligns"][i]["phases"])):
                c = clone(m)
                ph = c["aligns"][i]["phases"]
                f = ph[j]["frac"]
                del ph[j]
                ph[0]["frac"] = round(ph[0]["frac"] + f, 12)
                yield c
    # replace references to a gate by one of its own arguments, drop the gate
    for gi, g in enumerate(m.get("gates", [])):
        used = any(a[0] == "g" and a[1] == eid(g) for h in m["gates"] if h is not g for a in h["f"][-1])
        if not used and len(m["gates"]) > 1:
            c = clone(m)
            del c["gates"][gi]
            yield c
        for a in g["f"][-1]:
            if a[0] == "c" or not used:
                continue
            c = clone(m)
            for h in c["gates"]:
                for x in h["f"][-1]:
                    if x[0] == "g" and x[1] == eid(g):
                        x[0], x[1] = a[0], a[1]
            del c["gates"][gi]
            yield c
        for ai in range(len(g["f"][-1])):
            if len(g["f"][-1]) > 1:
                c = clone(m)
                f = c["gates"][gi]["f"]
                del f[-1][ai]
                if len(f[-1]) == 1:
                    c["gates"][gi]["f"] = ["null" if not (f[-1][0][0] != "c" and f[-1][0][2]) else "null", f[-1]]
                elif f[0] == "atleast" and f[1] >= len(f[-1]):
                    continue
                elif f[0] == "cardinality" and f[2] > len(f[-1]):
                    f[2] = len(f[-1])
                    f[1] = min(f[1], f[2])
                elif f[0] in ("xor", "iff", "imply"):
                    continue
                yield c
            if g["f"][-1][ai][0] != "c" and g["f"][-1][ai][2]:
                c = clone(m)
                c["gates"][gi]["f"][-1][ai][2] = 0
                yield c
        if g["f"][0] not in ("and", "or", "null"):
            for op in ("and", "or"):
                c = clone(m)
                c["gates"][gi]["f"] = [op, c["gates"][gi]["f"][-1]]
                yield c
    # unused events
    used = set()

    def args(f):
        for a in f[-1]:
            if a[0] != "c":
                used.add(a[1])
    for g in m.get("gates", []):
        args(g["f"])

    def ins(i):
        if i[0] == "cf":
            args(i[1])
        elif i[0] == "set":
            used.add(i[1])
        elif i[0] == "if":
            ins(i[2])
            if i[3]:
                ins(i[3])
        elif i[0] == "block":
            for x in i[1]:
                ins(x)

    def br(b):
        for i in b["ins"]:
            ins(i)
        if b["t"][0] == "fork":
            for _, x in b["t"][2]:
                br(x)
    for e in m.get("ets", []):
        br(e["init"])
        for b in e["branches"]:
            br(b["b"])
        for s in e["seqs"]:
            for i in s.get("ins", []):
                ins(i)
    for r in m.get("rules", []):
        for i in r["ins"]:
            ins(i)
    for a in m.get("aligns", []):
        for p in a["phases"]:
            for h, _ in p["set"]:
                used.add(h)
    for c0 in m.get("ccfs", []):
        used.update(c0["members"])
    for s in m.get("subs", []):
        args(s["hyp"])
        used.update(s.get("source") or [])
        if not isinstance(s["target"], bool):
            used.add(s["target"])
    for k in ("basics", "houses"):
        un = [i for i, el in enumerate(m.get(k, [])) if eid(el) not in used]
        if len(un) > 1:
            c = clone(m)
            c[k] = [el for i, el in enumerate(c[k]) if i not in un]
            yield c
        for i in un:
            c = clone(m)
            del c[k][i]
            yield c
    for i, b in enumerate(m.get("basics", [])):
        if b.get("e") and b["e"][0] != "c":
            c = clone(m)
            c["basics"][i]["e"] = ["c", 0.25]
            yield c
    if m.get("params"):
        c = clone(m)
        c["params"] = []
        yield c
