"""One model delivered in many ways: split over files and includes, reordered, through a project file."""
import random
import re

from . import model as M

XI = ' xmlns:xi="http://www.w3.org/2001/XInclude"'


def random_layout(rng):
    return {"seed": rng.randrange(1 << 30), "files": rng.choice([1, 1, 2, 3, 4]), "include": rng.choice([0, 0, 0.3, 0.7, 1]), "deep": rng.choice([0, 0, 0.3]),
            "shuffle": rng.random() < 0.7, "chunk": rng.choice([0, 0, 1, 2]), "dirs": rng.random() < 0.4, "project": rng.choice([0, 0, 1, 1]),
            "pdir": rng.random() < 0.5, "absolute": rng.random() < 0.15, "backslash": rng.random() < 0.15, "mixed": rng.random() < 0.2,
            "fallback": rng.choice([0, 0, 0.5, 1]), "linked": rng.random() < 0.2}


def deliver(m, lay, style=0):
    """-> ({name: text}, [main files in order])"""
    r = random.Random(lay["seed"])
    ps = list(M.pieces(m)) + [tuple(x) for x in m.get("more_pieces", [])]
    order = None
    if lay["shuffle"]:
        r.shuffle(ps)
        order = r.shuffle
    n = max(1, min(lay["files"], len(ps) or 1))
    groups = [[] for _ in range(n)]
    for i, p in enumerate(ps):
        groups[r.randrange(n) if lay["shuffle"] else i * n // max(1, len(ps))].append(p)
    files, mains = {}, []
    count = [0]

    def include(href, text, ns=""):
        """An include, possibly with a fallback (other content, to be used by no run)."""
        if r.random() >= lay.get("fallback", 0):
            return '<xi:include%s href="%s"/>' % (ns, href)
        other = re.sub(r'<float value="[^"]*"', '<float value="0.375"', text)
        return '<xi:include%s href="%s"><xi:fallback>%s</xi:fallback></xi:include>' % (ns, href, other.strip() if other != text or r.random() < 0.5 else "")

    def sub():
        count[0] += 1
        return count[0]

    def put_include(text, base):
        k = sub()
        name = ("inc%d.xml" % k) if not (lay["dirs"] and r.random() < 0.6) else "parts/inc%d.xml" % k
        full = base + name
        files[full] = '<?xml version="1.0"?>\n' + text.strip().replace("<", "<", 1) + "\n"
        return name, full

    def deep(text, base):
        """Moves single definitions inside a fragment to files of their own."""
        def one(mm):
            if r.random() >= lay["deep"]:
                return mm.group(0)
            name, _ = put_include(mm.group(0), base)
            return include(name, mm.group(0), XI)
        return re.sub(r"(?s)<define-(gate|house-event|parameter)\b[^>]*[^/]>.*?</define-\1>", one, text) if lay["deep"] else text
    for gi, g in enumerate(groups):
        base = "d%d/" % gi if lay["dirs"] and r.random() < 0.5 else ""
        name = base + "m%d.xml" % gi
        whole = M.assemble(m, g, style, order, with_name=gi == 0, chunk=lay["chunk"])
        mm = re.match(r"(?s)(.*?<opsa-mef)([^>]*)(/?)>(.*)$", whole)
        head, at, body = mm.group(1), mm.group(2), mm.group(4)
        body = body[:body.rindex("</opsa-mef>")]
        if lay["include"] or lay["deep"]:
            frag = []
            # top-level elements of the body
            pos = 0
            while True:
                t = re.compile(r"\s*<([\w-]+)").match(body, pos)
                if not t:
                    break
                tag = t.group(1)
                e = re.compile(r"(?s)\s*<%s\b[^>]*/>" % tag).match(body, pos)
                if not e:
                    e = re.compile(r"(?s)\s*<%s\b.*?</%s>" % (tag, tag)).match(body, pos)
                frag.append(e.group(0))
                pos = e.end()
            out = []
            for f in frag:
                if f.strip().startswith(("<label", "<attributes")):
                    out.append(f)
                elif r.random() < lay["include"]:
                    # a fragment in its own file, which may include further ones
                    name2 = None
                    k = sub()
                    sd = "parts/" if lay["dirs"] and r.random() < 0.6 else ""
                    name2 = sd + "inc%d.xml" % k
                    files[base + name2] = '<?xml version="1.0"?>\n' + deep(f, base + sd).strip() + "\n"
                    out.append("\n  " + include(name2, f))
                else:
                    out.append(deep(f, base))
            body = "".join(out) + "\n"
            head += XI
        if lay.get("linked") and "xi:include" not in body:
            # to be named through a symbolic link to a directory below it
            name = "real/" + name
            files["lnk"] = {"link": "real/x/y"}
            files["real/x/y/note"] = "-"
        files[name] = head + at + ">" + body + "</opsa-mef>\n"
        mains.append(name)
    if lay["shuffle"]:
        # the first file names the model: the name belongs to whichever file comes first
        first, rest = mains[0], mains[1:]
        r.shuffle(rest)
        mains = [first] + rest
    return files, mains


def project_text(mains, opts_xml, lay, base=""):
    """Project file (to be placed in directory base) that lists the main files."""
    r = random.Random(lay["seed"] + 1)
    out = ['<?xml version="1.0"?>', "<scram>", "  <model>"]
    for f in mains:
        if f.startswith("real/"):
            f = "lnk/../../" + f[5:]
        p = ("../" if base else "") + f
        if lay["absolute"] and r.random() < 0.5:
            p = "@CWD@/" + f
        elif lay["backslash"]:
            p = p.replace("/", "\\")
        out.append("    <file>%s</file>" % p)
    out.append("  </model>")
    return "\n".join(out) + "\n" + opts_xml + "</scram>\n"


def opts_xml(o):
    """The same settings as a project's options element."""
    t = ['  <options>', '    <algorithm name="%s"/>' % o["algorithm"]]
    if o.get("prime"):
        t.append("    <prime-implicants/>")
    an = " ".join('%s="true"' % n for k, n in (("prob", "probability"), ("imp", "importance"), ("unc", "uncertainty"), ("ccf", "ccf"), ("sil", "sil")) if o.get(k))
    if an:
        t.append("    <analysis %s/>" % an)
    if o.get("approx") in ("rare-event", "mcub"):
        t.append('    <approximation name="%s"/>' % o["approx"])
    lim = [(k, n) for k, n in (("limit", "product-order"), ("mission", "mission-time"), ("step", "time-step"), ("trials", "number-of-trials"),
                               ("quantiles", "number-of-quantiles"), ("bins", "number-of-bins"), ("seed", "seed")) if k in o]
    if lim:
        t.append("    <limits>" + "".join("<%s>%s</%s>" % (n, repr(o[k]), n) for k, n in lim) + "</limits>")
    t.append("  </options>")
    return "\n".join(t) + "\n"
