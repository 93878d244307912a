"""Random models, swarm style: every model draws its own mix of features."""
import math
import random
from statistics import NormalDist

from .model import eid

P_GRID = [0.0, 1e-6, 0.001, 0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.75, 0.9, 0.99, 1.0]


class Gen:
    def __init__(self, rng, **cfg):
        self.r = rng
        c = {"nvars": (3, 9), "ngates": (2, 9), "coherent": rng.random() < 0.4, "houses": rng.random() < 0.4,
             "consts": rng.random() < 0.25, "params": rng.random() < 0.4, "time": rng.random() < 0.5,
             "deviates": False, "ccf": False, "multi_ft": rng.random() < 0.35, "comps": rng.random() < 0.3,
             "extremes": rng.random() < 0.3, "labels": rng.random() < 0.2, "exprs": True, "arith": rng.random() < 0.4,
             "modules": rng.random() < 0.4, "ets": False, "aligns": False, "subs": False, "rare": False,
             "multi_top": rng.random() < 0.3}
        c.update(cfg)
        if c.get("serial"):  # only what the serializer (and the GUI) can express
            c.update(params=False, arith=False, comps=False, consts=False, deviates=False, ccf=False, aligns=False, ets=False,
                     subs=False)
        self.c = c

    # ---- expressions that are probabilities
    def const_p(self):
        r = self.r
        if self.c["rare"]:
            return round(10 ** r.uniform(-5, -1.5), 8)
        if self.c["extremes"] and r.random() < 0.3:
            return r.choice([0.0, 1.0, 1e-9, 1 - 1e-9])
        if r.random() < 0.5:
            return r.choice(P_GRID[1:-1])
        return round(r.random(), 4)

    def prob_expr(self, m, depth=0):
        r = self.r
        x = r.random()
        if self.c["deviates"] and x < self.c.get("dev_p", 0.6):
            ps = [p for p in m["params"] if p.get("prob")]
            if ps and r.random() < self.c.get("share", 0.3):
                return ["p", eid(r.choice(ps))]
            return self.deviate(m)
        if self.c["time"] and x < 0.45:
            k = r.choice(["exp", "exp", "glm", "weibull", "periodic"])
            if self.c.get("serial"):
                return ["exp", ["c", round(10 ** r.uniform(-7, -3), 9)], ["c", r.choice([0, 10, 8760, 100.5])]]
            if k == "exp":
                return ["exp", ["c", round(10 ** r.uniform(-7, -3), 9)], ["t"]]
            if k == "glm":
                return ["glm", ["c", round(r.random(), 3)], ["c", round(10 ** r.uniform(-6, -3), 9)],
                        ["c", round(10 ** r.uniform(-5, -2), 8)], ["t"]]
            if k == "periodic":
                return self.periodic()
            return ["weibull", ["c", round(r.uniform(500, 20000), 1)], ["c", round(r.uniform(0.5, 3), 2)],
                    ["c", r.choice([0, 10, 500])], ["t"]]
        if self.c["params"] and m["params"] and x < 0.7:
            ps = [p for p in m["params"] if p.get("prob")]
            if ps:
                p = r.choice(ps)
                return ["p", eid(p)]
        if self.c["arith"] and depth < 2 and x < 0.85:
            k = r.choice(["mul", "min", "max", "mean", "sub1", "ite", "div", "math", "switch"])
            if k in ("math", "switch") and self.c["deviates"]:
                k = "mean"
            a = self.prob_expr(m, depth + 1)
            if k == "math":
                return self.math(a)
            if k == "switch":
                return ["switch", [[[r.choice(["lt", "gt", "leq", "geq", "df"]), a, ["c", self.const_p()]], self.prob_expr(m, depth + 1)] for _ in range(r.randint(0, 2))],
                        ["c", self.const_p()]]
            if k == "sub1":
                return ["sub", ["c", 1], a]
            if k == "ite":
                return ["ite", [r.choice(["lt", "geq"]), a, ["c", 0.5]], self.prob_expr(m, depth + 1), ["c", self.const_p()]]
            if k == "div":
                return ["div", a, ["c", r.choice([2, 4, 10])]]
            return [k] + [a] + [self.prob_expr(m, depth + 1) for _ in range(r.randint(1, 2))]
        return ["c", self.const_p()]

    def periodic(self):
        """A periodic test of one of the three forms; odd numbers keep the mission times away from the instants of tests."""
        r = self.r

        def c(x):
            return ["c", x]
        lam = round(10 ** r.uniform(-6, -3), 9)
        tau, theta = round(r.choice([r.uniform(20, 300), r.uniform(300, 4000)]), 1) + 0.0371, round(r.choice([0, r.uniform(0, 20), r.uniform(0, 5000)]), 1) + 0.0173
        mu = round(10 ** r.uniform(-4, -1), 7)
        if r.random() < 0.2:  # rates at the limits
            lam, mu = r.choice([(round(10 ** r.uniform(-2, 0), 4), mu), (lam, 0), (lam, lam), (lam, round(10 ** r.uniform(0, 1), 2)), (0.5, 0)])
        k = r.choice([4, 5, 11])
        if k == 4:
            return ["periodic", c(lam), c(tau), c(theta), ["t"]]
        if k == 5:
            return ["periodic", c(lam), c(mu), c(tau), c(theta), ["t"]]
        return ["periodic", c(lam), c(round(10 ** r.uniform(-6, -2.5), 9)), c(mu), c(tau), c(theta), c(r.choice([0, round(r.uniform(0, 0.3), 3)])),
                c(round(tau * r.uniform(0.01, 0.7), 2) + 0.0057), ["bool", r.random() < 0.5], c(r.choice([1, round(r.uniform(0.5, 1), 3)])),
                c(r.choice([0, round(r.uniform(0, 0.3), 3)])), ["t"]]

    def math(self, a):
        """A function of the expression a, kept within the interval of a probability."""
        r = self.r
        k = r.choice(["sqrt", "pow", "abs", "tanh", "sin", "cos", "atan", "cosh", "sinh", "expf", "neg", "add", "asin", "acos", "pi"])
        if k == "sqrt" or k == "tanh":
            return [k, a]
        if k == "pow":
            return ["pow", a, ["c", r.choice([1, 2, 3, 0.5])]]
        if k == "abs":
            return ["abs", ["neg", a]]
        if k == "expf":
            return ["expf", ["neg", a]]
        e = ["add", a, ["c", self.const_p()]] if k == "add" else ["div", a, ["pi"]] if k == "pi" else [k, a]
        return ["max", ["c", 0], ["min", ["c", 1], e]]

    def deviate(self, m):
        r = self.r
        k = r.choice(self.c.get("dev_kinds", ["uniform", "beta", "uniform", "histogram", "lognormal", "normal", "gamma"]))
        if k == "uniform":
            a = round(r.uniform(0, 0.6), 3)
            return ["uniform", ["c", a], ["c", round(a + r.uniform(0.05, 0.4), 3)]]
        if k == "beta":
            return ["beta", ["c", round(r.uniform(0.5, 6), 2)], ["c", round(r.uniform(0.5, 6), 2)]]
        if k == "lognormal":
            mean = 10 ** r.uniform(-3, -1.6)
            if r.random() < 0.4:  # by the parameters of the normal distribution
                return ["lognormal", ["c", round(math.log(mean), 4)], ["c", round(r.uniform(0.1, 0.7), 3)]]
            level = r.choice([0.95, 0.95, 0.9, 0.99, 0.8])
            ef = math.exp(r.uniform(0.25, 0.7) * NormalDist().inv_cdf(level))
            return ["lognormal", ["c", round(mean, 6)], ["c", round(ef, 3)], ["c", level]]
        if k == "normal":
            mu = round(r.uniform(0.3, 0.7), 3)
            return ["normal", ["c", mu], ["c", round(r.uniform(0.005, 0.04), 4)]]
        if k == "gamma":
            return ["gamma", ["c", round(r.uniform(1, 4), 2)], ["c", round(r.uniform(0.005, 0.02), 4)]]
        b = sorted(set([0.0] + [round(r.random(), 3) for _ in range(r.randint(1, 4))] + [1.0]))
        lo = r.randrange(len(b) - 1)
        return ["histogram", ["c", b[lo]], [[["c", x], ["c", round(r.uniform(0.1, 3), 2)]] for x in b[lo + 1:]]]

    # ---- formulas
    def formula(self, args):
        r = self.r
        n = len(args)
        if self.c["coherent"]:
            if n == 1:
                return ["null", args]
            k = r.random()
            if n >= 3 and k < 0.25:
                return ["atleast", r.randint(2, n - 1), args]
            return [r.choice(["and", "or"]), args]
        if n == 1:
            return ["null", args]
        ops = ["and", "or", "and", "or", "nand", "nor"]
        if self.c.get("serial"):
            ops += ["xor"] if n == 2 else []
            ops += ["atleast", "atleast"] if n >= 3 else []
        elif n == 2:
            ops += ["xor", "iff", "imply"]
        if self.c.get("serial"):
            pass
        elif n >= 3:
            ops += ["atleast", "cardinality", "atleast"]
        elif n == 2 and r.random() < 0.2:
            ops = ["cardinality"]
        op = r.choice(ops)
        if op == "atleast":
            return [op, r.randint(2, n - 1), args]
        if op == "cardinality":
            lo = r.randint(0, n)
            return [op, lo, r.randint(lo, n), args]
        return [op, args]

    def names(self, prefix, n):
        r = self.r
        base = list(range(1, n + 1))
        if r.random() < 0.5:
            r.shuffle(base)
        if r.random() < 0.1:
            return ["%s_%s-x" % (prefix, b) for b in base]
        if r.random() < 0.1:
            return ["%s\u00e9%s" % (prefix, b) for b in base]
        return ["%s%s" % (prefix, b) for b in base]

    def model(self):
        r, c = self.r, self.c
        m = {"name": r.choice([None, "M", "Model-1"]), "fts": [], "gates": [], "basics": [], "houses": [], "params": [],
             "comps": []}
        nv, ng = r.randint(*c["nvars"]), r.randint(*c["ngates"])
        nft = r.randint(2, 3) if c["multi_ft"] and ng > 3 else 1
        m["fts"] = ["FT%d" % i for i in range(1, nft + 1)]
        if r.random() < 0.2:
            m["fts"] = m["fts"][::-1]
        if c["params"]:
            for i, n in enumerate(self.names("P", r.randint(1, 3))):
                e = ["c", self.const_p()]
                if c["time"] and r.random() < 0.4:
                    e = ["exp", ["c", round(10 ** r.uniform(-7, -3), 9)], ["t"]]
                elif c["deviates"] and r.random() < 0.5:
                    e = self.deviate(m)
                elif i and r.random() < 0.4:
                    e = ["mul", ["p", m["params"][0]["n"]], ["c", 0.5]]
                m["params"].append({"n": n, "path": [], "role": "public", "e": e, "prob": 1,
                                    "unit": r.choice([None, None, "hours-1", "float"])})
        places = [[]] + [[f] for f in m["fts"]]
        if c["comps"]:
            for f in m["fts"]:
                if r.random() < 0.7:
                    places.append([f, "Comp"])
                    if r.random() < 0.4:
                        places.append([f, "Comp", "Sub"])

        def place(gate=False, ft=None):
            ps = [p for p in places if (p or not gate) and (ft is None or (p and p[0] == ft))]
            p = list(r.choice(ps if r.random() < 0.5 else ([q for q in ps if len(q) <= 1] or ps)))
            role = "public"
            if c.get("serial"):
                return p, role
            if len(p) > 1 and r.random() < 0.5:
                role = "private"
            elif p and r.random() < 0.08:
                role = "private"
            return p, role
        for n in self.names("B", nv):
            p, role = place()
            m["basics"].append({"n": n, "path": p, "role": role, "e": None})
        if c["houses"]:
            for n in self.names("H", r.randint(1, 3)):
                p, role = place()
                m["houses"].append({"n": n, "path": p, "role": role, "s": r.random() < 0.5})
        gnames = self.names("G", ng)
        for i, n in enumerate(gnames):
            ft = m["fts"][min(i * nft // max(ng, 1), nft - 1)]
            p, role = place(True, ft)
            m["gates"].append({"n": n, "path": p, "role": role, "f": None})
        if m["gates"]:
            m["gates"][0]["role"] = "public"
            m["gates"][0]["path"] = [m["gates"][0]["path"][0]]
        bs = [eid(b) for b in m["basics"]]
        hs = [eid(h) for h in m["houses"]]
        unused = list(bs)
        r.shuffle(unused)
        need = {}  # gates that nobody references yet, per index
        n = len(m["gates"])
        referenced = [False] * n
        exclusive = {}
        if c["modules"]:
            pool = list(bs)
            r.shuffle(pool)
            for i in range(n - 1, 0, -1):
                if r.random() < 0.5 and len(pool) >= 2:
                    exclusive[i] = [pool.pop() for _ in range(r.randint(2, min(3, len(pool))))]
        for i in range(n):
            g = m["gates"][i]
            k = r.choice([1, 2, 2, 2, 3, 3, 4, 5]) if i else r.choice([2, 2, 3, 3, 4])
            args = []
            if i in exclusive:
                for b in exclusive[i]:
                    args.append(["b", b, 0])
            cand = [j for j in range(i + 1, n)]
            seen = set(a[1] for a in args)
            # everything reachable from the top, mostly
            if i + 1 < n and not referenced[i + 1] and not (c["multi_top"] and r.random() < 0.2) and i not in exclusive:
                args.append(["g", eid(m["gates"][i + 1]), 0])
                referenced[i + 1] = True
                seen.add(args[-1][1])
            while len(args) < k:
                x = r.random()
                if cand and x < 0.35 and i not in exclusive:
                    j = r.choice(cand)
                    a = ["g", eid(m["gates"][j]), 0]
                    referenced_j = j
                elif hs and x < 0.45:
                    a = ["h", r.choice(hs), 0]
                    referenced_j = None
                elif c["consts"] and x < 0.5:
                    a = ["c", r.random() < 0.5]
                    referenced_j = None
                else:
                    free = [b for b in bs if not any(b in ex for ex in exclusive.values())] or bs
                    if unused and r.random() < 0.6:
                        b = unused.pop()
                        if any(b in ex for ex in exclusive.values()):
                            b = r.choice(free)
                    else:
                        b = r.choice(free)
                    a = ["b", b, 0]
                    referenced_j = None
                key = ("c", a[1]) if a[0] == "c" else a[1]
                if key in seen:
                    k -= 1
                    if not args:
                        k = 1
                    if len(seen) >= len(bs) + len(hs):
                        break
                    continue
                seen.add(key)
                if referenced_j is not None:
                    referenced[referenced_j] = True
                args.append(a)
            if not args:
                args = [["b", bs[0], 0]]
            if not c["coherent"]:
                for a in args:
                    if a[0] != "c" and r.random() < 0.25:
                        a[2] = 1
            r.shuffle(args)
            g["f"] = self.formula(args)
        # an unreferenced gate under the top when a single top is wanted
        if not c["multi_top"]:
            for i in range(1, n):
                if not referenced[i]:
                    for j in range(i):
                        f = m["gates"][j]["f"]
                        if f[0] in ("and", "or", "nand", "nor") and eid(m["gates"][i]) not in [a[1] for a in f[-1]]:
                            f[-1].append(["g", eid(m["gates"][i]), 0])
                            break
        if c["exprs"]:
            for b in m["basics"]:
                b["e"] = self.prob_expr(m)
        if c["labels"]:
            self.labels(m)
        if c["ccf"]:
            self.ccf(m)
        if c["aligns"]:
            self.aligns(m)
        if c["ets"]:
            self.event_trees(m)
        if c["subs"]:
            self.substitutions(m)
        return m

    # ---- event trees
    def event_trees(self, m):
        r = self.r
        mode = "formula" if r.random() < 0.65 else "expression"
        n = r.choice([1, 1, 1, 2, 2, 3])
        names = ["ET%d" % (i + 1) for i in range(n)]
        ie_names = ["IE%d" % (i + 1) for i in range(r.randint(1, 3))]
        m["ies"], m["ets"], m["rules"] = [], [], []
        hs = [eid(h) for h in m["houses"] if h["role"] == "public"]
        gates = [eid(g) for g in m["gates"]]
        bs = [eid(b) for b in m["basics"]]

        def cformula():
            x = r.random()
            if x < 0.6:
                return ["null", [["g", r.choice(gates), 0]]] if r.random() < 0.7 or self.c["coherent"] else ["not", [["g", r.choice(gates), 0]]]
            if x < 0.75:
                return ["null", [["b", r.choice(bs), 0]]]
            pool = [["g", g, 0] for g in gates] + [["b", b, 0] for b in bs] + [["h", h, 0] for h in hs]
            args = r.sample(pool, min(len(pool), r.randint(2, 3)))
            if len(args) < 2:
                return ["null", args]
            if not self.c["coherent"]:
                for a in args:
                    if r.random() < 0.25:
                        a[2] = 1
            return [r.choice(["and", "or"]), args]

        def test(fes, ie_only=False):
            x = r.random()
            if fes and x < 0.6 and not ie_only:
                f = r.choice(fes)
                return ["tfe", f, r.choice(["S", "F"])]
            if x < 0.8:
                return ["tie", r.choice(ie_names + ["Nobody"])]
            return [r.choice(["lt", "geq", "eq"]), ["c", r.random()], ["c", 0.5]]

        def simple(fes, depth=0):
            x = r.random()
            if x < 0.3 and depth < 2:
                return ["if", test(fes), simple(fes, depth + 1), simple(fes, depth + 1) if r.random() < 0.6 else None]
            if x < 0.4 and depth < 2:
                return ["block", [simple(fes, depth + 1) for _ in range(r.randint(1, 2))]]
            if x < 0.55 and hs:
                return ["set", r.choice(hs), r.random() < 0.5]
            if x < 0.65 and m["rules"] and depth < 2:
                return ["rule", r.choice(m["rules"])["n"]]
            if mode == "formula":
                return ["cf", cformula()]
            return ["ce", self.prob_expr(m, 1)]
        for i in range(r.choice([0, 0, 1, 2])):
            m["rules"].append({"n": "R%d" % (i + 1), "ins": [simple([], 1) for _ in range(r.randint(1, 2))]})
        for ei, name in enumerate(names):
            nf = r.randint(0, 3) if ei else r.randint(1, 3)
            fes = ["%sF%d" % (name, j + 1) for j in range(nf)]
            ns = r.randint(1, 4)
            seqs = []
            for j in range(ns):
                ins = []
                if r.random() < 0.3:
                    ins.append(simple(fes))
                if ei + 1 < n and r.random() < 0.4:
                    link = ["link", r.choice(names[ei + 1:])]
                    if r.random() < 0.3:
                        link = ["if", test(fes), link, None]
                    ins.append(link)
                    if r.random() < 0.2 and mode == "formula":
                        ins.append(["link", r.choice(names[ei + 1:])])
                seqs.append({"n": "%sS%d" % (name, j + 1), "ins": ins})
            branches = []
            nb = r.choice([0, 0, 1, 2]) if nf else r.choice([0, 1])

            def end(level, from_branch=None):
                # named branches hold forks of the later functional events only, and never go back
                ok = [b for b in branches if b["from"] > level]
                if ok and r.random() < 0.4:
                    return ["br", r.choice(ok)["n"]]
                return ["seq", r.choice(seqs)["n"]]

            def branch(level, root=False):
                ins = []
                if r.random() < (0.15 if root else 0.1):
                    ins.append(simple(fes[:max(level, 0)]))
                if level < nf and (root or r.random() < 0.75):
                    fi = level if r.random() < 0.8 else r.randrange(level, nf)
                    k = r.choice([2, 2, 2, 2, 3, 1])
                    states = ["S", "F", "P"][:k]
                    paths = []
                    if mode == "expression":
                        q = self.prob_expr(m, 1)
                        ws = {1: [q], 2: [["sub", ["c", 1], q], q],
                              3: [["sub", ["c", 1], q], ["mul", q, ["c", 0.25]], ["mul", q, ["c", 0.75]]]}[k]
                    for si, st in enumerate(states):
                        b = branch(fi + 1)
                        if mode == "expression":
                            b["ins"].insert(0, ["ce", ws[si]])
                        elif r.random() < 0.75:
                            b["ins"].insert(0, ["cf", cformula()])
                        paths.append([st, b])
                    return {"ins": ins, "t": ["fork", fes[fi], paths]}
                return {"ins": ins, "t": end(level)}
            for j in range(nb):
                lv = r.randint(1, nf) if nf else 0
                branches.insert(0, {"n": "%sB%d" % (name, j + 1), "b": branch(lv), "from": lv})
            used = set()
            init = branch(0, True)
            e = {"n": name, "fes": fes, "seqs": seqs, "init": init,
                 "branches": [{"n": b["n"], "b": b["b"]} for b in branches]}
            m["ets"].append(e)
        for i, n_ in enumerate(ie_names):
            m["ies"].append({"n": n_, "et": names[0] if i == 0 or r.random() < 0.5 else r.choice(names + [None])})

    def substitutions(self, m):
        r = self.r
        m["subs"] = []
        bs = [eid(b) for b in m["basics"]]
        for i in range(r.randint(1, 2)):
            k = r.choice([2, 2, 3])
            if len(bs) < k + 1:
                break
            hyp = r.sample(bs, k)
            args = [["b", b, 0] for b in hyp]
            t = r.random()
            if t < 0.5:
                f = ["atleast", 2, args] if k == 3 and r.random() < 0.7 else ["and", args]
                s = {"hyp": f, "target": False}
                if r.random() < 0.5 and (f[0] == "atleast" or k == 2):
                    s["type"] = "delete-terms"
            else:
                f = ["and", args] if r.random() < 0.7 else (["or", args] if r.random() < 0.5 or k < 3 else ["atleast", 2, args])
                s = {"hyp": f, "target": r.choice([b for b in bs if b not in hyp])}
                if f[0] == "and" and r.random() < 0.5:
                    s["type"] = "recovery-rule"
            s["n"] = "Sub%d" % (i + 1)
            m["subs"].append(s)
        if self.c.get("exchange"):
            self.exchange(m, bs)

    def exchange(self, m, bs):
        """Substitutions that take events out of products: no target is a source, no target or source is in the hypothesis of another one."""
        r = self.r
        hyps, sources, targets = set(), set(), set()
        few = r.random() < 0.5
        for i in range(r.randint(1, 4)):
            free = [b for b in bs if b not in sources and b not in targets]
            if len(free) < 2:
                break
            hyp = r.sample(free, 1 if few else r.randint(1, min(3, len(free))))
            src = [b for b in hyp if b not in hyps and r.random() < 0.7] or [b for b in free if b not in hyps and b not in hyp][:1]
            if not src:
                break
            rest = [b for b in bs if b not in hyp and b not in hyps and b not in sources and b not in src]
            target = r.choice(rest) if rest and r.random() < 0.7 else True
            f = ["null", [["b", hyp[0], 0]]] if len(hyp) == 1 else [r.choice(["and", "and", "or"]), [["b", b, 0] for b in hyp]]
            m["subs"].append({"n": "Exchange%d" % (i + 1), "hyp": f, "source": src, "target": target})
            hyps.update(hyp)
            sources.update(src)
            if target is not True:
                targets.add(target)

    def labels(self, m):
        r = self.r
        texts = ["label", "a < b & c", "quo\"te 'x'", "\u00fcml\u00e4ut \u65e5\u672c", "two  spaces", ">]]>", "100%"]
        for k in ("gates", "basics", "houses", "params"):
            for el in m[k]:
                if r.random() < 0.3:
                    el["label"] = r.choice(texts)
                if r.random() < 0.3:
                    el["attrs"] = [["at%d" % i, r.choice(texts + ["v"]), r.choice([None, "text", "int"])]
                                   for i in range(r.randint(1, 2))]

    def ccf(self, m):
        r = self.r
        m["ccfs"] = []
        pool = [b for b in m["basics"] if b["role"] == "public"]
        r.shuffle(pool)
        for gi in range(r.randint(1, 2)):
            k = r.choice(self.c.get("ccf_sizes", [2, 3, 4]))
            if len(pool) < k:
                k = len(pool)
            if k < 2:
                break
            mem = [pool.pop() for _ in range(k)]
            for b in mem:
                b["e"], b["path"] = None, []

            def factor():
                if m["params"] and r.random() < 0.2:
                    ps = [p for p in m["params"] if p["e"][0] == "c" and 0 < p["e"][1] < 1]
                    if ps:
                        return ["p", r.choice(ps)["n"]]
                if r.random() < 0.1:
                    return ["c", r.choice([0.0, 1.0])]
                return ["c", round(r.uniform(0.01, 0.9), 3)]
            model = r.choice(["beta-factor", "MGL", "alpha-factor", "phi-factor"])
            first = 1
            if model == "beta-factor":
                fac = [factor()]
                first = k
            elif model == "MGL":
                fac = [factor() for _ in range(r.randint(1, k - 1))]
                first = 2
            elif model == "alpha-factor":
                fac = [["c", round(r.uniform(0.05, 0.9), 3)]] + [factor() for _ in range(r.randint(0 if r.random() < 0.05 else 1, k - 1))]
            else:
                n = r.randint(1 if r.random() < 0.2 else 2, k)
                w = [r.randint(1, 8) for _ in range(n)]
                # dyadic factors that sum to 1 exactly
                while sum(w) > 16:
                    w = [max(1, x // 2) for x in w]
                w[0] += 16 - sum(w)
                fac = [["c", x / 16] for x in w]
            dist = ["c", round(r.uniform(0.01, 0.5), 3)]
            if self.c["time"] and r.random() < 0.3:
                dist = ["exp", ["c", round(10 ** r.uniform(-7, -3), 9)], ["t"]]
            elif m["params"] and r.random() < 0.2:
                dist = ["p", m["params"][0]["n"]]
            elif self.c["deviates"] and r.random() < 0.5:
                dist = self.deviate(m)
            levels = r.random() < 0.7
            order = list(range(len(fac)))
            if levels and r.random() < 0.3:
                r.shuffle(order)
            m["ccfs"].append({"n": "CCF%d" % (gi + 1), "path": [], "model": model, "members": [b["n"] for b in mem],
                              "dist": dist, "factors": fac, "levels": levels, "first": first, "order": order})

    def aligns(self, m):
        r = self.r
        m["aligns"] = []
        for i in range(r.randint(1, 2)):
            n = r.randint(1, 3)
            if n == 1:
                fr = [1.0]
            elif n == 2:
                fr = r.choice([[0.5, 0.5], [0.25, 0.75], [0.1, 0.9]])
            else:
                fr = r.choice([[0.25, 0.25, 0.5], [0.125, 0.5, 0.375]])
            ph = []
            for j in range(n):
                sets = []
                for h in m["houses"]:
                    if h["role"] == "public" and r.random() < 0.5:
                        sets.append([eid(h), r.random() < 0.5])
                        if r.random() < 0.15:  # set again: the last one counts
                            sets.append([eid(h), not sets[-1][1]])
                ph.append({"n": "Ph%d" % (j + 1), "frac": fr[j], "set": sets})
            m["aligns"].append({"n": "Al%d" % (i + 1), "phases": ph})
