"""The executable reference: what the analyses must compute, by truth tables and direct formulas."""
import math

import numpy as np

from .model import eid

COHERENT = ("and", "or", "atleast", "null")


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- truth tables

class Table:
    """Truth tables over an ordered list of variables, as big integers: bit x is f(x), bit i of x is variable i."""

    def __init__(self, names):
        self.names = list(names)
        self.n = len(self.names)
        self.size = 1 << self.n
        self.full = (1 << self.size) - 1
        self.var = {}
        for i, name in enumerate(self.names):
            self.var[name] = self._var(i)

    def var_index(self, name):
        return self.names.index(name)

    def _var(self, i):
        block = ((1 << (1 << i)) - 1) << (1 << i)
        width = 2 << i
        out = block
        while width < self.size:
            out |= out << width
            width *= 2
        return out

    def neg(self, f):
        return self.full & ~f

    def count(self, args):
        """cnt[k] = table of 'exactly k arguments are true'."""
        cnt = [self.full]
        for a in args:
            na = self.neg(a)
            new = [0] * (len(cnt) + 1)
            for k, c in enumerate(cnt):
                new[k] |= c & na
                new[k + 1] |= c & a
            cnt = new
        return cnt

    def op(self, f, args):
        op = f[0]
        if op == "null":
            return args[0]
        if op == "and" or op == "nand":
            r = self.full
            for a in args:
                r &= a
            return r if op == "and" else self.neg(r)
        if op == "or" or op == "nor":
            r = 0
            for a in args:
                r |= a
            return r if op == "or" else self.neg(r)
        if op == "xor":
            return args[0] ^ args[1]
        if op == "iff":
            return self.neg(args[0] ^ args[1])
        if op == "imply":
            return self.neg(args[0]) | args[1]
        if op == "not":
            return self.neg(args[0])
        cnt = self.count(args)
        lo, hi = (f[1], len(args)) if op == "atleast" else (f[1], f[2])
        r = 0
        for k in range(lo, hi + 1):
            r |= cnt[k]
        return r

    def minimal_models(self, f):
        """Minimal satisfying assignments, as a list of frozensets of variable indices."""
        up = f
        masks = [self._var(i) for i in range(self.n)]
        for i in range(self.n):
            up |= (up & self.neg(masks[i])) << (1 << i)
        strict = 0
        for i in range(self.n):
            strict |= (up & self.neg(masks[i])) << (1 << i)
        return [frozenset(i for i in range(self.n) if x >> i & 1) for x in self.bits(f & self.neg(strict))]

    def bits(self, f):
        out = []
        while f:
            low = f & -f
            out.append(low.bit_length() - 1)
            f ^= low
        return out

    def primes(self, f):
        """Prime implicants as frozensets of (variable index, negated)."""
        memo = {}

        def go(g, k):  # g: table over variables 0..k-1
            key = (g, k)
            if key in memo:
                return memo[key]
            if g == 0:
                r = frozenset()
            elif g == (1 << (1 << k)) - 1:
                r = frozenset([frozenset()])
            else:
                half = 1 << (k - 1)
                m = (1 << half) - 1
                f0, f1 = g & m, g >> half
                both = go(f0 & f1, k - 1)
                r = set(both)
                for p in go(f0, k - 1):
                    if p not in both:
                        r.add(p | {(k - 1, True)})
                for p in go(f1, k - 1):
                    if p not in both:
                        r.add(p | {(k - 1, False)})
                r = frozenset(r)
            memo[key] = r
            return r
        return list(go(f, self.n))

    def array(self, f):
        b = f.to_bytes(max(1, (self.size + 7) // 8), "little")
        return np.unpackbits(np.frombuffer(b, dtype=np.uint8), bitorder="little")[:self.size].astype(np.float64)

    def weights(self, p):
        w = np.ones(1)
        for i in range(self.n):
            w = np.concatenate([w * (1 - p[i]), w * p[i]])
        return w

    def prob(self, f, p):
        return float(np.dot(self.array(f), self.weights(p)))

    def second_moment(self, f, m):
        """E[P(f)^2] when the variables' probabilities are independent random numbers; m[i] = (E p, E p^2)."""
        a = self.array(f)
        v = a.copy()
        for i in range(self.n):
            e1, e2 = m[i]
            w11, w10, w00 = e2, e1 - e2, 1 - 2 * e1 + e2
            v = v.reshape(-1, 2, 1 << i)
            lo, hi = v[:, 0, :], v[:, 1, :]
            v = np.stack([w00 * lo + w10 * hi, w10 * lo + w11 * hi], axis=1).reshape(-1)
        return float(np.dot(a, v))


# ---------------------------------------------------------------- expressions

class Env:
    def __init__(self, model, time, ie=None, states=None):
        self.params = {eid(p): p for p in model.get("params", [])}
        self.time = time
        self.ie = ie
        self.states = states or {}
        self.funcs = {f["n"]: f for f in model.get("funcs", [])}
        self.salts = {x["n"]: x["salt"] for x in model.get("libs", [])}


WEIGHT = (0.45, 0.225, 0.1125, 0.05625, 0.028125)


def extern_value(f, salt, args):
    """The value of the simulated library function (sim/rt.cc, dl::fn)."""
    s = 0.01 * (salt + 1)
    for i, (t, x) in enumerate(zip(f["args"], args)):
        s = s + (WEIGHT[i] * 0.25 * np.trunc(x) if t == "int" else WEIGHT[i] * x)
    if f["ret"] != "int":
        return s
    if np.any(np.abs(s * 100 - np.round(s * 100)) < 1e-9):
        raise Unsupported("truncation at a step")
    return np.trunc(s * 100)



MATH = {"abs": abs, "sin": math.sin, "cos": math.cos, "tan": math.tan, "atan": math.atan, "asin": math.asin, "acos": math.acos, "sinh": math.sinh,
        "cosh": math.cosh, "tanh": math.tanh, "expf": math.exp, "log": math.log, "log10": math.log10}


def periodic(a):
    """Unavailability of a periodically tested component: 4, 5 or 11 arguments; a step by step walk over the periods."""
    def fail(rate, t):
        return 1 - math.exp(-rate * t)

    def repaired_and_failed(mu, lam, t):  # repaired within t and failed again
        if mu == lam:
            return fail(lam, t) - math.exp(-lam * t) * lam * t
        return (lam * fail(mu, t) - mu * fail(lam, t)) / (lam - mu)
    t = a[-1]
    if len(a) == 4:
        lam, tau, theta = a[:3]
        if t <= theta:
            return fail(lam, t)
        x = math.fmod(t - theta, tau)
        return fail(lam, x or tau)
    if len(a) == 5:
        lam, mu, tau, theta = a[:4]
        if t <= theta:
            return fail(lam, t)
        down, left = fail(lam, theta), t - theta
        while True:
            x = min(left, tau)
            down = (1 - down) * fail(lam, x) + down * (math.exp(-mu * x) + repaired_and_failed(mu, lam, x))
            left -= x
            if left <= 0:
                return down
    lam, lam_t, mu, tau, theta, gamma, pi, x_av, sigma, omega = a[:10]
    if t <= theta:
        return fail(lam, t)
    s = {"failed": fail(lam, theta), "repair": 0.0}
    s["ok"] = 1 - s["failed"]

    def back(x):  # in repair, back in service and failed again (or wrongly restarted)
        return fail(mu, x) * omega + (1 - omega) * repaired_and_failed(mu, lam, x)

    def test(x, available):
        f = s["failed"] + s["ok"] * (gamma + (1 - gamma) * fail(lam_t, x))
        failed = s["repair"] * back(x) + (1 - sigma) * f
        rep = s["repair"] * math.exp(-mu * x) + sigma * f
        ok = 1 - failed - rep
        if not available:
            ok -= s["ok"] * (1 - gamma) * math.exp(-lam_t * x)
        s.update(failed=failed, repair=rep, ok=ok)

    def work(x):
        failed = s["failed"] + s["ok"] * fail(lam, x) + s["repair"] * back(x)
        rep = s["repair"] * math.exp(-mu * x)
        s.update(failed=failed, repair=rep, ok=1 - failed - rep)
    left = t - theta
    while left > tau:
        test(pi, True)
        work(tau - pi)
        left -= tau
    if left <= pi:
        test(left, x_av)
    else:
        test(pi, True)
        work(left - pi)
    return 1 - s["ok"]


def ev(e, env):
    """The point value (mean for deviates)."""
    k = e[0]
    if k == "c" or k == "i":
        return float(e[1])
    if k == "bool":
        return 1.0 if e[1] else 0.0
    if k == "t":
        return env.time
    if k == "pi":
        return math.pi
    if k == "p":
        return ev(env.params[e[1]]["e"], env)
    if k == "tie":
        return 1.0 if env.ie == e[1] else 0.0
    if k == "tfe":
        return 1.0 if env.states.get(e[1]) == e[2] else 0.0
    if k == "extern":
        return float(extern_value(env.funcs[e[1]], env.salts[env.funcs[e[1]]["lib"]], [ev(a, env) for a in e[2]]))
    if k == "ite":
        return ev(e[2], env) if ev(e[1], env) else ev(e[3], env)
    if k == "switch":
        for c, v in e[1]:
            if ev(c, env):
                return ev(v, env)
        return ev(e[2], env)
    if k == "histogram":
        lo = ev(e[1], env)
        s = w = 0.0
        for b, wt in e[2]:
            hi, wv = ev(b, env), ev(wt, env)
            s += wv * (lo + hi) / 2
            w += wv
            lo = hi
        return s / w
    a = [ev(x, env) for x in e[1:]]
    if k == "add":
        return sum(a)
    if k == "sub":
        r = a[0]
        for x in a[1:]:
            r -= x
        return r
    if k == "mul":
        r = 1.0
        for x in a:
            r *= x
        return r
    if k == "div":
        r = a[0]
        for x in a[1:]:
            r /= x
        return r
    if k == "neg":
        return -a[0]
    if k == "min":
        return min(a)
    if k == "max":
        return max(a)
    if k == "mean":
        return sum(a) / len(a)
    if k == "sqrt":
        return math.sqrt(a[0])
    if k == "pow":
        return a[0] ** a[1]
    if k in ("lt", "gt", "leq", "geq", "eq", "df"):
        return float({"lt": a[0] < a[1], "gt": a[0] > a[1], "leq": a[0] <= a[1], "geq": a[0] >= a[1],
                      "eq": a[0] == a[1], "df": a[0] != a[1]}[k])
    if k == "not":
        return float(not a[0])
    if k == "and":
        return float(all(a))
    if k == "or":
        return float(any(a))
    if k == "exp":
        return 1 - math.exp(-a[0] * a[1])
    if k == "glm":
        g, lam, mu, t = a
        r = lam + mu
        return (lam - (lam - g * r) * math.exp(-r * t)) / r
    if k == "weibull":
        al, be, t0, t = a
        return 0.0 if t <= t0 else 1 - math.exp(-((t - t0) / al) ** be)
    if k == "periodic":
        return periodic(a)
    if k in MATH:
        return MATH[k](a[0])
    if k == "uniform":
        return (a[0] + a[1]) / 2
    if k == "normal":
        return a[0]
    if k == "lognormal":
        if len(a) == 3:
            return a[0]
        return math.exp(a[0] + a[1] ** 2 / 2)
    if k == "gamma":
        return a[0] * a[1]
    if k == "beta":
        return a[0] / (a[0] + a[1])
    raise Unsupported(k)


DEVIATES = ("uniform", "normal", "lognormal", "gamma", "beta", "histogram")


def is_deviate(e, env, depth=0):
    if e[0] in DEVIATES:
        return True
    if e[0] == "p":
        return is_deviate(env.params[e[1]]["e"], env, depth + 1)
    for x in e[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                if is_deviate(x, env):
                    return True
            else:
                for y in x:
                    if isinstance(y, list) and y and isinstance(y[0], str) and is_deviate(y, env):
                        return True
                    if isinstance(y, list) and y and isinstance(y[0], list):
                        for z in y:
                            if is_deviate(z, env):
                                return True
    return False


# ---------------------------------------------------------------- CCF

def comb(n, k):
    return math.comb(n, k)


def ccf_levels(c, env):
    """{level: probability of one specific combination of that level}."""
    q = ev(c["dist"], env)
    n = len(c["members"])
    f = [ev(x, env) for x in c["factors"]]
    model = c["model"]
    out = {}
    if model == "beta-factor":
        out[1] = (1 - f[0]) * q
        out[n] = f[0] * q
    elif model == "MGL":  # factors for levels 2..
        mx = len(f) + 1
        for k in range(1, mx + 1):
            r = q / comb(n - 1, k - 1)
            for j in range(k - 1):
                r *= f[j]
            if k < mx:
                r *= 1 - f[k - 1]
            out[k] = r
    elif model == "alpha-factor":
        tot = sum((i + 1) * a for i, a in enumerate(f))
        for k in range(1, len(f) + 1):
            out[k] = k / comb(n - 1, k - 1) * f[k - 1] / tot * q
    else:
        for k in range(1, len(f) + 1):
            out[k] = f[k - 1] * q
    return out


# ---------------------------------------------------------------- the model under one context

class World:
    """The meaning of a model in one phase."""

    def __init__(self, m, time, houses=None, ccf=False, max_vars=16):
        self.m = m
        self.time = time
        self.env = Env(m, time)
        self.gates = {eid(g): g for g in m.get("gates", [])}
        self.basics = {eid(b): b for b in m.get("basics", [])}
        self.houses = {eid(h): bool(h["s"]) for h in m.get("houses", [])}
        self.houses.update(houses or {})
        self.ccf = {}
        self.ccf_events = {}
        self.in_ccf = {}
        if m.get("ccfs"):
            for c in m["ccfs"]:
                for b in c["members"]:
                    self.in_ccf[b] = c
        if ccf:
            import itertools
            for c in m.get("ccfs", []):
                lv = ccf_levels(c, self.env)
                for k, p in lv.items():
                    for combo in itertools.combinations(c["members"], k):
                        ev_id = ("ccf", c["n"], combo)
                        self.ccf_events[ev_id] = p
                        for b in combo:
                            self.ccf.setdefault(b, []).append(ev_id)
        self.max_vars = max_vars

    def p(self, name):
        if isinstance(name, tuple):
            return self.ccf_events[name]
        if name in self.in_ccf:
            return ev(self.in_ccf[name]["dist"], self.env)
        e = self.basics[name].get("e")
        return ev(e, self.env) if e is not None else 0.0

    def variables(self, f, seen_g=None, acc=None):
        acc = acc if acc is not None else {}
        seen_g = seen_g if seen_g is not None else set()
        for a in f[-1]:
            if a[0] == "b":
                for v in self.ccf.get(a[1], [a[1]]):
                    acc[v] = 1
            elif a[0] == "g" and a[1] not in seen_g:
                seen_g.add(a[1])
                self.variables(self.gates[a[1]]["f"], seen_g, acc)
        return acc

    def table(self, f, sets=None, tb=None):
        """(Table, truth table) of a formula; sets: house event overrides."""
        if tb is None:
            names = list(self.variables(f))
            if len(names) > self.max_vars:
                raise Unsupported("too many variables")
            tb = Table(names)
        memo = {}
        h = dict(self.houses)
        if sets:
            h.update(sets)

        def gate(name):
            if name not in memo:
                memo[name] = None
                memo[name] = form(self.gates[name]["f"])
            return memo[name]

        def arg(a):
            if a[0] == "c":
                return tb.full if a[1] else 0
            if a[0] == "g":
                v = gate(a[1])
            elif a[0] == "h":
                v = tb.full if h[a[1]] else 0
            else:
                vs = self.ccf.get(a[1])
                if vs:
                    v = 0
                    for x in vs:
                        v |= tb.var[x]
                else:
                    v = tb.var[a[1]]
            return tb.neg(v) if a[2] else v

        def form(f):
            return tb.op(f, [arg(a) for a in f[-1]])
        return tb, form(f)

    def constrain(self, f, used=None):
        """(Table, truth table) of a formula under the declarative substitutions of the model."""
        subs = self.m.get("subs") or []
        if not subs:
            return self.table(f)
        names = dict(self.variables(f)) if used is None else used
        for s in subs:
            self.variables(s["hyp"], None, names)
            for x in s.get("source") or []:
                names[x] = 1
            if not isinstance(s["target"], bool):
                for v in self.ccf.get(s["target"], [s["target"]]):
                    names[v] = 1
        if len(names) > self.max_vars:
            raise Unsupported("too many variables")
        tb = Table(list(names))
        r = self.table(f, None, tb)[1] if f is not None else tb.full
        return tb, self.rules(tb, r)

    def rules(self, tb, r):
        for s in self.m.get("subs") or []:
            if s.get("source"):
                continue
            h = self.table(s["hyp"], None, tb)[1]
            if isinstance(s["target"], bool):
                t = tb.full if s["target"] else 0
            else:
                t = self.table(["null", [["b", s["target"], 0]]], None, tb)[1]
            r &= tb.neg(h) | t
        return r

    def probs(self, tb):
        return [self.p(v) for v in tb.names]


def tops(m):
    """Top gates per fault tree."""
    out = []
    for ft in m.get("fts", []):
        mine = {eid(g): g for g in m["gates"] if g["path"][0] == ft}
        child = set()
        for g in mine.values():
            for a in g["f"][-1]:
                if a[0] == "g" and a[1] in mine:
                    child.add(a[1])
        out.append((ft, [g for g in mine if g not in child]))
    return out


class Unit:
    """Reference results for one analysis target."""

    def __init__(self, world, tb, f, opts, p=None):
        self.tb, self.f, self.world = tb, f, world
        self.pv = p if p is not None else world.probs(tb)
        algo, approx, prime, limit = opts["algorithm"], opts["approx"], opts.get("prime"), opts.get("limit", 20)
        if prime:
            ps = [frozenset(x) for x in tb.primes(f)]
        else:
            ps = [frozenset((i, False) for i in x) for x in tb.minimal_models(f)]
        self.all_products = ps
        self.products = self.exchange([x for x in ps if len(x) <= limit], limit)
        self.approx = approx
        self.prime = prime
        self.p_total = self.total(self.pv)

    def exchange(self, products, limit):
        """Applies the substitutions with sources to the products."""
        rules = []
        for s in self.world.m.get("subs") or []:
            if s.get("source"):
                names = [self.tb.var_index(a[1]) for a in s["hyp"][-1]]
                src = set(self.tb.var_index(x) for x in s["source"])
                t = None if isinstance(s["target"], bool) else self.tb.var_index(s["target"])
                rules += [({x}, src, t) for x in names] if s["hyp"][0] == "or" else [(set(names), src, t)]
        if not rules:
            return products
        new = set()
        for x in products:
            ids = set(i for i, neg in x if not neg)
            cut, add = set(), set()
            for hyp, src, t in rules:
                if hyp <= ids:
                    cut |= src
                    if t is not None:
                        add.add(t)
            y = frozenset((i, neg) for i, neg in x if i not in cut) | frozenset((i, False) for i in add)
            if len(y) <= limit:
                new.add(y)
        return [x for x in new if not any(y < x for y in new)]

    def total(self, p):
        if self.approx == "none":
            return self.tb.prob(self.f, p)
        if self.approx == "rare-event":
            return min(1.0, sum(self.product_p(x, p) for x in self.products))
        r = 1.0
        for x in self.products:
            r *= 1 - self.product_p(x, p)
        return 1 - r

    def product_p(self, x, p=None):
        p = p if p is not None else self.pv
        r = 1.0
        for i, neg in x:
            r *= (1 - p[i]) if neg else p[i]
        return r

    def mif(self, i):
        if self.approx != "none":
            # sum/product approximations: the derivative is what conditioning on the event gives
            hi, lo = list(self.pv), list(self.pv)
            hi[i], lo[i] = 1.0, 0.0
            return self.total(hi) - self.total(lo)
        hi, lo = list(self.pv), list(self.pv)
        hi[i], lo[i] = 1.0, 0.0
        return self.tb.prob(self.f, hi) - self.tb.prob(self.f, lo)

    def occurrences(self):
        occ = {}
        for x in self.products:
            for i, _ in x:
                occ[i] = occ.get(i, 0) + 1
        return occ

    def importance(self):
        out = {}
        for i, n in self.occurrences().items():
            p, mif, P = self.pv[i], self.mif(i), self.p_total
            r = {"occurrence": n, "probability": p, "MIF": mif, "CIF": 0.0, "DIF": 0.0, "RAW": 0.0, "RRW": 0.0}
            if P != 0:
                r["CIF"] = p * mif / P
                r["RAW"] = 1 + (1 - p) * mif / P
                r["DIF"] = p * r["RAW"]
                d = P - p * mif
                r["RRW"] = P / d if abs(d) > 1e-9 * abs(P) + 1e-11 else None  # ill-conditioned
            out[i] = r
        return out


# ---------------------------------------------------------------- event trees

def rule_ins(m, name):
    for r in m.get("rules", []):
        if r["n"] == name:
            return r["ins"]
    raise KeyError(name)


class Path:
    def __init__(self):
        self.formulas, self.exprs, self.sets, self.states = [], [], {}, {}

    def fork(self):
        c = Path()
        c.formulas, c.exprs, c.sets, c.states = list(self.formulas), list(self.exprs), dict(self.sets), dict(self.states)
        return c


def sequences(m, ie, time):
    """{sequence name: [Path]} of an initiating event, by walking the event trees."""
    ets = {e["n"]: e for e in m["ets"]}
    out = {}

    def run(ins, path):
        """Executes instructions; returns True if a link took the path elsewhere."""
        linked = False
        for i in ins:
            k = i[0]
            if k == "set":
                path.sets[i[1]] = i[2]
            elif k == "cf":
                path.formulas.append((i[1], dict(path.sets)))
            elif k == "ce":
                # The value is taken in the context of this path.
                path.exprs.append((i[1], dict(path.states)))
            elif k == "if":
                env = Env(m, time, ie["n"], path.states)
                if ev(i[1], env):
                    linked |= run([i[2]], path)
                elif i[3] is not None:
                    linked |= run([i[3]], path)
            elif k == "block":
                linked |= run(i[1], path)
            elif k == "rule":
                linked |= run(rule_ins(m, i[1]), path)
            elif k == "link":
                linked = True
                c = path.fork()
                c.states = {}
                walk(ets[i[1]], ets[i[1]]["init"], c)
        return linked

    def walk(et, b, path):
        run(b["ins"], path)
        t = b["t"]
        if t[0] == "fork":
            for st, br in t[2]:
                c = path.fork()
                c.states[t[1]] = st
                walk(et, br, c)
        elif t[0] == "br":
            nb = [x for x in et["branches"] if x["n"] == t[1]][0]
            walk(et, nb["b"], path)
        else:
            s = [x for x in et["seqs"] if x["n"] == t[1]][0]
            if not run(s.get("ins", []), path):
                out.setdefault(t[1], []).append(path)
    et = ets[ie["et"]]
    walk(et, et["init"], Path())
    return out


def sequence_unit(m, world, ie, paths, opts):
    """(kind, Unit or probability) for one sequence."""
    fs = [p for p in paths if p.formulas]
    es = [p for p in paths if p.exprs]
    if fs:
        names = {}
        for p in fs:
            for f, _ in p.formulas:
                world.variables(f, None, names)
        if len(names) > world.max_vars:
            raise Unsupported("too many variables")
        tb, rules = world.constrain(None, names) if m.get("subs") else (Table(list(names)), None)
        acc = 0
        for p in paths:
            a = tb.full
            for f, sets in p.formulas:
                _, t = world.table(f, sets, tb)
                a &= t
            acc |= a
        if rules is not None:
            acc &= rules
        return "formula", Unit(world, tb, acc, opts)
    if es:
        tot = 0.0
        for p in paths:
            r = 1.0
            for e, states in p.exprs:
                r *= ev(e, Env(m, world.time, ie["n"], states))
            tot += r
        return "expression", tot
    tb = Table([])
    return "true", Unit(world, tb, tb.full, opts)


# ---------------------------------------------------------------- random parameters

def sample(e, env, n, g, cache):
    """n independent draws of an expression, one value per trial and parameter (array or scalar)."""
    k = e[0]
    if k in ("c", "i", "bool", "t", "pi", "tie", "tfe"):
        return ev(e, env)
    if k == "p":
        if e[1] not in cache:
            cache[e[1]] = sample(env.params[e[1]]["e"], env, n, g, cache)
        return cache[e[1]]
    if k in DEVIATES and ("shared", id(e)) in cache:
        return cache["shared", id(e)]
    if k in DEVIATES and cache.get("share by identity"):
        c, cache["share by identity"] = cache["share by identity"], None
        cache["shared", id(e)] = sample(e, env, n, g, cache)
        cache["share by identity"] = c
        return cache["shared", id(e)]
    if k in DEVIATES:
        # The arguments of a distribution are taken by their mean values.
        if k == "histogram":
            bs = [ev(e[1], env)] + [ev(b, env) for b, _ in e[2]]
            ws = np.array([ev(w, env) for _, w in e[2]])
            i = g.choice(len(ws), size=n, p=ws / ws.sum())
            lo, hi = np.array(bs[:-1])[i], np.array(bs[1:])[i]
            return lo + (hi - lo) * g.random(n)
        a = [ev(x, env) for x in e[1:]]
        if k == "uniform":
            return g.uniform(a[0], a[1], n)
        if k == "normal":
            return g.normal(a[0], a[1], n)
        if k == "beta":
            return g.beta(a[0], a[1], n)
        if k == "gamma":
            return g.gamma(a[0], a[1], n)
        if len(a) == 3:
            from statistics import NormalDist
            s = math.log(a[1]) / NormalDist().inv_cdf(a[2])
            return g.lognormal(math.log(a[0]) - s * s / 2, s, n)
        return g.lognormal(a[0], a[1], n)
    if k == "ite":
        c, x, y = [sample(z, env, n, g, cache) for z in e[1:]]
        return np.where(np.asarray(c) != 0, x, y)
    if k == "switch":
        r = sample(e[2], env, n, g, cache)
        for c, v in reversed(e[1]):
            r = np.where(np.asarray(sample(c, env, n, g, cache)) != 0, sample(v, env, n, g, cache), r)
        return r
    if k == "extern":
        return extern_value(env.funcs[e[1]], env.salts[env.funcs[e[1]]["lib"]], [sample(x, env, n, g, cache) for x in e[2]])
    a = [sample(x, env, n, g, cache) for x in e[1:]]
    if k in ("add", "mean"):
        s = sum(a)
        return s / len(a) if k == "mean" else s
    if k in ("sub", "div", "mul"):
        r = a[0]
        for x in a[1:]:
            r = r - x if k == "sub" else r / x if k == "div" else r * x
        return r
    if k == "neg":
        return -a[0]
    if k in ("min", "max"):
        r = a[0]
        for x in a[1:]:
            r = np.minimum(r, x) if k == "min" else np.maximum(r, x)
        return r
    if k == "sqrt":
        return np.sqrt(a[0])
    if k == "pow":
        return np.power(a[0], a[1])
    if k in ("lt", "gt", "leq", "geq"):
        x, y = np.asarray(a[0]), np.asarray(a[1])
        return {"lt": x < y, "gt": x > y, "leq": x <= y, "geq": x >= y}[k].astype(float)
    if k == "exp":
        return 1 - np.exp(-(a[0] * a[1]))
    if k == "glm":
        gm, lam, mu, t = a
        r = lam + mu
        return (lam - (lam - gm * r) * np.exp(-r * t)) / r
    if k == "weibull":
        al, be, t0, t = a
        x = np.maximum(0.0, (t - t0) / al)
        return 1 - np.exp(-np.power(x, be))
    if not is_deviate(e, env):
        return ev(e, env)
    raise Unsupported(k)


def event_samples(world, names, n, g):
    """{event name: draws of its probability}; parameters and group distributions are shared by all events."""
    cache, out, groups = {}, {}, {}

    def clip(x):
        return np.clip(np.broadcast_to(np.asarray(x, dtype=float), (n,)), 0.0, 1.0)
    for c in world.m.get("ccfs", []):
        groups[c["n"]] = sample(c["dist"], world.env, n, g, cache)
    for name in names:
        if isinstance(name, tuple):
            c = [x for x in world.m["ccfs"] if x["n"] == name[1]][0]
            out[name] = clip(ccf_samples(c, groups[c["n"]], world.env, n, g, cache)[len(name[2])])
        elif name in world.in_ccf:
            out[name] = clip(groups[world.in_ccf[name]["n"]])
        else:
            e = world.basics[name].get("e")
            out[name] = clip(sample(e, world.env, n, g, cache) if e is not None else 0.0)
    return out


def ccf_samples(c, q, env, n, g, cache):
    key = ("ccf", c["n"])
    if key in cache:
        return cache[key]
    f = [sample(x, env, n, g, cache) for x in c["factors"]]
    m = len(c["members"])
    out = {}
    if c["model"] == "beta-factor":
        out[1], out[m] = (1 - f[0]) * q, f[0] * q
    elif c["model"] == "MGL":
        mx = len(f) + 1
        for k in range(1, mx + 1):
            r = q / comb(m - 1, k - 1)
            for j in range(k - 1):
                r = r * f[j]
            out[k] = r * (1 - f[k - 1]) if k < mx else r
    elif c["model"] == "alpha-factor":
        tot = sum((i + 1) * a for i, a in enumerate(f))
        for k in range(1, len(f) + 1):
            out[k] = k / comb(m - 1, k - 1) * f[k - 1] / tot * q
    else:
        for k in range(1, len(f) + 1):
            out[k] = f[k - 1] * q
    cache[key] = out
    return out


def unit_samples(unit, n, g):
    """Draws of the top probability of a Unit."""
    tb = unit.tb
    d = event_samples(unit.world, tb.names, n, g)
    p = [d[x] for x in tb.names]

    def prod(x):
        r = np.ones(n)
        for i, neg in x:
            r = r * ((1 - p[i]) if neg else p[i])
        return r
    if unit.approx == "none":
        w = [np.ones(n)]
        for i in range(tb.n):
            w = [x * (1 - p[i]) for x in w] + [x * p[i] for x in w]
        tot = np.zeros(n)
        for i in tb.bits(unit.f):
            tot = tot + w[i]
        return tot
    if unit.approx == "rare-event":
        s = np.zeros(n)
        for x in unit.products:
            s = s + prod(x)
        return np.minimum(1.0, s)
    r = np.ones(n)
    for x in unit.products:
        r = r * (1 - prod(x))
    return 1 - r


def sequence_samples(m, ie, name, time, n, g):
    """Draws of the probability of a sequence with collected expressions only; an expression collected on several paths has one value."""
    cache = {"share by identity": True}
    tot = np.zeros(n)
    for p in sequences(m, ie, time)[name]:
        if p.exprs:
            r = np.ones(n)
            for e, states in p.exprs:
                if any(x in str(e) for x in ("'tie'", "'tfe'")):
                    raise Unsupported("context")
                r = r * sample(e, Env(m, time, ie["n"], states), n, g, cache)
            tot = tot + r
    return np.clip(tot, 0.0, 1.0)
