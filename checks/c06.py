"""C06: uncertainty statistics describe the simulated trials of the stated distributions."""
import json
import math

import numpy as np

from checks import c07
from simlib import analysis as A
from simlib import gen, harness, model as M, ref

PROP = "C06"
CASES = {"quick": 6000, "thorough": 200000}
SECONDS = {"quick": 50, "thorough": 1500}
LEVEL = "exploration"
RULE = ("a case is one seeded model with uncertain parameters (uniform, normal, log-normal, gamma, beta and histogram distributions, inside "
        "expressions, in common-cause groups, shared between events, in several targets and phases), analysed with seeded numbers of trials, "
        "quantiles and bins, seeds, algorithms and approximations in one simulated process; reported statistics must agree with each other and with "
        "independent trials of a reference simulator (tests with error probability below 1e-11 each); non-trivial: at least 1000 trials of an "
        "uncertain target compared with the reference")
NEED = {"kind " + k: 1 for k in ("uniform", "normal", "lognormal", "gamma", "beta", "histogram")}
NEED.update({"shared parameter": 1, "several targets": 1, "common-cause group": 1, "few trials": 1, "many trials": 1, "constant target": 1,
             "approximation rare-event": 1, "approximation mcub": 1, "approximation none": 1, "different seeds": 1, "phases": 1, "collected expressions": 1})
L = 28.0  # ln(2 / 1.4e-12)


def make(rng, tier, index):
    kinds = rng.choice([None, None, ["uniform"], ["normal"], ["lognormal"], ["gamma"], ["beta"], ["histogram"]])
    more = {"dev_kinds": kinds} if kinds else {}
    g = gen.Gen(rng, nvars=(1, 5), ngates=(1, 5), deviates=True, dev_p=rng.choice([0.3, 0.6, 0.9]), params=rng.random() < 0.7, share=rng.choice([0, 0.3, 0.7]),
                ccf=rng.random() < 0.15, aligns=rng.random() < 0.1, ets=rng.random() < 0.1, multi_top=rng.random() < 0.3, time=rng.random() < 0.4,
                rare=rng.random() < 0.3, **more)
    m = g.model()
    opts = []
    for _ in range(rng.randint(1, 3)):
        o = {"algorithm": rng.choice(A.ALGOS), "prob": 1, "unc": 1}
        if o["algorithm"] != "bdd" or rng.random() < 0.2:
            o["approx"] = rng.choice(["rare-event", "mcub", "none"]) if o["algorithm"] != "bdd" else "none"
        n = rng.choice([2, 3, 4, 5, 9, 20, 100, 1000, 1000, 5000, 5000, 20000])
        o["trials"] = n
        o["quantiles"] = rng.choice([1, 2, 3, 4, 5, 10, 20, 33, 100, n if n <= 1000 else 50])
        o["bins"] = rng.choice([1, 2, 3, 5, 20, 20, 50, 100, 400])
        if rng.random() < 0.9:
            o["seed"] = rng.choice([0, 1, 2, 42, 2147483647, rng.randrange(1 << 31)])
        if m.get("ccfs") and rng.random() < 0.8:
            o["ccf"] = 1
        if rng.random() < 0.3:
            o["mission"] = rng.choice([1, 100, 8760])
        if rng.random() < 0.2:
            o["imp"] = 1
        if rng.random() < 0.1:
            o["limit"] = rng.choice([0, 1, 2, 3])
        opts.append(o)
    if rng.random() < 0.5 and "seed" in opts[-1]:
        opts.append(dict(opts[-1], seed=(opts[-1]["seed"] + rng.choice([1, 2, 77])) % (1 << 31)))
    return {"model": m, "opts": opts, "env": A.env_plan(rng), "style": rng.choice([0, 1, 3])}


def e6(x):
    """Bound of the rounding of a printed number."""
    return 6e-6 * abs(x) + 1e-15


def consistent(out, where, o, r):
    n, K, B = o["trials"], o["quantiles"], o["bins"]
    nums = [r["mean"], r["sd"], r["lo"], r["hi"], r["ef"]] + [x for q in r["quantiles"] for x in q] + [x for b in r["bins"] for x in b]
    if any(x is None or not math.isfinite(x) for x in nums):
        out.bad("statistic-not-a-number", "%s: %s" % (where, r))
        return False
    se = 1.96 * r["sd"] / math.sqrt(n)
    t = e6(r["mean"]) + e6(se) + 1e-15
    if abs(r["lo"] - (r["mean"] - se)) > t + e6(r["lo"]) or abs(r["hi"] - (r["mean"] + se)) > t + e6(r["hi"]):
        out.bad("wrong-confidence-range", "%s: [%r, %r] for mean %r, standard deviation %r, %d trials" % (where, r["lo"], r["hi"], r["mean"], r["sd"], n))
    if abs(r["ef"] - math.exp(1.96 * r["sd"])) > 2e-5 * r["ef"]:
        out.bad("wrong-error-factor", "%s: error factor %r for standard deviation %r" % (where, r["ef"], r["sd"]))
    if len(r["quantiles"]) != K or len(r["bins"]) != B:
        out.bad("wrong-number-of-quantiles-or-bins", "%s: %d quantiles, %d bins" % (where, len(r["quantiles"]), len(r["bins"])))
        return False
    lo, hi = r["bins"][0][0], r["bins"][-1][1]
    width = (hi - lo) / B
    te = e6(hi)
    for i, (a, b, v) in enumerate(r["bins"]):
        if abs(a - (lo + i * width)) > 2 * te or abs(b - (lo + (i + 1) * width)) > 2 * te:
            out.bad("wrong-bins", "%s: bin %d is [%r, %r], range [%r, %r], %d bins" % (where, i + 1, a, b, lo, hi, B))
            return False
        if v < 0 or v > 1 or abs(v * n - round(v * n)) > 1e-5 * v * n + 1e-9:
            out.bad("wrong-bin-fraction", "%s: bin %d has the fraction %r of %d trials" % (where, i + 1, v, n))
    tot = sum(b[2] for b in r["bins"])
    if abs(tot - 1) > 1e-6 * B + 1e-5:
        out.bad("histogram-sum", "%s: the histogram fractions add up to %r" % (where, tot))
        return False
    if not -1e-12 <= lo <= hi <= 1 + 1e-5:
        out.bad("samples-out-of-range", "%s: the histogram covers [%r, %r]" % (where, lo, hi))
    # mean and standard deviation against the histogram
    mlo, mhi = sum(b[0] * b[2] for b in r["bins"]), sum(b[1] * b[2] for b in r["bins"])
    tm = 3 * te + 1e-5 * hi
    if not mlo - tm <= r["mean"] <= mhi + tm:
        out.bad("mean-against-histogram", "%s: mean %r, but the bins allow [%r, %r]" % (where, r["mean"], mlo, mhi))
    mids = [(b[0] + b[1]) / 2 for b in r["bins"]]
    mm = sum(x * b[2] for x, b in zip(mids, r["bins"]))
    sb = math.sqrt(sum((x - mm) ** 2 * b[2] for x, b in zip(mids, r["bins"])))
    # the mean of squares loses digits when all values are almost equal
    ts = width / 2 + 5 * te + 1e-5 * hi + 3e-8 * hi
    sp = r["sd"] * math.sqrt((n - 1) / n)
    if abs(sp - sb) > ts:
        out.bad("standard-deviation-against-histogram", "%s: standard deviation %r of the trials, %r of the histogram, bin width %r" % (where, sp, sb, width))
    prev = 0.0
    cum = [0.0]
    for b in r["bins"]:
        cum.append(cum[-1] + b[2])
    edges = [b[0] for b in r["bins"]] + [hi]
    for i, (v, a, b) in enumerate(r["quantiles"]):
        if abs(v - (i + 1) / K) > 1e-5 * v:
            out.bad("wrong-quantile-value", "%s: quantile %d is for %r of %d" % (where, i + 1, v, K))
        if i and a != prev:
            out.bad("quantiles-not-contiguous", "%s: quantile %d starts at %r, the one before ends at %r" % (where, i + 1, a, prev))
        if b < prev:
            out.bad("quantiles-decrease", "%s: quantile %d is %r after %r" % (where, i + 1, b, prev))
        if not lo - te <= b <= hi + te:
            out.bad("quantile-out-of-range", "%s: quantile %d is %r, trials are in [%r, %r]" % (where, i + 1, b, lo, hi))
        prev = b
        # share of the trials below and up to the quantile, as far as the bins tell (one trial of slack for the definition used)
        below = max([c for c, x in zip(cum, edges) if x < b - 2 * te] or [0])
        upto = min([c for c, x in zip(cum, edges) if x > b + 2 * te] or [1])
        q = (i + 1) / K
        if below > q + 1.01 / n + 1e-5 * B or upto < q - 1.01 / n - 1e-5 * B:
            out.bad("quantile-against-histogram", "%s: quantile %g is %r, but the bins put %.6g to %.6g of the trials there" % (where, q, b, below, upto))
    return True


def against(out, where, o, r, s, wide=False):
    """s: sorted draws of the reference; wide: rare values far from the others are possible."""
    n, N, K = o["trials"], len(s), o["quantiles"]
    R = s[-1] - s[0]
    lo, hi = r["bins"][0][0], r["bins"][-1][1]
    if wide:
        R = max(s[-1], hi) - min(s[0], lo)
    if R < 1e-13 * max(1e-300, s[-1]) or R == 0:
        out.feat("constant target")
        if abs(r["mean"] - s[0]) > 1e-5 * s[0] + 1e-12 or r["sd"] > 1e-7 * s[0] + 1e-12:
            out.bad("wrong-constant", "%s: mean %r, standard deviation %r of the constant %r" % (where, r["mean"], r["sd"], s[0]))
        return
    eps = math.sqrt(L / 2 / n) + math.sqrt(L / 2 / N) + 1e-6  # DKW on both sides
    mean, var = s.mean(), s.var()
    b = math.sqrt(2 * var * L) * (1 / math.sqrt(n) + 1 / math.sqrt(N)) + 7 * R * L / 3 * (1 / max(1, n - 1) + 1 / N)
    if abs(r["mean"] - mean) > b + e6(r["mean"]):
        out.bad("wrong-mean", "%s: mean %r, the reference has %r with tolerance %.3g" % (where, r["mean"], mean, b))
    d = (s - mean) ** 2
    v = r["sd"] ** 2
    bv = math.sqrt(2 * d.var() * L) * (1 / math.sqrt(n) + 1 / math.sqrt(N)) + 7 * (R * R if wide else d.max()) * L / 3 * (1 / max(1, n - 1) + 1 / N) + b * b
    if abs(v - var) > bv + 2e-5 * v + 1e-14:
        out.bad("wrong-standard-deviation", "%s: standard deviation %r, the reference has %r (variance tolerance %.3g)" % (where, r["sd"], math.sqrt(var), bv))

    def F(x, side):
        return np.searchsorted(s, x, side=side) / N
    for q, _, x in r["quantiles"]:
        t = e6(x)
        if F(x - t, "left") > q + 1.01 / n + eps or F(x + t, "right") < q - 1.01 / n - eps:
            out.bad("wrong-quantile", "%s: quantile %g is %r, in the reference %.4f to %.4f is below (tolerance %.4f)" % (
                where, q, x, F(x - t, "left"), F(x + t, "right"), eps))
            break
    c = 0.0
    for a, b2, f in r["bins"][:-1]:
        c += f
        t = 2 * e6(hi)
        if F(b2 - t, "left") > c + eps or F(b2 + t, "right") < c - eps:
            out.bad("wrong-histogram", "%s: %.4f of the trials are below %r, in the reference %.4f to %.4f (tolerance %.4f)" % (
                where, c, b2, F(b2 - t, "left"), F(b2 + t, "right"), eps))
            break
    if n >= 1000:
        out.nontrivial = True
        out.feat("many trials")


def kinds_of(e, acc):
    if isinstance(e, list):
        if e and isinstance(e[0], str):
            acc.add(e[0])
        for x in e:
            kinds_of(x, acc)


def run(ctx, case):
    out = harness.Out()
    reps = A.run_case(ctx, case, out)
    if reps is None:
        return out
    out.nontrivial = False
    m = json.loads(json.dumps(case["model"]))  # no shared objects
    acc = set()
    kinds_of([b.get("e") for b in m["basics"]] + [p["e"] for p in m.get("params", [])], acc)
    seen = []
    for o, rep in zip(case["opts"], reps):
        if rep is None:
            continue
        where0 = A.opts_text(o)
        try:
            want = A.targets(m, o, 8)
        except ref.Unsupported:
            out.skipped = "too large"
            return out
        ids = set(t[0] for t in want)
        if set(rep["measure"]) != ids:
            out.bad("wrong-targets", "%s: measures for %s, expected %s" % (where0, sorted(map(str, rep["measure"])), sorted(map(str, ids))))
            continue
        for k in ("uniform", "normal", "lognormal", "gamma", "beta", "histogram"):
            if k in acc:
                out.feat("kind " + k)
        if any(str(["p", p["n"]]) and sum(str(b.get("e")).count("['p', '%s']" % p["n"]) for b in m["basics"]) > 1 for p in m.get("params", [])):
            out.feat("shared parameter")
        if len(want) > 1:
            out.feat("several targets")
        if o.get("ccf"):
            out.feat("common-cause group")
        if o["trials"] < 10:
            out.feat("few trials")
        out.feat("approximation " + A.full_opts(o)["approx"])
        if m.get("aligns"):
            out.feat("phases")
        for i, kind, u, w in want:
            where = "%s [%s]" % ("/".join(str(x) for x in i if x is not None), where0)
            r = rep["measure"][i]
            if not consistent(out, where, o, r):
                continue
            N = 40000 if o["trials"] <= 1000 else 100000
            rand = np.random.Generator(np.random.PCG64(case["env"]["seed"]))
            if isinstance(u, ref.Unit):
                s = np.sort(ref.unit_samples(u, N, rand))
            else:
                try:
                    s = np.sort(ref.sequence_samples(m, [x for x in m["ies"] if x["n"] == i[0]][0], i[1], w.time, N, rand))
                except ref.Unsupported:
                    continue
                out.feat("collected expressions")
            if not np.all(np.isfinite(s)):
                continue
            against(out, where, o, r, s)
            # same numbers under another seed?
            for o2, i2, r2 in seen:
                if i2 == i and o2.get("seed") != o.get("seed") and "seed" in o and "seed" in o2 and {k: v for k, v in o.items() if k != "seed"} == {
                        k: v for k, v in o2.items() if k != "seed"} and len(np.unique(s[::len(s) // 1000])) > 990:
                    out.feat("different seeds")
                    if r == r2 and (s[-1] - s[0]) > 1e-3 * s[-1]:
                        out.bad("seed-ignored", "%s: the same results as with the seed %d" % (where, o2["seed"]))
            seen.append((o, i, r))
    out.key = str(sorted((g["n"], str(g["f"])) for g in m["gates"])) + str([b.get("e") for b in m["basics"]]) + str(case["opts"])
    out.sample = {"events": [[M.eid(b), b.get("e")] for b in m["basics"]][:6], "configurations": [A.opts_text(o) for o in case["opts"]]}
    return out


shrink = c07.shrink
