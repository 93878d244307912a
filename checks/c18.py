"""C18: time curves and SIL metrics match point-by-point analyses over time."""
from checks import c07, c08
from simlib import analysis as A
from simlib import gen, harness, model as M, ref
from simlib.report import close

PROP = "C18"
CASES = {"quick": 6000, "thorough": 150000}
SECONDS = {"quick": 45, "thorough": 1200}
LEVEL = "exploration"
RULE = ("a case is one seeded model with time-dependent events, analysed with seeded mission times and time steps (dividing or not, longer "
        "than the mission, tiny, accumulating round-off), with and without SIL metrics, under several algorithms, approximations and phases, in "
        "one simulated process; every point is compared with the reference at that time, averages and fractions with the reference curve, "
        "and all other results with those of an analysis without the curve; non-trivial: a curve with three or more different values")
NEED = {"points": 1, "sil": 1, "phased curves": 1, "step does not divide": 1, "single point": 1, "curve rare-event": 1, "curve mcub": 1,
        "curve none": 1, "flat curve on a level boundary": 1}

PFD = [1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1]
PFH = [1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1]


def make(rng, tier, index):
    g = gen.Gen(rng, nvars=(1, 6), ngates=(1, 6), time=rng.random() < 0.85, ets=rng.random() < 0.1, aligns=rng.random() < 0.15,
                rare=rng.random() < 0.4, ccf=rng.random() < 0.1)
    m = g.model()
    if rng.random() < 0.12:  # constant probability exactly at the bound of a level
        b = rng.choice([1e-5, 1e-4, 1e-3, 1e-2, 1e-1])
        e = rng.choice(m["basics"])
        e["e"] = ["c", b]
        m["gates"].append({"n": "Gflat", "path": [m["fts"][0]], "role": "public", "f": ["null", [["b", M.eid(e), 0]]]})
    opts = []
    for _ in range(rng.randint(1, 3)):
        o = {"algorithm": rng.choice(A.ALGOS), "prob": 1}
        if o["algorithm"] != "bdd":
            o["approx"] = rng.choice(["rare-event", "mcub", "none"])
        T = rng.choice([0, 1, 1, 10, 100, 0.3, 8760, 8760, 87600, 1234.5, rng.uniform(0.1, 9999)])
        n = rng.choice([1, 1, 2, 3, 3, 4, 5, 7, 10, 10, 12])
        s = rng.choice([T / n, T / n, T / n * 0.999, T / n * 1.001, float("%.3g" % (T / n or 1)), 2 * T + 1, T])
        o["mission"] = T
        o["step"] = s if s > 0 else 1.0
        if rng.random() < 0.7:
            o["sil"] = 1
        if rng.random() < 0.4:
            o["imp"] = 1
        if m.get("ccfs"):
            o["ccf"] = 1
        if rng.random() < 0.15:
            o["limit"] = rng.choice([0, 1, 2, 3])
        opts.append(o)
        if rng.random() < 0.3:  # the same without the curve, after it
            opts.append({k: v for k, v in o.items() if k not in ("step", "sil")})
    return {"model": m, "opts": opts, "env": A.env_plan(rng), "style": rng.choice([0, 1, 3])}


def times(T, step):
    ts, t = [], 0.0
    while t < T:
        ts.append(t)
        t += step
    return ts + [T]


def integrate(ys, ts):
    return sum((ys[i] + ys[i - 1]) * (ts[i] - ts[i - 1]) for i in range(1, len(ts))) / 2 / (ts[-1] - ts[0])


def share(ys, ts, lo, hi):
    """Fraction of the time the piecewise linear curve spends in (lo, hi]."""
    tot = 0.0
    for i in range(1, len(ts)):
        a, b, dt = ys[i - 1], ys[i], ts[i] - ts[i - 1]
        if a == b:
            tot += dt if (lo < a <= hi or (lo == 0 == a)) else 0
        else:
            l, h = min(a, b), max(a, b)
            tot += dt * max(0.0, min(h, hi) - max(l, lo)) / (h - l)
    return tot / (ts[-1] - ts[0])


def at_bound(ys, bounds):
    """Some nearly flat piece lies on a bound up to rounding: its bucket is decided by the last bit."""
    for i in range(1, len(ys)):
        for b in bounds:
            l, h = min(ys[i - 1:i + 1]), max(ys[i - 1:i + 1])
            if l - 1e-9 * b <= b <= h + 1e-9 * b and h - l <= 1e-6 * b:
                return True
    return False


def check_sil(out, where, sil, ys, ts):
    if len(ts) == 1:
        out.feat("single point")
        pfd, pfh = ys[0], 0.0
        fd = [0.0] * 6
        for k, b in enumerate(PFD):
            if ys[0] <= b:
                fd[k] = 1.0
                break
        fh = [0.0] * 6
        zs = None
    else:
        zs = [y / t if t else 0.0 for y, t in zip(ys, ts)]
        pfd, pfh = integrate(ys, ts), integrate(zs, ts)
        fd = [share(ys, ts, ([0] + PFD)[k], PFD[k]) for k in range(6)]
        fh = [share(zs, ts, ([0] + PFH)[k], PFH[k]) for k in range(6)]
    if not close(sil["pfd"], pfd, abs_=1e-12):
        out.bad("wrong-PFD-avg", "%s: PFD-avg %r, expected %.9g" % (where, sil["pfd"], pfd))
    if not close(sil["pfh"], pfh, abs_=1e-14):
        out.bad("wrong-PFH-avg", "%s: PFH-avg %r, expected %.9g" % (where, sil["pfh"], pfh))
    if len(sil["hist"]) != 2:
        out.bad("wrong-SIL-histograms", "%s: %d histograms" % (where, len(sil["hist"])))
        return
    for name, h, want, bounds, cs in (("PFD", sil["hist"][0], fd, PFD, ys), ("PFH", sil["hist"][1], fh, PFH, zs)):
        if [x[1] for x in h] != bounds or [x[0] for x in h] != [0] + bounds[:-1]:
            out.bad("wrong-SIL-bounds", "%s: %s buckets %s" % (where, name, h))
            continue
        got = [x[2] for x in h]
        if sum(got) > 1 + 2e-5 or min(got) < 0 or any(g != g for g in got):
            out.bad("SIL-fractions-sum", "%s: the %s fractions %s add up to %g" % (where, name, got, sum(got)))
        flat = cs is not None and at_bound(cs, bounds)
        if flat:
            out.feat("flat curve on a level boundary")
        elif len(ts) == 1 and any(abs(ys[0] - b) <= 1e-9 * b for b in bounds):
            pass
        elif any(not close(g, w, abs_=2e-6) for g, w in zip(got, want)):
            out.bad("wrong-SIL-fractions", "%s: %s fractions %s, expected %s" % (where, name, got, ["%.6g" % w for w in want]))


def run(ctx, case):
    out = harness.Out()
    reps = A.run_case(ctx, case, out)
    if reps is None:
        return out
    c08.compare(out, case, reps, 12)
    out.nontrivial = False
    m = case["model"]
    for o, rep in zip(case["opts"], reps):
        if rep is None or out.skipped:
            continue
        fo = A.full_opts(o)
        where0 = A.opts_text(o)
        if not o.get("step"):
            if rep["curve"] or rep["sil"]:
                out.bad("unrequested-curve", "%s: the report has curves" % where0)
            continue
        want = {}
        for al, ph, T, houses in A.phases(m, fo["mission"]):
            ts = times(T, o["step"])
            for k, t in enumerate(ts):
                w = dict(m)
                if al is not None:
                    w["aligns"] = [{"n": al, "phases": [dict(p, frac=1.0) for a in m["aligns"] if a["n"] == al for p in a["phases"] if p["n"] == ph]}]
                try:
                    for i, kind, u, _ in A.targets(w, dict(o, mission=t), 12):
                        y = u.p_total if isinstance(u, ref.Unit) else min(1.0, u)
                        want.setdefault(i, ([], []))
                        want[i][0].append(t)
                        want[i][1].append(y)
                except ref.Unsupported:
                    out.skipped = "too large"
                    return out
        if set(rep["curve"]) != set(want):
            out.bad("wrong-curves", "%s: curves for %s, expected %s" % (where0, sorted(map(str, rep["curve"])), sorted(map(str, want))))
            continue
        for i, (ts, ys) in want.items():
            where = "%s [%s]" % ("/".join(str(x) for x in i if x is not None), where0)
            got = rep["curve"][i]
            if len(got) != len(ts) or any(not close(g[0], t, rel=1e-5) for g, t in zip(got, ts)):
                out.bad("wrong-curve-times", "%s: points at %s, expected %s" % (where, [g[0] for g in got], ts))
                continue
            out.feat("points", len(ts))
            out.feat("curve " + fo["approx"])
            if i[2] is not None:
                out.feat("phased curves")
            if len(ts) >= 2 and not close(ts[-1] - ts[-2], o["step"], rel=1e-3):
                out.feat("step does not divide")
            for (x, y), t, wy in zip(got, ts, ys):
                if not close(y, wy, abs_=1e-13):
                    out.bad("wrong-curve-value", "%s: value at %g is %r, expected %.9g" % (where, t, y, wy))
                    break
            if len(set(ys)) >= 3:
                out.nontrivial = True
            if o.get("sil"):
                out.feat("sil")
                if i not in rep["sil"]:
                    out.bad("missing-SIL", "%s: no SIL metrics" % where)
                else:
                    check_sil(out, where, rep["sil"][i], ys, ts)
            elif i in rep["sil"]:
                out.bad("unrequested-SIL", "%s: SIL metrics without request" % where)
    out.key = str(sorted((g["n"], str(g["f"])) for g in m["gates"])) + str([b.get("e") for b in m["basics"]]) + str(case["opts"])
    out.sample = {"events": [[M.eid(b), b.get("e")] for b in m["basics"]][:6], "configurations": [A.opts_text(o) for o in case["opts"]]}
    return out


shrink = c07.shrink
