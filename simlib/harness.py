"""Search driver: seeds -> cases -> simulated runs -> verdicts, with gating, minimisation, replay files and evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from . import build, sim

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Out:
    """Verdict of one case."""

    def __init__(self):
        self.violations = []   # (signature, message)
        self.features = {}     # coverage counters of this case
        self.key = None        # what makes the case distinct
        self.nontrivial = False
        self.sample = None
        self.skipped = None

    def bad(self, sig, msg):
        self.violations.append((sig, msg))

    def feat(self, name, n=1):
        self.features[name] = self.features.get(name, 0) + n


class Ctx:
    """Runs simulations for cases; one per worker process."""

    def __init__(self, exes, root, slot):
        self.exes, self.root, self.slot = exes, root, slot
        self.servers = {}
        self.reset()

    def reset(self):
        self.hashes = []
        self.counters = {}
        self.scheds = []
        self.runs = 0
        self.sim_ns = 0
        self.ends = {}

    def server(self, exe, warm):
        key = (exe, warm)
        if key not in self.servers:
            self.servers[key] = sim.Server(self.exes[exe], self.root, self.slot, warm=warm)
        return self.servers[key]

    def sim(self, plan, files, exe="core", warm=True):
        s = self.server(exe, warm)
        try:
            res = s.run(plan, files)
        except (sim.ServerDied, BrokenPipeError, ValueError):
            s.restart()
            res = s.run(plan, files)
        self.runs += 1
        self.hashes.append((res.end, res.hash))
        self.scheds.append(res.sched)
        self.sim_ns += res.sim_ns
        for k, v in res.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        e = res.end
        self.ends[e] = self.ends.get(e, 0) + 1
        if res.end == "exit 96" or res.end == "exit 95" or res.end == "exit 93":
            raise RuntimeError("simulator could not start: " + res.end)
        return res

    def restart(self):
        for s in self.servers.values():
            s.restart()

    def close(self):
        for s in self.servers.values():
            s.stop()
        self.servers = {}


def case_rng(seed, prop, index):
    return random.Random("%s/%s/%s" % (seed, prop, index))


def _worker(wid, exes, root, check, seed, counter, limit, deadline, q, tier):
    ctx = Ctx(exes, root, sim.numbered("run", wid))
    try:
        while True:
            with counter.get_lock():
                i = counter.value
                if i >= limit or time.time() > deadline:
                    break
                counter.value = i + 1
            ctx.reset()
            case = None
            try:
                case = check.make(case_rng(seed, check.PROP, i), tier, i)
                out = check.run(ctx, case)
                q.put(("case", i, case if out.violations else None, out, ctx.runs, ctx.counters, ctx.sim_ns, ctx.hashes,
                       ctx.scheds, ctx.ends))
            except Exception:
                q.put(("error", i, case, traceback.format_exc()))
                break
    finally:
        ctx.close()
        q.put(("done", wid))


def sigs(out):
    return sorted(set(s for s, _ in out.violations))


def load_known():
    """[(property, signature prefix, text)]; 'fixed:' lines suppress nothing."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                f = line[6:].strip().split(None, 2)
                d = dict(x.split("=", 1) for x in f[:2])
                res.append((d["property"], d["match"], f[2] if len(f) > 2 else ""))
    return res


class Driver:
    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed

    def build(self):
        exes = {}
        for what in getattr(self.check, "EXES", ("core",)):
            exes[what] = getattr(build, "build_" + what)()
        return exes

    def is_known(self, sig, out, case):
        for prop, match, _ in load_known():
            if prop == self.check.PROP and sig == match:
                return True
        return False

    def main(self):
        check, tier = self.check, self.tier
        t0 = time.time()
        try:
            exes = self.build()
        except build.BuildError as e:
            print("cannot build the simulator from /repo:\n%s" % e)
            return 2
        t_build = time.time() - t0
        limit = check.CASES[tier]
        budget = check.SECONDS[tier]
        root = sim.Root()
        try:
            return self._search(exes, root, limit, budget, t0, t_build)
        finally:
            root.close()

    def _search(self, exes, root, limit, budget, t0, t_build):
        check, tier, seed = self.check, self.tier, self.seed
        nw = getattr(check, "WORKERS", min(8, os.cpu_count() or 4))
        t1 = time.time()
        deadline = t1 + budget
        counter = mp.Value("l", 0)
        q = mp.Queue()
        ps = [mp.Process(target=_worker, args=(w, exes, root.path, check, seed, counter, limit, deadline, q, tier), daemon=True)
              for w in range(nw)]
        for p in ps:
            p.start()
        done = 0
        cases = runs = 0
        counters, ends, feats = {}, {}, {}
        keys, hashes, scheds = set(), set(), set()
        sim_ns = 0
        nontrivial = set()
        samples = []
        skipped = {}
        found = []
        errors = []
        known_seen = {}
        last = time.time()
        while done < nw:
            try:
                msg = q.get(timeout=5)
            except Exception:
                if time.time() > deadline + 300:
                    errors.append("a worker does not answer")
                    break
                if all(not p.is_alive() for p in ps) and q.empty():
                    break
                continue
            if msg[0] == "done":
                done += 1
            elif msg[0] == "error":
                errors.append("case %d: %s" % (msg[1], msg[3]))
                with counter.get_lock():
                    counter.value = limit
            else:
                _, i, case, out, r, c, ns, hs, sc, en = msg
                cases += 1
                runs += r
                sim_ns += ns
                for k, v in c.items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in en.items():
                    ends[k] = ends.get(k, 0) + v
                for k, v in out.features.items():
                    feats[k] = feats.get(k, 0) + v
                hashes.update(h for _, h in hs)
                scheds.update(s for s in sc if s and s.strip("0"))
                if out.skipped:
                    skipped[out.skipped] = skipped.get(out.skipped, 0) + 1
                if out.nontrivial:
                    nontrivial.add(out.key if out.key is not None else hashlib.sha1(repr(hs).encode()).hexdigest())
                if out.sample is not None and len(samples) < 3 and out.nontrivial:
                    samples.append(out.sample)
                if out.violations:
                    new = [v for v in out.violations if not self.is_known(v[0], out, case)]
                    for v in out.violations:
                        if v not in new:
                            known_seen[v[0]] = known_seen.get(v[0], 0) + 1
                    if new:
                        found.append((i, case, out))
                        if len(found) >= getattr(check, "STOP_AFTER", 3):
                            with counter.get_lock():
                                counter.value = limit
        for p in ps:
            p.join(timeout=10)
            if p.is_alive():
                p.kill()
        t_search = time.time() - t1
        if errors:
            print("error in the check itself:\n" + "\n".join(errors[:3]))
            return 2
        # Known findings are demonstrated on every run by their own fixed cases.
        ctx = Ctx(exes, root.path, sim.numbered("run", 119))
        rc = 0
        try:
            found.sort(key=lambda x: x[0])
            lines = []
            if found:
                rc, lines = self.report(ctx, found)
            kn = self.known_probes(ctx)
            for l in kn:
                print(l)
        finally:
            ctx.close()
        hours = max(t_search, 1e-9) / 3600
        ev = {
            "property": check.PROP, "tier": tier, "seed": seed, "level": getattr(check, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len(nontrivial),
                "rule": check.RULE,
                "samples": samples or ["(no sample)"],
                "cases": cases,
                "simulated_runs": runs,
                "simulated_runs_per_hour": int(runs / hours),
                "seeds_per_hour": int(cases / hours),
                "simulated_time_s": round(sim_ns / 1e9, 6),
                "distinct_executions_by_event_hash": len(hashes),
                "distinct_schedules": len(scheds),
                "faults_injected": {k: v for k, v in sorted(counters.items())
                                    if k.startswith("fault_") or k in ("alloc_failed", "short_read", "short_write",
                                                                       "early_eof", "disk_full", "crash", "clock_jump")},
                "simulated_events": {k: v for k, v in sorted(counters.items())
                                     if not (k.startswith("fault_") or k in ("alloc_failed", "short_read", "short_write",
                                                                             "early_eof", "disk_full", "crash",
                                                                             "clock_jump"))},
                "ends": ends,
                "probes": dict(sorted(feats.items())),
                "skipped_cases": skipped,
                "real_components": getattr(check, "REAL", REAL_CORE),
                "stub_components": getattr(check, "STUB", STUB_CORE),
                "known_finding_hits": known_seen,
                "stopped_by": "time" if cases < limit and not found else "cases",
            },
            "assumptions": getattr(check, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "build_s": round(t_build, 2),
            "violations": len(found),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check.PROP + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        for l in lines:
            print(l)
        print("%s %s: %d cases, %d simulated runs, %d distinct executions, %.1f s search, %.1f s build -> %s" % (
            check.PROP, tier, cases, runs, len(hashes), t_search, t_build, "ok" if rc == 0 else "exit %d" % rc))
        need = getattr(check, "NEED", {})
        if rc == 0 and not found and cases >= min(limit, 20):
            missing = [k for k, n in need.items() if feats.get(k, 0) + counters.get(k, 0) < n]
            if missing:
                print("warning: this run never reached: %s" % ", ".join(missing))
        return rc

    def known_probes(self, ctx):
        """Runs the fixed case of every listed known finding."""
        out = []
        for prop, match, text in load_known():
            if prop != self.check.PROP:
                continue
            path = os.path.join(VERIF, "known", "%s-%s.json" % (prop, hashlib.sha1(match.encode()).hexdigest()[:8]))
            if not os.path.exists(path):
                continue
            ctx.reset()
            o = self.check.run(ctx, json.load(open(path))["case"])
            if match in sigs(o):
                out.append("KNOWN-FINDING: property=%s %s" % (prop, text))
        return out

    def attempt(self, ctx, case):
        ctx.reset()
        out = self.check.run(ctx, case)
        return out, list(ctx.hashes)

    def report(self, ctx, found):
        lines = []
        for i, case, out in found[:1]:
            want = [s for s in sigs(out) if not self.is_known(s, out, case)][0]
            o1, h1 = self.attempt(ctx, case)
            o2, h2 = self.attempt(ctx, case)
            ctx.restart()
            o3, h3 = self.attempt(ctx, case)
            if not (want in sigs(o1) and sigs(o1) == sigs(o2) == sigs(o3) and h1 == h2 == h3):
                path = self.save(i, case, want, out, h1)
                print("error: the violation %s of case %d does not replay exactly (%s)" % (want, i, path))
                print([sigs(o) for o in (out, o1, o2, o3)], h1[:3], h2[:3], h3[:3])
                return 2, lines
            small = self.minimise(ctx, case, want)
            ctx.restart()
            o, h = self.attempt(ctx, small)
            o2, h2 = self.attempt(ctx, small)
            if want not in sigs(o) or h != h2 or sigs(o) != sigs(o2):
                small, o, h = case, o1, h1
            path = self.save(i, small, want, o, h)
            msg = [m for s, m in o.violations if s == want][0]
            lines.append("violation of %s (case %d, %s):\n  %s" % (self.check.PROP, i, want, msg.replace("\n", "\n  ")))
            lines.append("VIOLATION property=%s replay=%s" % (self.check.PROP, path))
        return 1, lines

    def minimise(self, ctx, case, want):
        shrink = getattr(self.check, "shrink", None)
        if not shrink:
            return case
        end = time.time() + getattr(self.check, "SHRINK_SECONDS", 60)
        cur = case
        improved = True
        while improved and time.time() < end:
            improved = False
            for cand in shrink(cur):
                if time.time() > end:
                    break
                try:
                    o, _ = self.attempt(ctx, cand)
                except Exception:
                    continue
                if want in sigs(o):
                    cur = cand
                    improved = True
                    break
        return cur

    def save(self, i, case, want, out, hashes):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = {"property": self.check.PROP, "seed": self.seed, "index": i, "signature": want,
                "message": [m for s, m in out.violations if s == want][:1], "case": case, "runs": hashes}
        name = "%s-%s-%d-%s.json" % (self.check.PROP, self.seed, i,
                                     hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:8])
        path = os.path.join(d, name)
        with open(path, "w") as f:
            json.dump(body, f, indent=1, default=str)
        return path

    def replay(self, path):
        body = json.load(open(path))
        exes = self.build()
        root = sim.Root()
        ctx = Ctx(exes, root.path, sim.numbered("run", 119))
        try:
            out, h = self.attempt(ctx, body["case"])
            for s, m in out.violations:
                print("%s: %s" % (s, m))
            same = [list(x) for x in h] == [list(x) for x in body.get("runs", [])]
            print("event hashes %s the recorded ones" % ("equal" if same else "differ from"))
            if body["signature"] in sigs(out):
                print("VIOLATION property=%s replay=%s" % (self.check.PROP, path))
                return 1
            return 0
        finally:
            ctx.close()
            root.close()


REAL_CORE = ["src/*.cc of the working tree: command line entry (main), project, XML reader, initializer, model, PDAG and "
             "preprocessor, MOCUS, BDD, ZBDD, probability, importance, uncertainty, event trees, reporter, serializer, logger",
             "libxml2 parsing and RelaxNG validation, boost, libstdc++, the shipped schemas"]
STUB_CORE = ["malloc/free (seeded arena)", "file system calls (pass-through to a scratch directory with injected faults)",
             "wall and monotonic clocks", "entropy (getrandom, random_device, /dev/urandom)", "dlopen/dlsym (simulated libraries)"]


def run_check(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    d = Driver(check, tier, seed)
    if argv and argv[0] == "replay":
        return d.replay(argv[1])
    try:
        return d.main()
    except Exception:
        traceback.print_exc()
        return 2
