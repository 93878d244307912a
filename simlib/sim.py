"""Client side of the simulators: plans, fork-server processes, scratch directories, results."""
import os
import fcntl
import shutil
import subprocess


class Result:
    __slots__ = ("end", "hash", "sched", "finished", "sim_ns", "dropped", "counters", "trace", "files", "same", "sites")

    def __init__(self, text):
        head, _, self.trace = text.partition("\n\n")
        self.counters = {}
        self.sites = []
        self.end = self.hash = self.sched = ""
        self.finished = self.sim_ns = self.dropped = 0
        for line in head.split("\n"):
            k, _, v = line.partition("=")
            if k.startswith("c."):
                self.counters[k[2:]] = int(v)
            elif k in ("finished", "sim_ns", "dropped"):
                setattr(self, k, int(v))
            elif k in ("end", "hash", "sched"):
                setattr(self, k, v)
            elif k == "sites":  # (first, last, count, largest) of every allocation site
                self.sites = [tuple(int(x) for x in t.split(":")) for t in v.split(";") if t]
        self.files = {}
        self.same = set()  # given files that are as they were

    @property
    def rc(self):
        return int(self.end.split()[1]) if self.end.startswith("exit ") else None

    @property
    def signal(self):
        return int(self.end.split()[1]) if self.end.startswith("signal ") else None

    def key(self):
        if self.signal in (9, 24):  # stopped for its processor time: the point reached is not exactly repeatable
            return (self.end, "")
        return (self.end, self.hash)


def _enc(v):
    return str(v).replace("\\", "\\\\").replace("\n", "\\n")


def encode_plan(items):
    out = []
    for k, v in items:
        if isinstance(v, (list, tuple)):
            for x in v:
                out.append("%s=%s\n" % (k, _enc(x)))
        else:
            out.append("%s=%s\n" % (k, _enc(v)))
    return "".join(out).encode()


class ServerDied(Exception):
    pass


def numbered(prefix, n):
    """The n-th name of a set of which all have the same characters: what the program draws then has the same glyphs."""
    digits, out = list("01234"), ""
    for k in (24, 6, 2, 1):
        out += digits.pop(n // k % (len(digits)))
        n %= k
    return prefix + out + digits[0]


class Root:
    """A scratch directory with a name from a small fixed set, so that paths have the same length in every run."""

    def __init__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
        for i in range(120):
            self.path = os.path.join(base, numbered("scsim", i))
            os.makedirs(self.path, exist_ok=True)
            self.lock = open(os.path.join(self.path, "lock"), "w")
            try:
                fcntl.flock(self.lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError:
                self.lock.close()
                continue
            return
        raise RuntimeError("no free scratch directory")

    def close(self):
        for n in os.listdir(self.path):
            if n != "lock":
                p = os.path.join(self.path, n)
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        shutil.rmtree(self.path, ignore_errors=True)
        self.lock.close()


class Server:
    """One fork server.  The scratch directory of a run is <root>/<slot>."""

    def __init__(self, exe, root, slot, warm=True, env=None):
        self.exe, self.root, self.slot, self.warm = exe, root, slot, warm
        self.env = env or {}
        self.proc = None
        self.start()

    def start(self):
        self.err = open(os.path.join(self.root, "server-%s.err" % self.slot), "ab")
        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": self.root, "SIM_WARM": "1" if self.warm else "0",
               "SIM_WARM_DIR": self.root}
        env.update(self.env)
        self.proc = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, stderr=self.err)

    def stop(self):
        if self.proc:
            try:
                self.proc.stdin.close()
                self.proc.wait(timeout=5)
            except Exception:
                self.proc.kill()
                self.proc.wait()
            self.proc.stdout.close()
            self.err.close()
            self.proc = None

    def restart(self):
        self.stop()
        self.start()

    def run(self, plan, files):
        """plan: dict; files: {relative name: bytes}.  Returns Result with .files of everything new in the directory."""
        cwd = os.path.join(self.root, self.slot)
        # Names have an effect on what is drawn, hashed and allocated: the program only ever sees one name of its directory.
        fixed = not os.path.basename(self.exe).startswith("simgen")
        name_of = "/proc/self/cwd" if fixed else cwd
        shutil.rmtree(cwd, ignore_errors=True)
        os.mkdir(cwd)
        for name, data in files.items():
            p = os.path.join(cwd, name)
            d = os.path.dirname(p)
            if not os.path.isdir(d):
                os.makedirs(d)
            if isinstance(data, dict):  # {"link": target}
                os.symlink(data["link"], p)
                continue
            data = data if isinstance(data, bytes) else data.encode()
            with open(p, "wb") as f:
                f.write(data.replace(b"@CWD@", name_of.encode()))

        def sub(x):
            return x.replace("@CWD@", name_of) if isinstance(x, str) else x
        items = [("cwd", name_of), ("dir", cwd if fixed else "")] + [(k, [sub(x) for x in v] if isinstance(v, (list, tuple)) else sub(v)) for k, v in plan.items()]
        body = encode_plan(items)
        self.proc.stdin.write(b"%d\n" % len(body) + body)
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            self.proc.wait()
            raise ServerDied("simulator server died (status %s)" % self.proc.returncode)
        data = self.proc.stdout.read(int(line))
        res = Result(data.decode("utf-8", "replace"))
        for d, dirs, fs in os.walk(cwd):
            for f in fs:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, cwd)
                if os.path.islink(p):
                    continue
                try:
                    with open(p, "rb") as fh:
                        b = fh.read()
                except OSError:
                    continue
                if rel in files and not isinstance(files[rel], dict):
                    if b == (files[rel] if isinstance(files[rel], bytes) else files[rel].encode()).replace(b"@CWD@", name_of.encode()):
                        res.same.add(rel)
                        continue
                res.files[rel] = b
        return res
