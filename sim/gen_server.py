"""Fork server for the Python scripts: one forked child runs one script in a simulated process (see pyrt.c)."""
import argparse  # noqa: F401  (loaded before the fork)
import collections  # noqa: F401
import ctypes
import hashlib
import os
import random  # noqa: F401
import resource
import runpy
import signal
import sys
import time as _time

SCRIPTS = os.environ.pop("SIM_SCRIPTS")
LIB = ctypes.CDLL(os.environ.pop("LD_PRELOAD"))
SCRIPT = os.path.join(SCRIPTS, "fault_tree_generator.py")


class Junk:
    pass


def churn(seed):
    """Fills the heap with holes, so that the addresses of later objects depend on the seed."""
    if not seed:
        return None
    r = random.Random(seed)
    keep = []
    for _ in range(r.randrange(2000)):
        j = Junk()
        if r.random() < 0.5:
            j.x = set(range(r.randrange(1, 9)))
        if r.random() < 0.5:
            j.y = "x" * r.randrange(400)
        keep.append(j)
    r.shuffle(keep)
    return keep[:r.randrange(len(keep) + 1)]


def child(plan):
    def one(k, d=None):
        return plan[k][-1] if k in plan else d
    os.chdir(one("cwd"))
    for k in list(os.environ):
        del os.environ[k]
    for x in plan.get("env", ()):
        k, _, v = x.partition("=")
        os.environ[k] = v
    tfd = os.open("trace", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(tfd, 200)
    os.close(tfd)
    for fd, name in ((1, "stdout"), (2, "stderr")):
        if one(name) == "full":
            f = os.open("/dev/full", os.O_WRONLY)
        elif one(name) == "closed":
            f = os.open("/dev/null", os.O_RDONLY)
        else:
            f = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(f, fd)
        os.close(f)
    f = os.open("/dev/null", os.O_RDONLY)
    os.dup2(f, 0)
    os.close(f)
    signal.signal(signal.SIGXCPU, signal.SIG_DFL)
    cpu = int(one("cpu_s", 20))
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
    mem = int(one("mem_mb", 1500)) << 20
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    random.seed(int(one("history", 0)))  # state left by whatever ran before
    keep = churn(int(one("heap", 0)))
    for i, x in enumerate(plan.get("fault", ())):
        op, path, nth, action, arg = (x.split("|") + [""])[:5]
        LIB.sim_py_fault(op.encode(), path.encode(), ctypes.c_long(int(nth.rstrip("+"))), int(nth.endswith("+")), action.encode(), ctypes.c_long(int(arg or 0)))
    sys.argv = [SCRIPT] + list(plan.get("arg", ()))
    sys.path.insert(0, SCRIPTS)
    LIB.sim_py_config(ctypes.c_uint64(int(one("seed", 1))), ctypes.c_int64(int(one("clock.wall", 10 ** 18))), ctypes.c_int64(int(one("clock.mono", 10 ** 12))),
                      ctypes.c_int64(int(one("clock.step", 1000))), int(one("pid", 4711)), 200, os.getcwd().encode(), ctypes.c_long(int(one("disk.capacity", -1))))
    del plan
    globals()["_keep"] = keep
    runpy.run_path(SCRIPT, run_name="__main__")


def read_exactly(n):
    b = b""
    while len(b) < n:
        x = os.read(0, n - len(b))
        if not x:
            break
        b += x
    return b


def serve():
    """One request, in a process forked from a server that does nothing else, so that every run starts from the same heap."""
    line = b""
    while not line.endswith(b"\n"):
        x = os.read(0, 1)
        if not x:
            os._exit(1)
        line += x
    body = read_exactly(int(line)).decode()
    plan = {}
    for l in body.split("\n"):
        k, eq, v = l.partition("=")
        if eq:
            plan.setdefault(k, []).append(v.replace("\\n", "\n").replace("\\\\", "\\"))
    cwd = plan["cwd"][-1]
    pid = os.fork()
    if pid == 0:
        child(plan)
        return
    limit = _time.monotonic() + 3 * int(plan.get("cpu_s", ["20"])[-1]) + 60
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if _time.monotonic() > limit:
            os.kill(pid, signal.SIGKILL)
        _time.sleep(0.001)
    end = "exit %d" % os.WEXITSTATUS(st) if os.WIFEXITED(st) else "signal %d" % os.WTERMSIG(st)
    h = hashlib.sha1(end.encode())
    trace = b""
    counters = {}
    if not end.startswith("signal"):
        for d, dirs, fs in sorted(os.walk(cwd)):
            for f in sorted(fs):
                with open(os.path.join(d, f), "rb") as fh:
                    data = fh.read()
                h.update(f.encode() + b"\0" + data)
        with open(os.path.join(cwd, "trace"), "rb") as fh:
            trace = fh.read()
    for t in trace.decode().split("\n"):
        if t:
            k = t.split(" ")[0]
            counters[k] = counters.get(k, 0) + 1
    out = "end=%s\nhash=%s\nsched=\nfinished=1\n" % (end, h.hexdigest()[:16])
    out += "".join("c.%s=%d\n" % x for x in sorted(counters.items()))
    data = (out + "\n" + trace.decode()).encode()
    data = b"%d\n" % len(data) + data
    while data:
        data = data[os.write(1, data):]
    os._exit(0)


def main():
    while True:
        pid = os.fork()
        if pid == 0:
            serve()
            return
        if os.waitpid(pid, 0)[1] != 0:
            return


main()
