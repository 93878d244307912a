"""Builds the simulators from /repo's working tree into /verif/build (content-addressed object cache)."""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCRAM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")

BASE = ["-std=c++17", "-O1", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-g1", "-fno-new-ttp-matching", "-w", "-fno-pie", "-include", "boost/current_function.hpp",
        "-DBOOST_THROW_EXCEPTION_CURRENT_FUNCTION=BOOST_CURRENT_FUNCTION",
        '-DPROJECT_SOURCE_DIR="%s"' % REPO]


class BuildError(Exception):
    pass


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def _sources(root, exts):
    out = []
    for d, _, files in os.walk(root):
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def _tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0" + _read(p) + b"\0")
    return h.hexdigest()


def _version_h(dest):
    """version.h as cmake would generate it from the template."""
    text = _read(os.path.join(REPO, "src/version.h.in")).decode()
    cm = _read(os.path.join(REPO, "CMakeLists.txt")).decode()

    def num(name):
        m = re.search(r"set\(%s\s+\"?([^\"\s)]+)\"?\)" % name, cm)
        return m.group(1) if m else "0"
    ver = {k: num("SCRAM_VERSION_" + k) for k in ("MAJOR", "MINOR", "MICRO")}
    m = re.search(r"project\([^)]*VERSION\s+(\d+)\.(\d+)(?:\.(\d+))?", cm)
    if m:
        ver = {"MAJOR": m.group(1), "MINOR": m.group(2), "MICRO": m.group(3) or "0"}
    vals = {"SCRAM_VERSION_PATCH": ver["MICRO"], "SCRAM_VERSION_MAJOR": ver["MAJOR"], "SCRAM_VERSION_MINOR": ver["MINOR"], "SCRAM_VERSION_MICRO": ver["MICRO"],
            "PROJECT_VERSION_MAJOR": ver["MAJOR"], "PROJECT_VERSION_MINOR": ver["MINOR"], "PROJECT_VERSION_PATCH": ver["MICRO"],
            "SCRAM_VERSION": "%s.%s.%s" % (ver["MAJOR"], ver["MINOR"], ver["MICRO"]),
            "PROJECT_VERSION": "%s.%s.%s" % (ver["MAJOR"], ver["MINOR"], ver["MICRO"]),
            "SCRAM_GIT_REVISION": "", "GIT_REVISION": ""}
    text = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), ""), text)
    text = re.sub(r"\$\{(\w+)\}", lambda m: vals.get(m.group(1), ""), text)
    old = _read(dest).decode() if os.path.exists(dest) else None
    if old != text:
        with open(dest, "w") as f:
            f.write(text)


def _compile(args):
    src, flags, key, cwd = args
    obj = os.path.join(OBJ, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, 0
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=OBJ)
    os.close(fd)
    r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True)
    if r.returncode:
        os.unlink(tmp)
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
    if src.endswith("/gui/main.cpp"):
        subprocess.run(["objcopy", "--redefine-sym", "main=_Z8gui_mainiPPc", tmp], check=True)
    if src.endswith("/src/scram.cc"):  # the command line tool's main() becomes an ordinary function
        subprocess.run(["objcopy", "--redefine-sym", "main=_Z10scram_mainiPPc", tmp], check=True)
    os.rename(tmp, obj)
    return obj, 1


def compile_all(jobs):
    """jobs: list of (source, flags, dependency hash). Returns objects in order."""
    os.makedirs(OBJ, exist_ok=True)
    todo = []
    for src, flags, dep in jobs:
        key = hashlib.sha256(("\0".join(flags) + "\0" + dep + "\0" + src).encode() + _read(src)).hexdigest()[:32]
        todo.append((src, flags, key, BUILD))
    # Longest first: file size is a good enough predictor.
    order = sorted(range(len(todo)), key=lambda i: -_weight(todo[i][0]))
    res = [None] * len(todo)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {i: ex.submit(_compile, todo[i]) for i in order}
        for i in order:
            res[i] = futs[i].result()[0]
    return res


def _weight(path):
    w = os.path.getsize(path)
    if path.endswith("initializer.cc"):
        w += 10 ** 7
    if path.endswith(("mainwindow.cpp", "scram.cc", "reporter.cc", "main_gui.cc")):
        w += 10 ** 6
    return w


def _link(name, objs, libs, extra=()):
    key = hashlib.sha256(("\0".join(objs) + "\0".join(libs) + "\0".join(extra)).encode()).hexdigest()[:24]
    root = os.path.join(BUILD, "x-" + key)
    exe = os.path.join(root, "bin", name)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        r = subprocess.run(["g++", "-no-pie", "-o", tmp] + list(extra) + objs + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-6000:]))
        os.rename(tmp, exe)
    share = os.path.join(root, "share", "scram")
    os.makedirs(os.path.join(share, "translations"), exist_ok=True)
    open(os.path.join(share, "translations", "scramgui_de.qm"), "ab").close()
    for f in os.listdir(os.path.join(REPO, "share")):
        if f.endswith(".rng"):
            data = _read(os.path.join(REPO, "share", f))
            dst = os.path.join(share, f)
            if not os.path.exists(dst) or _read(dst) != data:
                with open(dst + ".tmp", "wb") as o:
                    o.write(data)
                os.rename(dst + ".tmp", dst)
    return exe


def _prune():
    """Keeps the caches small: drops what was not used for long when there is a lot of it."""
    if not os.path.isdir(BUILD):
        return
    objs = [os.path.join(OBJ, f) for f in os.listdir(OBJ)] if os.path.isdir(OBJ) else []
    objs.sort(key=os.path.getmtime)
    while len(objs) > 1500:
        os.unlink(objs.pop(0))
    roots = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("x-")]
    roots.sort(key=os.path.getmtime)
    while len(roots) > 24:
        shutil.rmtree(roots.pop(0), ignore_errors=True)


def core_jobs():
    src = os.path.join(REPO, "src")
    inc = os.path.join(BUILD, "include")
    os.makedirs(inc, exist_ok=True)
    _version_h(os.path.join(inc, "version.h"))
    headers = _sources(src, (".h", ".in")) + [os.path.join(inc, "version.h")]
    dep = _tree_hash(headers)
    flags = BASE + ["-I" + REPO, "-I" + src, "-I" + inc, "-I/usr/include/libxml2"]
    jobs = []
    for p in _sources(src, (".cc",)):
        jobs.append((p, list(flags), dep))
    return jobs, flags, dep


LIBS = ["-lboost_program_options", "-lboost_filesystem", "-lboost_system", "-lboost_random", "-lxml2", "-ldl", "-lpthread"]


def build_core():
    _prune()
    jobs, flags, dep = core_jobs()
    sim = os.path.join(VERIF, "sim")
    rth = _tree_hash([os.path.join(sim, "rt.h"), os.path.join(sim, "threads.h")])
    jobs.append((os.path.join(sim, "rt.cc"), ["-std=c++17", "-O2", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-w", "-fno-pie", "-fno-builtin-malloc"], rth))
    jobs.append((os.path.join(sim, "threads.cc"), ["-std=c++17", "-O2", "-w", "-fno-pie", "-fno-builtin-malloc"], rth))
    jobs.append((os.path.join(sim, "main_core.cc"), flags + ["-I" + sim], dep + rth))
    objs = compile_all(jobs)
    return _link("simscram", objs, LIBS)


def build_gen(hashseed):
    """A launcher of the simulator for the Python scripts, with one seed of the interpreter's string hashes."""
    src = os.path.join(VERIF, "sim", "pyrt.c")
    server = os.path.join(VERIF, "sim", "gen_server.py")
    root = os.path.join(BUILD, "g-" + hashlib.sha256(_read(src) + _read(server) + REPO.encode()).hexdigest()[:16])
    so = os.path.join(root, "pyrt.so")
    if not os.path.exists(so):
        os.makedirs(root, exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"], check=True)
        os.rename(tmp, so)
    exe = os.path.join(root, "simgen%d" % hashseed)
    text = "#!/bin/sh\nexec setarch -R env PYTHONHASHSEED=%d PYTHONDONTWRITEBYTECODE=1 SIM_SCRIPTS=%s LD_PRELOAD=%s /usr/bin/python3 -S %s\n" % (
        hashseed, os.path.join(REPO, "scripts"), so, server)
    if not os.path.exists(exe) or _read(exe).decode() != text:
        with open(exe + ".tmp%d" % os.getpid(), "w") as f:
            f.write(text)
        os.chmod(f.name, 0o755)
        os.rename(f.name, exe)
    return exe


def build_gen0():
    return build_gen(0)


def build_gen1():
    return build_gen(1)


def build_gen2():
    return build_gen(20261)


QT_INC = "/usr/include/x86_64-linux-gnu/qt5"
QT_LIBS = ["-lQt5" + x for x in ("Widgets", "Svg", "OpenGL", "PrintSupport", "Concurrent", "Gui", "Core")]


def _generate(gui):
    """Headers of the forms, meta-object code and resources, in a directory named after their inputs."""
    ins = _sources(gui, (".h", ".ui", ".qrc", ".png", ".svg", ".cpp"))
    ins = [p for p in ins if "/tests/" not in p and "/translations/" not in p]
    # (One directory per content: the generated files never change under a running compiler.)
    out = os.path.join(BUILD, "q-" + _tree_hash(ins)[:20])
    done = os.path.join(out, "done")
    mocs = [p for p in _sources(gui, (".h",)) if os.path.dirname(p) == gui and b"Q_OBJECT" in _read(p)]
    if not os.path.exists(done):
        os.makedirs(os.path.join(out, "src"), exist_ok=True)
        _version_h(os.path.join(out, "src", "version.h"))
        jobs = []
        for p in _sources(gui, (".ui",)):
            jobs.append(["/usr/lib/qt5/bin/uic", p, "-o", os.path.join(out, "ui_" + os.path.basename(p)[:-3] + ".h")])
        for p in mocs:
            jobs.append(["/usr/lib/qt5/bin/moc", "-I" + REPO, "-I" + gui, p, "-o", os.path.join(out, "moc_" + os.path.basename(p)[:-2] + ".cpp")])
        jobs.append(["/usr/lib/qt5/bin/rcc", "-name", "res", os.path.join(gui, "res.qrc"), "-o", os.path.join(out, "qrc_res.cpp")])
        for j in jobs:
            r = subprocess.run(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if r.returncode:
                raise BuildError("%s failed:\n%s" % (j[0], r.stdout[-3000:]))
        open(done, "w").close()
    return out, [os.path.join(out, "moc_" + os.path.basename(p)[:-2] + ".cpp") for p in mocs] + [os.path.join(out, "qrc_res.cpp")]


def build_gui():
    _prune()
    jobs, flags, dep = core_jobs()
    jobs = [j for j in jobs if not j[0].endswith("/src/scram.cc")]
    sim = os.path.join(VERIF, "sim")
    gui = os.path.join(REPO, "gui")
    out, made = _generate(gui)
    gdep = dep + _tree_hash(_sources(gui, (".h", ".ui")))
    mods = ["", "/QtCore", "/QtGui", "/QtWidgets", "/QtSvg", "/QtOpenGL", "/QtPrintSupport", "/QtConcurrent"]
    qflags = [f for f in flags if f != "-fno-pie"] + ["-fPIC", "-I" + gui, "-I" + out] + ["-isystem" + QT_INC + m for m in mods]
    for p in _sources(gui, (".cpp",)):
        if os.path.dirname(p) == gui:
            jobs.append((p, qflags, gdep))
    for p in made:
        jobs.append((p, qflags, gdep))
    rth = _tree_hash([os.path.join(sim, "rt.h"), os.path.join(sim, "threads.h")])
    jobs.append((os.path.join(sim, "rt.cc"), ["-std=c++17", "-O2", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-w", "-fno-pie", "-fno-builtin-malloc", "-DSIM_NO_DL"], rth))
    jobs.append((os.path.join(sim, "threads.cc"), ["-std=c++17", "-O2", "-w", "-fno-pie", "-fno-builtin-malloc"], rth))
    jobs.append((os.path.join(sim, "main_gui.cc"), qflags + ["-I" + sim, "-fno-access-control"], gdep + rth))
    objs = compile_all(jobs)
    exe = _link("simgui.bin", objs, QT_LIBS + LIBS)
    launcher = exe[:-4]
    text = "#!/bin/sh\nexec setarch -R %s\n" % exe
    if not os.path.exists(launcher) or _read(launcher).decode() != text:
        with open(launcher + ".tmp%d" % os.getpid(), "w") as f:
            f.write(text)
        os.chmod(f.name, 0o755)
        os.rename(f.name, launcher)
    return launcher


if __name__ == "__main__":
    import time
    t = time.time()
    for what in sys.argv[1:] or ["core"]:
        print(globals()["build_" + what](), "%.1fs" % (time.time() - t))
