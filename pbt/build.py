"""Builds the native extension and the command line program from /repo's working tree.

Everything is written below /verif/.build (git-ignored): objects go through a private ccache, the
linked products are kept per content key.  /repo is only read.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
BUILD = os.environ.get("PBT_BUILD", os.path.join(ROOT, ".build"))
CXX = "g++"
FLAGS = {
    "rel": ["-O1"],
    # -O1 keeps the instrumented build quick; -fno-sanitize-recover makes every report fatal.
    "san": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,shift-base,alignment", "-fno-sanitize-recover=undefined",
            "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
}
FLAGS["clk"] = FLAGS["rel"]
# the module of this variant reads a clock that the check controls
WRAPPED = ["time", "clock", "clock_gettime", "gettimeofday", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv"]
CLOCK = os.path.join(ROOT, "pbt", "native", "clock.cpp")
# longest compile times first, so that the last core does not wait for one of them
HEAVY = ["bindings.cpp", "solver.cpp", "terminal_solver.cpp", "cost_combiner.cpp", "similarity_lowerbound.cpp",
         "cost_calculator.cpp", "dataset_cache.cpp", "branch_cache.cpp", "cache.cpp"]


class BuildError(Exception):
    pass


def _sources():
    src = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    def weight(p):
        b = os.path.basename(p)
        return (HEAVY.index(b) if b in HEAVY else len(HEAVY), -os.path.getsize(p))
    return sorted(src, key=weight)


def _key(variant):
    h = hashlib.sha256()
    h.update(repr((variant, FLAGS[variant], sys.version)).encode())
    files = _sources() + sorted(p for p in glob.glob(os.path.join(REPO, "include", "**", "*"), recursive=True)
                                if os.path.isfile(p))
    if variant == "clk": files.append(CLOCK)
    for p in sorted(files):
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def ext_name():
    return "cstreed" + sysconfig.get_config_var("EXT_SUFFIX")


def build(variant="rel", log=None):
    """Returns a directory holding the extension module and the program `STREED`."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        out = os.path.join(BUILD, variant, _key(variant))
        if os.path.exists(os.path.join(out, "done")):
            os.utime(os.path.join(out, "done"))
            return out
        _prune(os.path.join(BUILD, variant))
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        import pybind11
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + sysconfig.get_paths()["include"], "-I" + pybind11.get_include()]
        base = ["-std=c++17", "-fPIC", "-fvisibility=hidden", "-DNDEBUG", "-w", '-DVERSION_INFO=0'] + FLAGS[variant]
        env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="3G",
                   CCACHE_COMPILERCHECK="content", CCACHE_NOHASHDIR="1", LC_ALL="C")
        env.pop("LD_PRELOAD", None)
        cc = ([shutil.which("ccache")] if shutil.which("ccache") else []) + [CXX]
        srcs = _sources()
        objs = {}
        def one(p):
            o = os.path.join(tmp, os.path.relpath(p, os.path.join(REPO, "src")).replace("/", "__")[:-4] + ".o")
            objs[p] = o
            r = subprocess.run(cc + base + inc + ["-c", p, "-o", o], env=env, capture_output=True, text=True)
            return p, r
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for p, r in ex.map(one, srcs):
                if r.returncode:
                    raise BuildError("compiling %s failed:\n%s" % (p, r.stderr[-4000:]))
        main = [p for p in srcs if os.path.basename(p) == "main.cpp"]
        bind = [p for p in srcs if os.path.basename(p) == "bindings.cpp"]
        lib = [objs[p] for p in srcs if p not in main and p not in bind]
        extra = []
        if variant == "clk":
            objs[CLOCK] = os.path.join(tmp, "clock.o")
            r = subprocess.run(cc + base + ["-c", CLOCK, "-o", objs[CLOCK]], env=env, capture_output=True, text=True)
            if r.returncode: raise BuildError("compiling %s failed:\n%s" % (CLOCK, r.stderr[-4000:]))
            extra = [objs[CLOCK]] + ["-Wl,--wrap=" + w for w in WRAPPED]
        links = [
            ([CXX, "-shared"] + FLAGS[variant] + lib + [objs[p] for p in bind] + extra + ["-o", os.path.join(tmp, ext_name())]),
            ([CXX] + FLAGS[variant] + lib + [objs[p] for p in main] + ["-o", os.path.join(tmp, "STREED")]),
        ]
        procs = [subprocess.Popen(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in links]
        for c, p in zip(links, procs):
            o, _ = p.communicate()
            if p.returncode:
                raise BuildError("linking failed:\n" + o[-4000:])
        for o in objs.values():
            os.unlink(o)
        open(os.path.join(tmp, "done"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _prune(d, keep=6):
    if not os.path.isdir(d):
        return
    ent = []
    for n in os.listdir(d):
        p = os.path.join(d, n)
        f = os.path.join(p, "done")
        ent.append((os.path.getmtime(f) if os.path.exists(f) else 0, p))
    for _, p in sorted(ent, reverse=True)[keep:]:
        shutil.rmtree(p, ignore_errors=True)


def overlay(variant, dest):
    """Creates dest/pystreed: the package's Python files from /repo plus the freshly built module."""
    out = build(variant)
    pkg = os.path.join(dest, "pystreed")
    shutil.rmtree(pkg, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "pystreed"), pkg, ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
    shutil.copy(os.path.join(out, ext_name()), pkg)
    return os.path.join(out, "STREED")


if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ["rel"]:
        print(v, build(v), round(time.time() - t, 1), "s")
