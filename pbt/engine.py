"""Property-based testing engine: generation, isolated execution, shrinking, replay, evidence.

A check module provides
    ID, RULE, CASES={"quick": n, "thorough": n}
    gen(rng, tier, i) -> case            (a JSON value; the only input of check)
    check(case) -> Result or None        (raises Violation / Skip)
and optionally CHUNK, VARIANT ("rel"/"san"), pinned() -> [case], shrinks(case), ASSUMPTIONS,
known(case, violation) -> id of a known finding, TECHNIQUE-like notes in LABELS.

Cases run in forked children.  A child that dies (signal, exit, sanitizer report) or burns more than
HANG_CPU seconds of processor time on one case makes that case fail.
"""
import hashlib, json, os, random, resource, select, signal, sys, time, traceback, zlib

HANG_CPU = 90.0


class Violation(Exception):
    def __init__(self, kind, msg=""):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class Skip(Exception):
    """The case is outside the property's domain (used while shrinking)."""


class Result:
    def __init__(self, nontrivial=True, labels=(), evals=1, note=None):
        self.nontrivial, self.labels, self.evals, self.note = bool(nontrivial), list(labels), evals, note


def rng_for(seed, prop, i):
    import numpy as np
    return np.random.default_rng([int(seed) & 0xffffffff, zlib.crc32(prop.encode()), int(i)])


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _json_default(o):
    import numpy as np
    if isinstance(o, np.integer): return int(o)
    if isinstance(o, np.floating): return float(o)
    if isinstance(o, np.ndarray): return o.tolist()
    if isinstance(o, np.bool_): return bool(o)
    raise TypeError(type(o))


def norm(case):
    """Normalise to pure JSON so that generated and replayed cases are the same thing."""
    return json.loads(json.dumps(case, default=_json_default))


def run_one(mod, case):
    """Executes one case in this process; returns a JSON-able outcome."""
    try:
        r = mod.check(case)
        if r is None: r = Result()
        return {"ok": 1, "nt": int(r.nontrivial), "lb": r.labels, "ev": r.evals, "note": r.note}
    except Skip as e:
        return {"ok": 1, "nt": 0, "lb": ["skipped"], "ev": 0, "note": None}
    except Violation as v:
        return {"ok": 0, "kind": v.kind, "msg": v.msg[:3000]}
    except MemoryError:
        return {"ok": 0, "kind": "memory-exhausted", "msg": traceback.format_exc()[-2000:]}
    except Exception as e:
        if isinstance(e, OSError):
            return {"ok": 0, "kind": "harness-error", "msg": traceback.format_exc()[-3000:]}
        # Raised by the package, or by the oracle because the package handed it something malformed.
        return {"ok": 0, "kind": "unexpected-exception:" + type(e).__name__, "msg": traceback.format_exc()[-3000:]}


def _child_setup(logfd, mem):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.dup2(logfd, 1)
    os.dup2(logfd, 2)
    dn = os.open(os.devnull, os.O_RDONLY)
    os.dup2(dn, 0)
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)


def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12]) + int(p[13]) + int(p[14])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return None


class Child:
    """Forked process that runs a list of (index, case-or-None) jobs and streams outcomes."""

    def __init__(self, mod, ctx, jobs):
        self.jobs, self.mod = jobs, mod
        r, w = os.pipe()
        self.logpath = os.path.join(ctx.rundir, "log-%d-%d" % (os.getpid(), ctx.next_id()))
        log = os.open(self.logpath, os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600)
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                _child_setup(log, ctx.mem)
                for i, case in jobs:
                    if case is None:
                        case = norm(mod.gen(rng_for(ctx.seed, mod.ID, i), ctx.tier, i))
                    os.write(w, (json.dumps({"s": i}) + "\n").encode())
                    out = run_one(mod, case)
                    out["i"] = i
                    if out.get("nt"): out["h"] = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
                    data = (json.dumps(out, default=_json_default) + "\n").encode()
                    while data:
                        data = data[os.write(w, data):]
                    if ctx.truncate_log: os.ftruncate(1, 0); os.lseek(1, 0, 0)
            except BaseException:
                try:
                    os.write(2, traceback.format_exc().encode())
                    os.write(w, (json.dumps({"fatal": traceback.format_exc()[-2000:]}) + "\n").encode())
                finally:
                    code = 71
            os._exit(code)
        os.close(w)
        os.close(log)
        self.fd, self.buf = r, b""
        self.started = None          # index of the case being executed
        self.cpu0 = 0.0
        self.done = []               # indices with an outcome
        self.eof = False
        self.fatal = None

    def feed(self):
        """Reads what is available; yields outcomes."""
        data = os.read(self.fd, 1 << 16)
        if not data:
            self.eof = True
            return []
        self.buf += data
        outs = []
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            d = json.loads(line)
            if "fatal" in d: self.fatal = d["fatal"]
            elif "s" in d:
                self.started = d["s"]
                self.cpu0 = _cpu(self.pid) or 0.0
            else:
                self.done.append(d["i"])
                self.started = None
                outs.append(d)
        return outs

    def hung(self, limit):
        if self.started is None: return False
        c = _cpu(self.pid)
        return c is not None and c - self.cpu0 > limit

    def log_tail(self, n=3000):
        try:
            with open(self.logpath, "rb") as f:
                d = f.read().decode("utf8", "replace")
        except OSError:
            return ""
        for m in ("ERROR: AddressSanitizer", "runtime error:"):
            if m in d:
                k = d.index(m)
                return d[max(0, k - 200):k + n]
        return d[-n:]

    def finish(self, kill=False):
        if kill:
            try: os.killpg(self.pid, signal.SIGKILL)
            except OSError:
                try: os.kill(self.pid, signal.SIGKILL)
                except OSError: pass
        _, st = os.waitpid(self.pid, 0)
        if not kill:
            try: os.killpg(self.pid, signal.SIGKILL)
            except OSError: pass
        os.close(self.fd)
        tail = self.log_tail()
        try: os.unlink(self.logpath)
        except OSError: pass
        return st, tail


def status_text(st):
    if os.WIFSIGNALED(st):
        return "signal %s" % signal.Signals(os.WTERMSIG(st)).name
    return "exit status %d" % os.WEXITSTATUS(st)


class Ctx:
    def __init__(self, rundir, seed, tier, mem, hang=HANG_CPU):
        self.rundir, self.seed, self.tier, self.mem, self.hang = rundir, seed, tier, mem, hang
        self.truncate_log = True
        self._n = 0

    def next_id(self):
        self._n += 1
        return self._n


def run_jobs(mod, ctx, jobs, deadline=None):
    """Runs jobs in one child to the end (or first failure); returns (outcomes, failure or None)."""
    c = Child(mod, ctx, jobs)
    outs = []
    while not c.eof:
        rd, _, _ = select.select([c.fd], [], [], 1.0)
        if rd:
            for o in c.feed():
                outs.append(o)
                if not o["ok"]:
                    c.finish(kill=True)
                    return outs, o
        elif c.hung(ctx.hang):
            i = c.started
            _, tail = c.finish(kill=True)
            return outs, {"i": i, "ok": 0, "kind": "hang", "msg": "no answer after %.0f s of processor time\n%s" % (ctx.hang, tail)}
        elif deadline and time.time() > deadline:
            c.finish(kill=True)
            return outs, None
    st, tail = c.finish()
    if c.fatal:
        return outs, {"i": c.started, "ok": 0, "kind": "harness-error", "msg": c.fatal}
    if c.started is not None:
        return outs, {"i": c.started, "ok": 0, "kind": crash_kind(st, tail), "msg": status_text(st) + "\n" + tail}
    return outs, None


def crash_kind(st, tail):
    if "AddressSanitizer" in tail or "runtime error:" in tail: return "sanitizer"
    return "process-ended"


# ---------------------------------------------------------------- shrinking

def default_shrinks(case):
    """Smaller variants: fewer rows, fewer columns, default parameters.
    case["rows"]: dict of row-aligned lists; case["X"] column removal is handled via rows["X"]."""
    rows = case.get("rows")
    if isinstance(rows, dict) and rows:
        n = min(len(v) for v in rows.values())
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                c = json.loads(json.dumps(case))
                for k in rows: del c["rows"][k][a:a + size]
                yield c
            size //= 2
        X = rows.get("X")
        if X and case.get("cols_free", True):
            F = len(X[0])
            for j in range(F):
                if F <= 1: break
                c = json.loads(json.dumps(case))
                for r in c["rows"]["X"]: del r[j]
                yield c
    p = case.get("params")
    if isinstance(p, dict):
        for k in sorted(p):
            c = json.loads(json.dumps(case))
            del c["params"][k]
            yield c
        for k in ("max_depth", "max_num_nodes", "min_leaf_node_size"):
            if isinstance(p.get(k), int) and p[k] > 0:
                c = json.loads(json.dumps(case))
                c["params"][k] -= 1
                yield c


def same_failure(a, b):
    if a["kind"] == b["kind"]: return True
    dead = {"process-ended", "hang", "sanitizer"}
    return a["kind"] in dead and b["kind"] in dead


def shrink(mod, ctx, case, fail, budget_s):
    gens = getattr(mod, "shrinks", default_shrinks)
    t_end = time.time() + budget_s
    tried, progress = 0, True
    while progress and time.time() < t_end:
        progress = False
        for cand in gens(case):
            if time.time() > t_end: break
            tried += 1
            _, f = run_jobs(mod, ctx, [(0, cand)])
            if f is not None and f["kind"] != "harness-error" and same_failure(fail, f):
                case, fail, progress = cand, f, True
                break
    return case, fail, tried
