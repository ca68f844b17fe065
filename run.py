#!/opt/vp/venv/bin/python
"""Runs the check of one property.

    run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--jobs N] [--cap SECONDS]

Exit 0: the property held on every generated case.  Exit 1: a line
`VIOLATION property=<id> replay=<path>` was printed.  Anything else: the check could not run.
"""
import re, argparse, importlib, json, os, select, shutil, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

CAP = {"quick": 240.0, "thorough": 1500.0}          # seconds of case execution
SHRINK = {"quick": 60.0, "thorough": 180.0}


def load_known(prop):
    """Open findings of a property; lines starting with "fixed:" suppress nothing."""
    p, out = os.path.join(ROOT, "known_findings.txt"), {}
    for l in open(p):
        m = re.match(r"open: property=(\S+) id=(\S+) (.*)", l)
        if m and m.group(1) == prop: out[m.group(2)] = {"what": m.group(3)}
    return out


def regressions(prop):
    """Shrunk inputs on which an earlier version of the code failed; they run before the generated cases."""
    p = os.path.join(ROOT, "pbt", "regress", prop + ".jsonl")
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only check that the package builds")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--only", help="development: run these case indices only (comma separated)")
    ap.add_argument("--all", action="store_true", help="development: list every failing case, no shrinking")
    a = ap.parse_args()
    t0 = time.time()
    if a.tier not in CAP: a.tier = "quick"

    from pbt import build, engine
    if a.setup:
        for v in ("rel", "clk", "san"): build.build(v)
        return 0
    modname = "pbt.checks." + a.prop.lower()
    variant = {"C18": "san", "C14": "clk"}.get(a.prop, "rel")
    rundir_base = os.path.join(build.BUILD, "run")
    if variant == "san" and os.environ.get("PBT_SAN") != "1":
        build.build("san")                            # before re-executing under the sanitizer runtime
        import subprocess
        lib = [subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
               for n in ("libasan.so", "libubsan.so")]
        env = dict(os.environ, PBT_SAN="1", LD_PRELOAD=":".join(lib), PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=48",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    os.makedirs(rundir_base, exist_ok=True)
    rundir = tempfile.mkdtemp(prefix="%s-" % a.prop, dir=rundir_base)
    try:
        return go(a, t0, engine, build, modname, variant, rundir)
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def go(a, t0, engine, build, modname, variant, rundir):
    os.environ["PBT_STREED"] = build.overlay(variant, rundir)
    os.environ["PBT_SCRATCH"] = rundir
    sys.path.insert(0, rundir)
    import numpy, pandas, sklearn.base, pystreed
    assert os.path.realpath(pystreed.__file__).startswith(os.path.realpath(rundir)), pystreed.__file__
    mod = importlib.import_module(modname)
    t_build = time.time() - t0
    ctx = engine.Ctx(rundir, a.seed, a.tier, mem=None if variant == "san" else 8 << 30,
                     hang=getattr(mod, "HANG_CPU", engine.HANG_CPU))

    if a.replay:
        rep = json.load(open(a.replay))
        outs, f = engine.run_jobs(mod, ctx, [(i, c) for i, c in enumerate(rep["history"] + [rep["case"]])])
        if f is None:
            print("replay: no violation")
            return 0
        print(f["kind"], f["msg"])
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1

    known = load_known(a.prop)
    n = a.cases or mod.CASES[a.tier]
    cap = a.cap or CAP[a.tier]
    pinned = [engine.norm(c) for c in getattr(mod, "pinned", list)()] + regressions(a.prop)
    jobs = [(-1 - k, c) for k, c in enumerate(pinned)] + [(i, None) for i in range(n)]
    if a.only: jobs = [j for j in jobs if j[0] in {int(x) for x in a.only.split(",")}]
    chunk = getattr(mod, "CHUNK", 25)
    chunks = [jobs[k:k + chunk] for k in range(0, len(jobs), chunk)]
    chunks.reverse()
    live, fails, knowns = {}, [], {}
    stats = {"evaluations": 0, "cases": 0, "nontrivial": 0, "hashes": set(), "labels": {}}
    deadline = time.time() + cap
    timed_out = False
    pin = {-1 - k: c for k, c in enumerate(pinned)}

    def case_of(i):
        return pin[i] if i in pin else engine.norm(mod.gen(engine.rng_for(a.seed, mod.ID, i), a.tier, i))

    def failed(o, history):
        case = case_of(o["i"])
        k = mod.known(case, o) if hasattr(mod, "known") else None
        if k is not None and k in known:
            knowns.setdefault(k, o)
            stats["cases"] += 1
        else:
            fails.append((o, case, history))

    def account(o):
        stats["cases"] += 1
        stats["evaluations"] += o.get("ev", 1)
        for l in o.get("lb", []): stats["labels"][l] = stats["labels"].get(l, 0) + 1
        if o.get("nt"):
            stats["nontrivial"] += 1
            stats["hashes"].add(o["h"])

    def after_death(c, o):
        """A child ended early: attribute, and requeue what it had not run."""
        idx = [i for i, _ in c.jobs]
        pos = idx.index(o["i"]) if o["i"] in idx else len(c.done)
        failed(o, [j for j in c.jobs[:pos]])
        rest = c.jobs[pos + 1:]
        if rest: chunks.append(rest)

    while (chunks or live) and (a.all or not fails):
        while chunks and len(live) < a.jobs:
            c = engine.Child(mod, ctx, chunks.pop())
            live[c.fd] = c
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            c = live[fd]
            for o in c.feed():
                if o["ok"]: account(o)
                else:
                    pos = [i for i, _ in c.jobs].index(o["i"])
                    failed(o, c.jobs[:pos])
            if c.eof:
                del live[fd]
                st, tail = c.finish()
                if c.fatal: after_death(c, {"i": c.jobs[len(c.done)][0], "ok": 0, "kind": "harness-error", "msg": c.fatal})
                elif c.started is not None:
                    after_death(c, {"i": c.started, "ok": 0, "kind": engine.crash_kind(st, tail), "msg": engine.status_text(st) + "\n" + tail})
        for fd in [fd for fd, c in live.items() if c.hung(ctx.hang)]:
            c = live.pop(fd)
            i = c.started
            _, tail = c.finish(kill=True)
            after_death(c, {"i": i, "ok": 0, "kind": "hang", "msg": "no answer after %.0f s of processor time\n%s" % (ctx.hang, tail)})
        if time.time() > deadline:
            timed_out = True
            chunks.clear()
            break
    for c in live.values(): c.finish(kill=True)
    live.clear()

    if a.all:
        for o, case, _ in fails[:40]:
            print(o["i"], o["kind"], o["msg"][:700])
            if hasattr(mod, "brief"): print("   ", mod.brief(case))
        print("failures:", len(fails), {k: sum(1 for f in fails if f[0]["kind"] == k) for k in {f[0]["kind"] for f in fails}})

    violation, unconfirmed, replay = None, [], None
    for o, case, history in ([] if a.all else fails):
        if o["kind"] == "harness-error":
            print("HARNESS ERROR", o["msg"])
            return 2
        violation, replay = confirm(a, mod, ctx, engine, o, case, history, case_of)
        if violation: break
        unconfirmed.append({"case_index": o["i"], "kind": o["kind"], "msg": o["msg"][:500]})

    wall = time.time() - t0
    write_evidence(a, mod, engine, stats, pinned, knowns, violation, unconfirmed, timed_out, wall, t_build, n, case_of)
    for k, o in sorted(knowns.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, known[k]["what"]))
    if violation:
        print(violation["kind"], violation["msg"])
        print("VIOLATION property=%s replay=%s" % (a.prop, replay))
        return 1
    print("%s %s: %d cases (%d distinct non-trivial), %.0f s%s%s" % (a.prop, a.tier, stats["cases"], len(stats["hashes"]),
          wall, ", time cap reached" if timed_out else "", ", %d unconfirmed" % len(unconfirmed) if unconfirmed else ""))
    if stats["cases"] == 0:
        print("no case was executed")
        return 2
    return 0


def confirm(a, mod, ctx, engine, o, case, history, case_of):
    """Shrinks and replays; returns (failure, replay path) or (None, None)."""
    budget = SHRINK[a.tier]
    hist = []
    _, f = engine.run_jobs(mod, ctx, [(0, case)])
    tried = 0
    if f is not None and f["kind"] != "harness-error":
        small, fail, tried = engine.shrink(mod, ctx, case, f, budget)
    else:
        # needs the calls before it in the same process
        hist = [c if c is not None else case_of(i) for i, c in history]
        small = case
        _, f = engine.run_jobs(mod, ctx, list(enumerate(hist + [small])))
        if f is None:
            hits = 0
            for _ in range(10):
                _, g = engine.run_jobs(mod, ctx, [(0, case)])
                if g is not None: hits, f = hits + 1, g
            if hits < 3: return None, None
            return f, save(a, engine, f, case, [], o, "fails %d of 10 times" % hits, 0)
        fail = f
        t_end = time.time() + budget
        size = max(1, len(hist) // 2)
        while hist and size >= 1 and time.time() < t_end:
            k, shorter = 0, False
            while k < len(hist) and time.time() < t_end:
                cand = hist[:k] + hist[k + size:]
                tried += 1
                _, g = engine.run_jobs(mod, ctx, list(enumerate(cand + [small])))
                if g is not None and g["i"] == len(cand): hist, fail, shorter = cand, g, True
                else: k += size
            if not shorter: size //= 2
    for _ in range(3):
        _, g = engine.run_jobs(mod, ctx, list(enumerate(hist + [small])))
        if g is None or g["kind"] == "harness-error":
            # shrunk form is not stable; fall back to the original
            if small is not case:
                small = case
                oks = [engine.run_jobs(mod, ctx, [(0, case)])[1] for _ in range(5)]
                hits = [x for x in oks if x is not None]
                if len(hits) >= 3: return hits[-1], save(a, engine, hits[-1], case, [], o, "fails %d of 5 times" % len(hits), tried)
            return None, None
        fail = g
    return fail, save(a, engine, fail, small, hist, o, "fails every time", tried)


def save(a, engine, fail, case, hist, o, note, tried):
    import hashlib
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (a.prop, hashlib.sha1(engine.canon(case).encode()).hexdigest()[:12]))
    with open(p, "w") as f:
        json.dump({"property": a.prop, "kind": fail["kind"], "msg": fail["msg"], "note": note, "seed": a.seed,
                   "found_as_case": o["i"], "shrink_attempts": tried, "history": hist, "case": case,
                   "how": "run.py %s --replay %s" % (a.prop, p)}, f, indent=1)
    return p


def write_evidence(a, mod, engine, stats, pinned, knowns, violation, unconfirmed, timed_out, wall, t_build, n, case_of):
    samples = []
    for i in range(min(n, 3)):
        s = engine.canon(case_of(i))
        samples.append(s if len(s) < 1500 else s[:1500] + "...")
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": stats["evaluations"], "distinct_nontrivial": len(stats["hashes"]),
                       "rule": mod.RULE, "samples": samples, "cases_run": stats["cases"], "cases_planned": n + len(pinned),
                       "nontrivial_cases": stats["nontrivial"], "pinned_cases": len(pinned), "time_cap_reached": timed_out,
                       "classes": dict(sorted(stats["labels"].items(), key=lambda kv: (-kv[1], kv[0])))},
          "wall_s": round(wall, 2), "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "violations": 0 if violation is None else 1}
    ev["coverage"].update({"build_s": round(t_build, 2), "known_findings_hit": sorted(knowns), "unconfirmed": unconfirmed})
    if violation: ev["coverage"]["violation"] = {"kind": violation["kind"], "msg": violation["msg"]}
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % a.prop)
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, a.prop + ".json"))


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
