"""Runner: seeded search over simulated runs, minimisation, replay files, evidence.

A property module (props/<id>.py) provides
  COUNTS   {"quick": n, "thorough": n}   runs explored
  RULE     how runs are made and what makes one non-trivial
  REAL / STUB   components that ran real code / a stand-in
  prepare()            build what the runs need (called once, before the workers are forked)
  gen(r, i, tier)      -> plan: a JSON value that decides the whole run
  execute(plan)        -> Out
  shrink(plan)         -> iterable of simpler plans (optional)
  known(plan, out)     -> key of a known finding, or None (optional)
One integer (VERIF_SEED) decides everything: run i uses random.Random(sha256(seed/property/i))."""
import collections, hashlib, importlib, json, multiprocessing as mp, os, sys, time, traceback
from . import gen as G

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Out:
    """What one run showed. viol: None or (class, detail). sig: what the run reached (for distinctness);
    nontrivial: whether the run exercised the property. stats: counters (faults fired, probes hit, time)."""
    __slots__ = ("viol", "sig", "nontrivial", "stats", "log")

    def __init__(self):
        self.viol, self.sig, self.nontrivial, self.log = None, "", True, None
        self.stats = collections.Counter()

    def fail(self, cls, detail=""):
        if self.viol is None:
            self.viol = (cls, str(detail))
        return self


def jdump(x):
    return json.dumps(x, separators=(",", ":"), sort_keys=True)


def h16(x):
    if not isinstance(x, (bytes, str)): x = jdump(x)
    if isinstance(x, str): x = x.encode()
    return hashlib.sha256(x).hexdigest()[:16]


def repo_dir():
    return os.path.realpath(os.environ.get("DST_REPO", "/repo"))


def run_plan(mod, plan):
    """mod.execute; an exception that escapes from the repository's own code is what the run found, any other is the harness's."""
    try:
        return mod.execute(plan)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        fr = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        last = [f for f in fr if os.path.realpath(f).startswith((repo_dir() + "/", VERIF + "/"))]
        if last and os.path.realpath(last[-1]).startswith(repo_dir() + "/") and not os.path.realpath(last[-1]).startswith(VERIF + "/"):
            return Out().fail("escaped-exception:" + type(e).__name__, traceback.format_exc()[-1500:])
        raise


def run_apart(mod, plan, limit=60):
    """run_plan in a process of its own, for plans that end the process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            o = run_plan(mod, plan)
            with os.fdopen(w, "w") as f: f.write(jdump(o.viol))
        finally:
            os._exit(0)
    os.close(w)
    end = time.monotonic() + limit
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        if time.monotonic() > end:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            os.close(r)
            return Out().fail("simulation-hung", "no end within %d s" % limit)
        time.sleep(.01)
    with os.fdopen(r) as f: t = f.read()
    o = Out()
    if os.WIFSIGNALED(st): return o.fail("process-died:signal %d" % os.WTERMSIG(st), "the process running the code under test was ended by a signal")
    if t:
        v = json.loads(t)
        if v: o.fail(*v)
    return o


def _worker(mod, seed, tier, idx, deadline, q, trace, at):
    sys.setrecursionlimit(10000)
    res = {"n": 0, "sigs": set(), "stats": collections.Counter(), "bad": [], "err": None, "samples": [], "last": None, "stopped": False, "log": []}
    try:
        for i in idx:
            if time.monotonic() > deadline:
                res["stopped"] = True
                break
            at.value = i
            plan = mod.gen_run(G.rng_for(seed, mod.ID, i), i, tier)
            o = run_plan(mod, plan)
            res["n"] += 1
            res["stats"].update(o.stats)
            if trace:
                res["log"].append((i, h16([jdump(plan), o.sig, o.viol, sorted(o.stats.items())])))
            if o.nontrivial:
                res["sigs"].add(h16(o.sig or jdump(plan)))
            if o.nontrivial and (not res["samples"] or (len(jdump(res["samples"][0]["plan"])) > 3000 > len(jdump(plan)))):
                res["samples"] = [{"run": i, "plan": plan}]
            if o.viol:
                res["bad"].append((i, plan, o.viol))
                if len(res["bad"]) >= 8:
                    break
    except BaseException:
        res["err"] = traceback.format_exc()
    finally:
        if hasattr(mod, "cleanup"):
            try: mod.cleanup()
            except Exception: pass
    q.put(res)
    q.close()
    q.join_thread()
    sys.stdout.flush()
    os._exit(0)


def explore(mod, seed, tier, count, workers, wall, trace=False):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    deadline = time.monotonic() + wall
    at = [ctx.Value("q", -1, lock=False) for _ in range(workers)]
    ps = [ctx.Process(target=_worker, args=(mod, seed, tier, range(w, count, workers), deadline, q, trace, at[w])) for w in range(workers)]
    for p in ps: p.start()
    res, gone, stuck = [], set(), {}
    limit = getattr(mod, "RUN_LIMIT", 90)
    while len(res) + len(gone) < workers:
        try:
            res.append(q.get(timeout=2))  # fails when nothing arrives: then look at the workers
        except Exception:
            gone |= {w for w, p in enumerate(ps) if p.exitcode not in (None, 0)}
            for w, p in enumerate(ps):  # a run that does not end
                if stuck.get(w, (None,))[0] != at[w].value: stuck[w] = (at[w].value, time.monotonic())
                elif p.exitcode is None and time.monotonic() > stuck[w][1] + limit:
                    p.kill()
                    p.join()
                    gone.add(w)
            if time.monotonic() > deadline + 240:
                gone |= {w for w, p in enumerate(ps) if p.exitcode is None}
                break
    for p in ps:
        if p.exitcode is None and gone: p.join(5)
        if p.exitcode is None and gone: p.kill()
        p.join()
    for w in sorted(gone):  # what was it doing? the run is decided by its number: do it again, apart
        i = at[w].value
        r = {"n": 1, "sigs": set(), "stats": collections.Counter(worker_died=1), "bad": [], "err": None, "samples": [], "last": None, "stopped": False, "log": []}
        plan = mod.gen_run(G.rng_for(seed, mod.ID, i), i, tier) if i >= 0 else None
        o = run_apart(mod, plan) if plan is not None else Out()
        if o.viol: r["bad"].append((i, plan, o.viol))
        else: r["err"] = "a simulation worker died or did not finish (run %d, exit code %s); the run does not do it again" % (i, ps[w].exitcode)
        res.append(r)
    return res


def minimise(mod, plan, cls, wall=60):
    """Greedy delta debugging of the plan while the same violation class persists."""
    if not hasattr(mod, "shrink") or cls == "simulation-hung":
        return plan, 0
    end, tries, changed = time.monotonic() + wall, 0, True
    size = lambda p: len(jdump(p))
    while changed and time.monotonic() < end:
        changed = False
        for cand in mod.shrink(plan):
            if time.monotonic() > end: break
            tries += 1
            try:
                o = (run_apart if cls.startswith(("process-died", "simulation-hung")) else run_plan)(mod, cand)
            except Exception:
                continue
            if o.viol and o.viol[0] == cls:
                plan, changed = cand, True
                break
    return plan, tries


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p): return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


def main(argv):
    pid = argv[0]
    mod = importlib.import_module("props." + pid.lower())
    mod.ID = pid
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    args = dict(a[2:].split("=", 1) if "=" in a else (a[2:], "1") for a in argv[1:])
    tier = args.get("tier", tier)
    seed = int(args.get("seed", seed))
    workers = int(args.get("workers", min(8, os.cpu_count() or 1)))
    if "replay" in args:
        with open(args["replay"]) as f: rp = json.load(f)
        mod.prepare(tier)
        o = (run_apart if rp.get("class", "").startswith(("process-died", "simulation-hung")) else run_plan)(mod, rp["plan"])
        print("REPLAY property=%s %s" % (pid, "violation %s: %s" % o.viol if o.viol else "no violation"))
        if o.viol and args.get("quiet") != "1":
            print("VIOLATION property=%s replay=%s" % (pid, args["replay"]))
        return 1 if o.viol else 0
    t0 = time.time()
    print("property=%s tier=%s VERIF_SEED=%d workers=%d" % (pid, tier, seed, workers), flush=True)
    mod.prepare(tier)
    t_build = time.time() - t0
    count = int(args.get("count", mod.COUNTS[tier]))
    wall = float(args.get("wall", 420 if tier == "quick" else 700))
    # known findings first: each listed input must still fail in the listed way to be reported as known
    known = load_known(pid)
    kn_hit = []
    for k in known:
        o = run_plan(mod, k["plan"])
        if o.viol and o.viol[0] == k["class"]:
            kn_hit.append(k)
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    trace = "trace" in args
    t1 = time.time()
    res = explore(mod, seed, tier, count, workers, wall, trace)
    t_run = time.time() - t1
    errs = [r["err"] for r in res if r["err"]]
    if trace:
        for i, h in sorted(x for r in res for x in r["log"]): print("TRACE", i, h)
    n = sum(r["n"] for r in res)
    sigs = set().union(*[r["sigs"] for r in res])
    stats = collections.Counter()
    for r in res: stats.update(r["stats"])
    bad = sorted((b for r in res for b in r["bad"]), key=lambda b: b[0])
    unknown = []
    for i, plan, v in bad:
        key = mod.known(plan, v) if hasattr(mod, "known") else None
        if key is not None and any(k.get("key") == key for k in kn_hit):
            stats["known_finding_reproduced:" + key] += 1
            continue
        unknown.append((i, plan, v))
    fails = []
    seen = set()
    for i, plan, v in unknown:
        if v[0] in seen or len(fails) >= 3: continue
        seen.add(v[0])
        small, tries = minimise(mod, plan, v[0], 45 if tier == "quick" else 120)
        o = (run_apart if v[0].startswith(("process-died", "simulation-hung")) else run_plan)(mod, small)
        path = os.path.join(VERIF, "evidence", "replay-%s-%s.json" % (pid, h16(small)))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "run": i, "class": v[0], "detail": (o.viol or v)[1], "minimise_tries": tries,
                       "plan": small, "original_plan": plan, "replay": "./check %s --replay=%s" % (pid, path)}, f, indent=1)
        fails.append({"run": i, "class": v[0], "detail": (o.viol or v)[1][:600], "replay": path})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
            "samples": sorted((s for r in res for s in r["samples"]), key=lambda s: len(jdump(s)))[:2],
            "planned_runs": count, "stopped_by_wall_cap": any(r["stopped"] for r in res),
            "seeds": {"VERIF_SEED": seed, "derived_run_seeds": n},
            "runs_per_hour": int(n / max(t_run, 1e-6) * 3600),
            "simulated": {k[4:]: v for k, v in sorted(stats.items()) if k.startswith("sim:")},
            "faults_fired": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
            "probes": {k: v for k, v in sorted(stats.items()) if not k.startswith(("sim:", "fault:"))},
            "distinctness_measure": getattr(mod, "MEASURE", "hash of the run's plan"),
            "real_components": mod.REAL, "stub_components": mod.STUB,
            "workers": workers, "build_s": round(t_build, 2),
            "known_findings_reproduced": [k["what"] for k in kn_hit],
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": fails,
    }
    if "no-evidence" not in args:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.json.tmp" % pid)
        with open(tmp, "w") as f: json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("runs=%d distinct=%d wall=%.1fs (%d runs/h) %s" % (n, len(sigs), time.time() - t0, ev["coverage"]["runs_per_hour"], dict(stats)))
    for f in fails:
        print("  run %d: %s: %s" % (f["run"], f["class"], f["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
    if fails:
        return 1
    if errs:
        print(errs[0], file=sys.stderr)
        return 2
    if n == 0 or (n < min(count, 20)):
        print("too few runs completed", file=sys.stderr)
        return 2
    return 0
