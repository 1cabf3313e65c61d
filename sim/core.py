"""Search loop, minimiser, replay gate and evidence writer shared by all checks.

A check is a module checks/<id>.py with
    PROPERTY, LEVEL, RULE, REAL, STUB, ASSUMPTIONS
    PLAN = {"quick": (scenarios, seconds), "thorough": (...)}
    scenario(rng, i, tier) -> JSON value       every choice of one simulated history
    run(ctx, sc) -> Outcome                    executes it against the real code
    shrink(sc) -> iterator of simpler scenarios
    prepare(ctx)                               optional: extra builds
Scenario i of seed s is a pure function of (property, s, i).
"""
import collections, copy, fcntl, hashlib, importlib, json, multiprocessing, os, pathlib
import random, shutil, signal, subprocess, sys, time, traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "sim"))
sys.path.insert(0, str(VERIF))
import build, engine  # noqa: E402


class Outcome:
    def __init__(self):
        self.violation = None      # (class, message)
        self.known = {}            # listed findings met on the way
        self.trace = hashlib.sha256()
        self.stats = collections.Counter()
        self.marks = set()         # digests of distinct non-trivial executions
        self.sample = None
        self.evals = 0

    def log(self, *parts):
        for p in parts:
            if isinstance(p, str):
                p = p.encode("utf-8", "surrogateescape")
            elif not isinstance(p, bytes):
                p = repr(p).encode("utf-8", "surrogateescape")
            self.trace.update(str(len(p)).encode() + b":" + p)

    def fail(self, cls, msg):
        if cls in KNOWN:
            self.known[cls] = msg
            self.stats["probe:known finding " + cls] += 1
            return
        if self.violation is None:
            self.violation = (cls, msg)

    def pack(self):
        return {"violation": self.violation, "trace": self.trace.hexdigest(),
                "stats": dict(self.stats), "marks": sorted(self.marks),
                "sample": self.sample, "evals": self.evals, "known": self.known}


class Ctx:
    def __init__(self, built, tier, seed):
        self.built, self.tier, self.seed = built, tier, seed
        self.extra = {}


KNOWN = {}
_CHECK = None
_CTX = None
_DEADLINE = None


def scenario_for(check, seed, i, tier):
    rng = random.Random("%s/%d/%d" % (check.PROPERTY, seed, i))
    rng.batch = seed            # for choices shared by the scenarios of a batch
    sc = check.scenario(rng, i, tier)
    sc["id"] = "%s-%06d" % (check.PROPERTY, i % 1000000)
    return sc


def run_one(check, ctx, sc):
    out = check.run(ctx, sc)
    return out.pack()


def _work(i):
    if time.time() > _DEADLINE:
        return i, None
    sc = scenario_for(_CHECK, _CTX.seed, i, _CTX.tier)
    try:
        return i, run_one(_CHECK, _CTX, sc)
    except engine.Hang as e:
        return i, {"violation": ("hang", "no progress: %s" % e), "trace": "", "stats": {},
                   "marks": [], "sample": None, "evals": 1}
    except Exception:
        return i, {"error": traceback.format_exc()}


def safe_run(check, ctx, sc):
    try:
        return run_one(check, ctx, sc)
    except engine.Hang as e:
        return {"violation": ("hang", "no progress: %s" % e), "trace": "", "stats": {},
                "marks": [], "sample": None, "evals": 1}


def minimise(check, ctx, sc, cls, budget):
    """Greedy: keep any simpler scenario that still shows the same class."""
    end = time.time() + budget
    tried = 0
    improved = True
    while improved and time.time() < end:
        improved = False
        for cand in check.shrink(sc):
            if time.time() > end:
                break
            tried += 1
            cand["id"] = sc["id"]
            try:
                r = safe_run(check, ctx, cand)
            except Exception:
                continue
            if r["violation"] and r["violation"][0] == cls:
                sc = cand
                improved = True
                break
    return sc, tried


def known_findings(prop):
    out = []
    p = VERIF / "known-findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out.append((key[len("key="):], text))
    return out


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def acquire(prop):
    os.makedirs(engine.SCRATCH_BASE, exist_ok=True)
    f = open(os.path.join(engine.SCRATCH_BASE, ".lock-" + prop), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def cleanup(prop):
    for d in pathlib.Path(engine.SCRATCH_BASE).glob(prop + "-*"):
        shutil.rmtree(d, ignore_errors=True)


def replay(path):
    """Fresh-process replay.  Exit 1 with the same violation, 0 if it is gone."""
    doc = json.load(open(path))
    check = load(doc["property"])
    KNOWN.update(known_findings(doc["property"]))
    lock = None if os.environ.get("VERIF_LOCKED") else acquire(doc["property"])
    ctx = Ctx(build.build(), doc.get("tier", "quick"), doc["seed"])
    if hasattr(check, "prepare"):
        check.prepare(ctx)
    r = safe_run(check, ctx, doc["scenario"])
    print(json.dumps({"violation": r["violation"], "trace": r["trace"]}))
    if r["violation"]:
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        print("  %s: %s" % tuple(r["violation"]))
        return 1
    return 0


def main(prop, argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    global _CHECK, _CTX, _DEADLINE
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    print("check property=%s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    check = load(prop)
    KNOWN.update(known_findings(prop))
    lock = acquire(prop)
    cleanup(prop)
    try:
        built = build.build()
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 3
    ctx = Ctx(built, tier, seed)
    if hasattr(check, "prepare"):
        check.prepare(ctx)
    t_build = time.time() - t0
    count, seconds = check.PLAN[tier]
    if "--count" in argv:
        count = int(argv[argv.index("--count") + 1])
    scale = float(os.environ.get("VERIF_BUDGET_SCALE", "1"))
    _CHECK, _CTX, _DEADLINE = check, ctx, time.time() + seconds * scale
    workers = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    known = KNOWN

    stats, marks, samples = collections.Counter(), set(), []
    evals = done = skipped = 0
    first = None
    seen_known = {}
    traces = hashlib.sha256()
    t1 = time.time()
    pool = multiprocessing.get_context("fork").Pool(workers)
    error = None
    try:
        for i, r in pool.imap(_work, range(count), chunksize=1):
            if r is None:
                skipped += 1
                continue
            if "error" in r:
                error = (i, r["error"])
                break
            done += 1
            evals += r["evals"]
            stats.update(r["stats"])
            marks.update(r["marks"])
            traces.update(r["trace"].encode())
            if r["sample"] is not None and len(samples) < 3:
                samples.append(r["sample"])
            seen_known.update(r.get("known", {}))
            if r["violation"]:
                first = (i, r)
                break
    finally:
        pool.terminate()
        pool.join()
    wall_search = time.time() - t1

    code = 0
    if error:
        print("CHECK ERROR in scenario %d\n%s" % error)
        code = 2
    for k, text in known.items():
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if first:
        i, r = first
        sc = scenario_for(check, seed, i, tier)
        cls = r["violation"][0]
        small, tried = minimise(check, ctx, sc, cls, 90 if tier == "quick" else 300)
        a = safe_run(check, ctx, small)
        b = safe_run(check, ctx, small)
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        path = rdir / ("%s-%d-%d.json" % (prop, seed, i))
        doc = {"property": prop, "seed": seed, "index": i, "tier": tier,
               "violation": {"class": a["violation"] and a["violation"][0],
                             "message": a["violation"] and a["violation"][1]},
               "trace": a["trace"], "minimiser_runs": tried,
               "replay": "python3 check.py %s --replay %s" % (prop, path),
               "scenario": small}
        path.write_text(json.dumps(doc, indent=1))
        env = dict(os.environ, VERIF_LOCKED="1", PYTHONHASHSEED="12345")
        try:
            p = subprocess.run([sys.executable, str(VERIF / "check.py"), prop, "--replay", str(path)],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
            fresh = json.loads(next(l for l in p.stdout.decode("utf-8", "replace").splitlines()
                                    if l.startswith("{")))
        except Exception as e:
            fresh = {"violation": None, "trace": str(e)}
        ok = (a["violation"] and b["violation"] and fresh["violation"]
              and a["trace"] == b["trace"] == fresh["trace"]
              and a["violation"][0] == b["violation"][0] == fresh["violation"][0])
        if not ok:
            print("UNREPRODUCIBLE scenario %d: %r %s / %r %s / %r" % (
                i, a["violation"], a["trace"][:12], b["violation"], b["trace"][:12], fresh))
            code = 2
        else:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  scenario %d, class %s: %s" % (i, a["violation"][0], a["violation"][1]))
            code = 1

    cleanup(prop)
    wall = time.time() - t0
    hours = max(wall_search, 1e-6) / 3600.0
    fault_stats = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "probe:"))}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": check.LEVEL,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(marks),
            "rule": check.RULE,
            "samples": samples or [scenario_for(check, seed, 0, tier)],
            "scenarios": done,
            "scenarios_skipped_for_time": skipped,
            "simulated_runs_per_hour": round(evals / hours),
            "scenario_seeds_per_hour": round(done / hours),
            "simulated_time": {"scheduler_steps": stats.get("steps", 0),
                               "note": "logical time: one step per intercepted call; the "
                                       "processes read a virtual clock set by the scenario"},
            "faults_fired": fault_stats,
            "probes": probes,
            "counters": other,
            "batch_trace_digest": traces.hexdigest()[:16],
            "real_components": check.REAL,
            "stubbed_components": check.STUB,
            "build_s": round(t_build, 1), "search_s": round(wall_search, 1),
            "workers": workers,
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": 1 if code == 1 else 0,
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1, default=repr))
    print("%s: %d scenarios (%d skipped), %d simulated runs, %d distinct, %.1f s (build %.1f)" % (
        prop, done, skipped, evals, len(marks), wall, t_build))
    if code == 0 and done == 0:
        print("CHECK ERROR: nothing explored")
        code = 2
    return code
