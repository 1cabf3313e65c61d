"""C04: a finished or interrupted run leaves nothing behind but its outputs."""
import copy
from common import *
import checks.c01 as c01

PROPERTY = "C04"
LEVEL = "fault_enumeration"
PLAN = {"quick": (600, 90), "thorough": (40000, 5400)}
RULE = ("A scenario is a generated header (a third of them with a mistake), 1-5 outputs with prior states, "
        "bystander files beside the outputs and in the output, source, working, home and temporary directories (some named like "
        "temporaries or outputs) and 6 runs ended by success, rejection, output-side errors or a terminating "
        "signal delivered before or after a chosen call, with weight on the calls that touch outputs. "
        "Some runs get options that make a compiler write files, or an output in a directory that does not exist. "
        "The tree before and after each run is compared, and changes outside of it are refused and reported. Non-trivial: the signal or fault fired, or the header was "
        "rejected; distinct by (what fired and where, outputs, prior states).")
REAL = c01.REAL
STUB = ["memory allocator", "clock, pid, random numbers", "signal delivery (at call boundaries)"]
ASSUMPTIONS = ["a signal between two intercepted calls acts like one at the next call",
               "removing a file (unlink and the stat that LLVM does before it) is not made to fail"]
SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGUSR2]


# options that make a compiler write files; the tool must not
FILE_FLAGS = [["-MD"], ["-MMD", "-MF", "@/cwd/deps.d"], ["-o", "@/out/header.o"], ["-MD", "-MF", "@/out/x.d", "-MT", "x"],
              ["-o@/cwd/y.o", "-c"], ["-MM", "-MF@/tmp/z.d"], ["-c", "-o", "h.o"], ["-S"], ["-E", "-o", "@/out/h.i"], ["-M"]]


def disturbance(rng):
    faults = []
    if rng.random() < 0.04:
        # a signal while the files of a failed run are removed
        return [{"sel": "write:out", "at": rng.random(), "code": ERRNO, "arg": rng.choice(OUT_ERRNOS)},
                {"sel": "unlink:out", "nth": rng.choice([0, 0, 1]), "code": rng.choice([SIG, GO_SIG]), "arg": int(rng.choice(SIGS[:3]))}]
    k = rng.random()
    where = rng.choice(["*:out", "*:out", "*:out", "write:out", "rename:out", "open:out", "close:out", "*:*"])
    if k < 0.7:
        sig = int(rng.choice(SIGS[:4] if rng.random() < 0.8 else SIGS))
        faults.append({"sel": where, "at": rng.random(), "code": rng.choice([SIG, GO_SIG]), "arg": sig})
    if k > 0.6:
        for _ in range(rng.choice([1, 2, 3])):
            c = rng.choice([ERRNO, ERRNO, ERRNO, SHORT, GO_ERRNO])
            sel = {ERRNO: rng.choice(["write:out", "rename:out", "close:out", "open:out", "fstat|access:out", "write:stderr",
                                      "open|read|pread|stat:src"]),
                   SHORT: "write:out", GO_ERRNO: "close:out"}[c]
            faults.append({"sel": sel, "at": rng.random(), "code": c,
                           "arg": rng.choice(OUT_ERRNOS + [errno.EINTR, errno.EXDEV]) if c != SHORT else rng.randrange(100, 4095)})
            if faults[-1]["arg"] != errno.EINTR:
                faults[-1]["sticky"] = rng.random() < 0.3
    return faults


def scenario(rng, i, tier):
    nout = rng.choice([1, 1, 2, 2, 3, 5])
    h = gen.header(rng)
    mist = rng.random() < 0.33
    if mist:
        h["blocks"].insert(rng.randrange(len(h["blocks"]) + 1), gen.mistake(rng.choice(sorted(gen.MISTAKES)), 900))
    return {"header": h, "outs": pick_outs(rng, nout), "prior": [rng.choice(c01.PRIORS[:5]) for _ in range(nout)],
            "sim": engine.random_sim(rng) if rng.random() < 0.4 else dict(PLAIN_SIM),
            "flags": rng.choice([[], [], [], []] + FILE_FLAGS),
            "missing": rng.random() < 0.08,
            "args": rng.choice([[], [], [], ["--verbose"], ["--dump-graph=visibility"], ["--module-name=abc"]]),
            "runs": [disturbance(rng) if rng.random() < 0.9 else [] for _ in range(6)]}


def bystanders(w, outs):
    for o in outs:
        d, base = os.path.split("out/" + o)
        stem, ext = os.path.splitext(base)
        for n in (base + ".tmp", stem + "-0a1b2c3d" + ext + ".tmp", stem + ".tmp", base + ".bak", base + ".orig", base + "~",
                  base + ".lock", base + ".d", stem + ".d", stem + ".o", "." + base + ".swp", stem + "-1" + ext, stem + "_1" + ext,
                  base + ".new", base + ".old", "#" + base + "#", base + ".stamp", base + ".log"):
            if n not in outs and (d + "/" + n)[4:] not in outs:
                w.write(d + "/" + n, "bystander " + n)
    for d in ("out", "cwd", "home", "tmp", "src"):
        for n in ("m.cpp.tmp", "m-00000000.cpp.tmp", "other.cpp", "m.cpp~", ".hidden", "m.d"):
            w.write(d + "/" + n, "bystander " + d + n)
    w.write("out/sub/m.cpp", "bystander")
    w.write("cwd/genpybind.pch", "bystander")


def classify(w, plan, extra):
    """LLVM 18 opens a temporary and registers it for removal afterwards; a signal
    in between leaves exactly that (empty) file (known finding)."""
    # (a SIGPIPE ends the run through exit handlers, so diagnostics may be flushed after it)
    fired = [(f, x) for f, x in zip(plan.fired, plan.fired_paths) if x not in ("<stderr>", "<stdout>")]
    if len(extra) == 1 and fired and fired[-1][0][0] == "open" and fired[-1][0][1] == GO_SIG \
            and fired[-1][1] == w.path(extra[0]) and w.read(extra[0]) == b"":
        return "signal-while-creating-temporary"
    # a fatal output error takes the list of temporaries and removes them in turn; a signal
    # exactly then finds nothing to remove any more (known finding)
    if len(plan.fired) > 1 and plan.fired[-1][1] in (SIG, GO_SIG) and plan.fired[-1][0] in ("stat", "unlink") \
            and plan.fired_paths[-1].endswith(".tmp") and any(f[0] == "write" for f in plan.fired[:-1]):
        return "signal-during-fatal-cleanup"
    # if renaming fails and the fallback copy succeeds, TempFile::keep forgets the temporary (known finding)
    refused = {p for (op, code, _), p in zip(plan.fired, plan.fired_paths) if op == "rename" and code == ERRNO}
    if refused and all(w.path(e) in refused for e in extra):
        return "fallback-copy-keeps-temporary"
    # if closing fails, TempFile::discard and TempFile::keep give up before removing it (known finding)
    closed = {p for (op, _, _), p in zip(plan.fired, plan.fired_paths) if op == "close"}
    if closed and all(w.path(e) in closed for e in extra):
        return "close-error-keeps-temporary"
    if all(w.path(e) in closed | refused for e in extra):
        return "fallback-copy-keeps-temporary"
    return "left-behind"


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        outs = sc["outs"]
        flags = FLAGS + [f.replace("@", w.root) for f in sc["flags"]]
        wanted = outs + (["missing/deep/n.cpp"] if sc["missing"] else [])
        st, ref, p0 = reference(ctx, out, w, sc["header"], wanted, sc["args"], flags=flags)
        if sc["missing"]:
            out.stats["probe:output in a missing directory"] += 1
        src = w.path("src/header.h")
        names = {"out/" + o for o in outs}
        for n, faults in enumerate(sc["runs"]):
            clear(w)
            bystanders(w, outs)
            for o, k in zip(outs, sc["prior"]):
                c01.set_prior(w, o, k, ref[o])
            before = w.snapshot()
            plan = Plan(w, faults, p0.events, out)
            args = out_args(w, wanted)
            p = tool(ctx, out, w, "r%d" % n, args + sc["args"] + [src] + flags,
                     sim=sc["sim"], decide=plan)
            after = w.snapshot()
            fired = [f for f in plan.fired if f[1] in (SIG, GO_SIG)]
            if plan.fired or st != 0:
                out.marks.add(digest(repr(plan.fired), outs, sc["prior"], [f[1] for f in plan.faults]))
            extra = sorted(k for k in after if k not in before and k not in names)
            lost = sorted(k for k in before if k not in after and k not in names)
            changed = sorted(k for k in before if k in after and before[k] != after[k] and k not in names)
            what = [describe(f) for f in faults]
            away = sorted({e.path for e in p.events if e.op == "outside"})
            if away:
                out.fail("touched", "run %d (exit %d) tried to change %s" % (n, p.status, away))
            at = plan.fired_paths and [(f[0], x.replace(w.root, "@")) for f, x in zip(plan.fired, plan.fired_paths)]
            at = at and [x for k, x in enumerate(at) if k == 0 or x != at[k - 1]][-12:]
            if extra:
                out.fail(classify(w, plan, extra), "run %d (exit %d) under %s left %s; fired at %s" % (n, p.status, what, extra, at))
            if lost or changed:
                out.fail("touched", "run %d (exit %d) under %s removed %s, changed %s" % (n, p.status, what, lost, changed))
            if fired and p.status == 0:
                # SIGPIPE, like a closed pipe on stderr, is the only one the tool may survive
                out.fail("signal-success", "run %d reports success although it got signal %d; %s" % (n, fired[0][2], at))
            if sc["missing"] and p.status == 0:
                out.fail("success", "run %d reports success although an output lies in a missing directory" % n)
            if not plan.fired and p.status != st:
                out.fail("spurious", "run %d without faults exits %d instead of %d" % (n, p.status, st))
            if out.violation:
                break
        out.sample = {"outputs": dict(zip(outs, sc["prior"])), "runs": [[describe(f) for f in r] for r in sc["runs"][:3]]}
    finally:
        w.close()
    return out


def shrink(sc):
    for k in ("args", "flags", "missing"):
        if sc[k]:
            yield with_(sc, **{k: type(sc[k])()})
    yield from c01.shrink(sc)
