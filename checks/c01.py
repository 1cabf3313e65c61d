"""C01: an output file is always the old content or the complete new content."""
import copy
from common import *

PROPERTY = "C01"
LEVEL = "fault_enumeration"
PLAN = {"quick": (600, 90), "thorough": (30000, 5400)}
RULE = ("A scenario is a generated header, 1-5 outputs with a prior state each (absent, older complete "
        "output, garbage, empty, read-only, symbolic link) and up to 6 disturbed runs: a kill before, after or in the "
        "middle (torn write) of a chosen call, a terminating signal, or output-side errors followed by "
        "a kill. Kill points are drawn over the whole run with weight on the calls that touch outputs. "
        "All output paths are read at every scheduler step. Non-trivial: the fault or kill fired after "
        "the first output was opened; distinct by (operation, fault, position, outputs, prior states).")
REAL = ["genpybind-tool built from /repo", "Clang/LLVM 18 libraries", "file system (scratch directory)"]
STUB = ["memory allocator", "clock, pid, random numbers", "kill and signal delivery (at call boundaries)"]
ASSUMPTIONS = ["a kill loses nothing that a completed write call handed to the kernel (process crash, "
               "not power loss: the tool never promises durability)",
               "a temporary can be created beside each output and renamed to it (otherwise clang writes in place by design)",
               "kills between two intercepted calls are equivalent to a kill at the next call"]
SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGQUIT]
PRIORS = ["absent", "old", "garbage", "empty", "readonly", "symlink", "same"]


def disturbance(rng):
    faults = []
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            c = rng.choice([ERRNO, ERRNO, SHORT, GO_ERRNO])
            if c == ERRNO and rng.random() < 0.15:
                faults.append({"sel": "open:out", "at": rng.random(), "code": c, "arg": errno.EEXIST})
                continue
            sel = {ERRNO: "write|close|access|stat|fstat|unlink|link|fsync|chmod|truncate:out",
                   SHORT: "write:out", GO_ERRNO: "close:out"}[c]
            faults.append({"sel": sel, "at": rng.random(), "code": c,
                           "arg": rng.choice(OUT_ERRNOS + [errno.EINTR, errno.EXDEV]) if c != SHORT else rng.randrange(1, 4095)})
    k = rng.random()
    where = "*:out" if rng.random() < 0.8 else "*:*"
    if k < 0.25:
        faults.append({"sel": where, "at": rng.random(), "code": KILL, "arg": 0})
    elif k < 0.5:
        faults.append({"sel": where, "at": rng.random(), "code": GO_KILL, "arg": 0})
    elif k < 0.65:
        faults.append({"sel": "write:out", "at": rng.random(), "code": TORN_KILL, "arg": rng.randrange(0, 4095)})
    elif k < 0.85:
        faults.append({"sel": where, "at": rng.random(), "code": rng.choice([SIG, GO_SIG]), "arg": int(rng.choice(SIGS))})
    elif k < 0.92:
        faults.append({"sel": where, "at": rng.random(), "code": ALLOC, "arg": rng.choice([1, 2, 5, 30, 200])})
    return faults


def scenario(rng, i, tier):
    nout = rng.choice([1, 1, 2, 2, 3, 5])
    h = gen.header(rng)
    if rng.random() < 0.15:
        h["blocks"].append(gen.mistake(rng.choice(sorted(gen.MISTAKES)), 900))
    return {"header": h, "outs": pick_outs(rng, nout), "prior": [rng.choice(PRIORS) for _ in range(nout)],
            "sim": engine.random_sim(rng) if rng.random() < 0.5 else dict(PLAIN_SIM),
            "args": ["--keep-output-files"] if rng.random() < 0.05 else [],
            "runs": [disturbance(rng) for _ in range(6)]}


OLD = b"// older generated code\n" * 300


def set_prior(w, o, kind, ref):
    if kind == "absent":
        return None
    body = {"old": OLD, "garbage": b"\0\xffgarbage", "empty": b"", "readonly": OLD, "symlink": OLD,
            "same": ref or OLD}[kind]
    if kind == "symlink":
        w.write("tmp/target-of-" + o.replace("/", "_"), body)
        os.symlink(w.path("tmp/target-of-" + o.replace("/", "_")), w.path("out/" + o))
    else:
        w.write("out/" + o, body)
        if kind == "readonly":
            os.chmod(w.path("out/" + o), 0o444)
    return body


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        outs, args = sc["outs"], [a for a in sc["args"]]
        st, ref, p0 = reference(ctx, out, w, sc["header"], outs)
        src = w.path("src/header.h")
        if sc["args"] and st != 0:
            args = []     # keeping partial output of rejected input is what that option is for
        for n, faults in enumerate(sc["runs"]):
            clear(w)
            prior = {o: set_prior(w, o, k, ref[o]) for o, k in zip(outs, sc["prior"])}
            plan = Plan(w, faults, p0.events, out)
            started = [False]

            def observe(proc):
                if proc.event is not None and path_class(w, proc.event.path) == "out":
                    started[0] = True
                for o in outs:
                    got = w.read("out/" + o)
                    if got == prior[o] or (st == 0 and got == ref[o]):
                        continue
                    if got is None and (st != 0 or any(c in (ERRNO, GO_ERRNO) for _, c, _ in plan.fired)):
                        out.stats["probe:erased after an error"] += 1
                        continue
                    if True:
                        ev = proc.events[-1] if proc.events else None
                        out.fail("torn-output", "run %d %s: %s is %s; before the run %s, complete text %s; at event %r" % (
                            n, [describe(f) for f in faults], o, short(got), short(prior[o]), short(ref[o]),
                            (ev.op, ev.path.replace(w.root, "@")) if ev else None))

            # keeping partial output after an error is what --keep-output-files is for
            a = [] if any(f["code"] in (ERRNO, GO_ERRNO) for f in faults) else args
            tool(ctx, out, w, "r%d" % n, out_args(w, outs) + a + [src] + FLAGS,
                 sim=sc["sim"], decide=plan, observe=observe)
            if plan.fired and started[0]:
                out.marks.add(digest(repr(plan.fired), len(outs), sc["prior"], [f[1] for f in plan.faults]))
            if out.violation:
                break
        out.sample = {"outputs": dict(zip(outs, sc["prior"])), "runs": [[describe(f) for f in r] for r in sc["runs"][:3]]}
    finally:
        w.close()
    return out


def shrink(sc):
    yield from shrink_list(sc, "runs", 1)
    for i in range(len(sc["outs"])):
        if len(sc["outs"]) > 1:
            yield with_(sc, outs=sc["outs"][:i] + sc["outs"][i + 1:], prior=sc["prior"][:i] + sc["prior"][i + 1:])
    for i, r in enumerate(sc["runs"]):
        for j in range(len(r)):
            c = copy.deepcopy(sc)
            del c["runs"][i][j]
            yield c
    for h in shrink_header(sc["header"]):
        yield with_(sc, header=h)
    for s in shrink_sim(sc["sim"]):
        yield with_(sc, sim=s)
    for i, k in enumerate(sc["prior"]):
        if k not in ("absent", "old"):
            yield with_(sc, prior=sc["prior"][:i] + ["old"] + sc["prior"][i + 1:])
