"""C02: a run that reports success has delivered every requested output in full."""
import copy
from common import *
import checks.c01 as c01

PROPERTY = "C02"
LEVEL = "fault_enumeration"
PLAN = {"quick": (600, 90), "thorough": (30000, 5400)}
RULE = ("A scenario is an accepted generated header, 1-5 outputs (files, possibly standard output, prior "
        "states as in C01) and 6 runs, each with 1-4 output-side faults: errors on open, stat, access, "
        "write, close, rename, unlink; short and interrupted writes; a disk that stays full from some "
        "write on; a closed pipe on standard output or standard error; an allocation that fails. "
        "Non-trivial: a fault fired; distinct by (fault sequence with positions, outputs).")
REAL, STUB = c01.REAL, c01.STUB
ASSUMPTIONS = ["calls fail only before taking effect, except close, which may report an error after "
               "closing", "runs that exceed 200000 intercepted calls or 60 s count as not terminating"]


def fault(rng, std):
    k = rng.random()
    cls = "stdout" if std and rng.random() < 0.4 else "out"
    at = rng.random()
    if k < 0.35:
        return {"sel": "write:" + cls, "at": at, "code": ERRNO,
                "arg": rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EPIPE, errno.EBADF, errno.EBUSY, errno.EPERM, errno.ESTALE, errno.ENXIO, errno.ENOMEM, errno.EINVAL]),
                "sticky": rng.random() < 0.5}
    if k < 0.5:
        n = rng.choice([0, 1, 2, 100, 4095, 4096])
        return {"sel": "write:" + cls, "at": at, "code": SHORT, "arg": n,
                "sticky": n >= 100 and rng.random() < 0.3}
    if k < 0.6:
        return {"sel": rng.choice(["write:", "open:", "close:", "fstat:"]) + cls, "at": at, "code": ERRNO,
                "arg": rng.choice([errno.EINTR, errno.EAGAIN])}
    if k < 0.7:
        return {"sel": "rename:out", "at": at, "code": ERRNO,
                "arg": rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EXDEV, errno.EROFS, errno.ENOENT]),
                "sticky": rng.random() < 0.5}
    if k < 0.78:
        return {"sel": "close:" + cls, "at": at, "code": rng.choice([ERRNO, GO_ERRNO]),
                "arg": rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT])}
    if k < 0.88:
        return {"sel": "open:out", "at": at, "code": ERRNO,
                "arg": rng.choice(OUT_ERRNOS + [errno.EEXIST, errno.ENOENT, errno.EISDIR]),
                "sticky": rng.random() < 0.5}
    if k < 0.94:
        return {"sel": "stat|fstat|access|lseek|ftruncate|unlink:" + cls, "at": at, "code": ERRNO,
                "arg": rng.choice([errno.EIO, errno.EACCES, errno.ENOENT, errno.ENOMEM])}
    if k < 0.97:
        return {"sel": "*:*", "at": rng.uniform(0.3, 1), "code": ALLOC, "arg": rng.choice([1, 3, 20, 200])}
    return {"sel": "write:stderr", "at": at, "code": ERRNO, "arg": errno.EPIPE, "sticky": True}


def scenario(rng, i, tier):
    nout = rng.choice([1, 1, 2, 2, 3, 5])
    outs = pick_outs(rng, nout)
    if rng.random() < 0.25:
        outs[rng.randrange(nout)] = "-"
    return {"header": gen.header(rng), "outs": outs, "prior": [rng.choice(c01.PRIORS) for _ in outs],
            "sim": engine.random_sim(rng) if rng.random() < 0.3 else dict(PLAIN_SIM),
            "args": rng.choice([[], [], [], ["--verbose"], ["--dump-graph=pruned"]]),
            "runs": [[fault(rng, "-" in outs) for _ in range(rng.choice([1, 1, 2, 2, 4]))] for _ in range(6)]}


def classify(w, plan, o):
    """LLVM's copy_file, used after a refused rename, restarts the buffer after a
    short write (known finding); everything else is reported."""
    final = w.path("out/" + o)
    renamed = False
    for (op, code, _), path in zip(plan.fired, plan.fired_paths):
        if op == "rename" and code == ERRNO:
            renamed = True
        elif renamed and op == "write" and code == SHORT and path == final:
            return "fallback-copy-short-write"
    return "false-success"


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        outs = sc["outs"]
        st, ref, p0 = reference(ctx, out, w, sc["header"], outs, sc["args"])
        if st != 0:
            out.stats["probe:reference run not accepted"] += 1
            return out
        src = w.path("src/header.h")
        for n, faults in enumerate(sc["runs"]):
            clear(w)
            for o, k in zip(outs, sc["prior"]):
                if o != "-":
                    c01.set_prior(w, o, k if k != "same" else "old", ref[o])
            plan = Plan(w, faults, p0.events, out)
            p = tool(ctx, out, w, "r%d" % n, out_args(w, outs) + sc["args"] + [src] + FLAGS,
                     sim=sc["sim"], decide=plan)
            if plan.fired:
                out.marks.add(digest(repr(plan.fired), len(outs), [f[1] for f in plan.faults]))
                out.stats["probe:%s despite faults" % ("success" if p.status == 0 else "failure")] += 1
            if p.status == 0:
                for o in outs:
                    got = p.stdout() if o == "-" else w.read("out/" + o)
                    if got != ref[o]:
                        out.fail(classify(w, plan, o), "run %d exits 0 under %s, but %s is %s instead of %s" % (
                            n, [describe(f) for f in faults], o, short(got), short(ref[o])))
            elif not plan.fired:
                out.fail("spurious-failure", "run %d exits %d without any fault: %r" % (n, p.status, p.stderr()[-200:]))
            if out.violation:
                break
        out.sample = {"outputs": dict(zip(outs, sc["prior"])), "runs": [[describe(f) for f in r] for r in sc["runs"][:3]]}
    finally:
        w.close()
    return out


def shrink(sc):
    if sc["args"]:
        yield with_(sc, args=[])
    yield from c01.shrink(sc)
