"""C09: trouble reading the sources never yields a successful wrong result."""
import copy
from common import *
import checks.c01 as c01

PROPERTY = "C09"
LEVEL = "fault_enumeration"
PLAN = {"quick": (700, 90), "thorough": (40000, 5400)}
RULE = ("A scenario is a generated header (some beyond the size from which the compiler maps files) with included headers, headers named by pragmas and possibly a "
        "compilation database, and 6 runs with 1-5 read-side faults each: short reads down to one byte, interrupted "
        "reads and opens, refused mappings (all of which must not matter), and errors of open, stat, fstat, read "
        "and mmap on any file of the sources or of genpybind's own headers. Non-trivial: a fault fired; "
        "distinct by (fault sequence, files, positions).")
REAL = c01.REAL
STUB = ["memory allocator", "clock, pid, random numbers"]
ASSUMPTIONS = ["system headers and compiler builtin headers are read without faults",
               "the include path has no second file of the same name to fall back to",
               "hard errors on the compilation database are excluded (the tool then runs without one, by design)"]
ROOTS = [REPO + "/public"]
FILES = "src|repo"


def soft(rng):
    k = rng.random()
    if k < 0.5:
        return {"sel": "pread|read:src|repo", "at": rng.random(), "code": SHORT, "arg": rng.choice([1, 1, 2, 7, 100, 4095, 4096]),
                "sticky": False}
    if k < 0.75:
        return {"sel": "pread|read:src|repo", "at": rng.random(), "code": ERRNO, "arg": errno.EINTR}
    if k < 0.9:
        return {"sel": "open:src|repo", "at": rng.random(), "code": ERRNO, "arg": errno.EINTR}
    return {"sel": "mmap:src|repo", "at": rng.random(), "code": ERRNO, "arg": rng.choice([errno.ENOMEM, errno.EAGAIN, errno.ENODEV]), "sticky": True}


def hard(rng):
    op = rng.choice(["open", "pread|read", "fstat", "stat", "open|pread|read|fstat|stat|access|lseek"])
    return {"sel": op + ":src|repo", "at": rng.random(), "code": ERRNO,
            "arg": rng.choice([errno.EIO, errno.EACCES, errno.ENOENT, errno.EMFILE, errno.ENFILE, errno.ENOMEM,
                               errno.ELOOP, errno.ESTALE, errno.EISDIR, errno.EPERM]), "sticky": rng.random() < 0.3}


def scenario(rng, i, tier):
    h = gen.header(rng, size=rng.choice([2, 4, 10]))
    sub = gen.Gen(random.Random(rng.getrandbits(32)), 2, ["struct", "enum", "function", "variable"])
    sub.n = 200000
    h["includes"]["second.h"] = gen.PROLOGUE + "#include \"third.h\"\n" + "".join(sub.build())
    h["extra"]["third.h"] = gen.PROLOGUE + "struct GENPYBIND(visible) Third { int t = 3; };\n#ifdef __GENPYBIND__\n#pragma genpybind include \"third_extra.h\"\n#endif\n"
    h["extra"]["third_extra.h"] = "#pragma once\n"
    if rng.random() < 0.4:
        h["blocks"].insert(rng.randrange(len(h["blocks"]) + 1), "// padding\n" + ("// " + "x" * 120 + "\n") * rng.choice([150, 400]))
    if rng.random() < 0.15:
        h["blocks"].append(gen.mistake(rng.choice(sorted(gen.MISTAKES)), 900))
    nout = rng.choice([1, 1, 2, 3])
    runs = []
    for _ in range(6):
        k = rng.random()
        n = rng.choice([1, 1, 2, 3, 5])
        runs.append([soft(rng) for _ in range(n)] if k < 0.4 else [hard(rng) for _ in range(min(n, 2))] if k < 0.8
                    else [soft(rng) for _ in range(n)] + [hard(rng)])
    return {"header": h, "outs": pick_outs(rng, nout), "prior": [rng.choice(["absent", "old", "garbage", "empty"]) for _ in range(nout)],
            "db": rng.random() < 0.4, "sim": engine.random_sim(rng) if rng.random() < 0.3 else dict(PLAIN_SIM), "runs": runs}


def is_soft(f):
    return f["code"] == SHORT or f["arg"] == errno.EINTR or f["sel"].startswith("mmap")


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        outs = sc["outs"]
        src = gen.install(w, sc["header"])
        if sc["db"]:
            w.write("src/compile_commands.json", json.dumps([
                {"directory": w.path("src"), "file": src, "arguments": ["g++", "-I" + REPO + "/public", "-std=c++17", src]}]))
            tail = ["-p", w.path("src"), src]
        else:
            tail = [src] + FLAGS
        clear(w)
        argv = out_args(w, outs) + tail
        p0 = tool(ctx, out, w, "ref", argv, extra_roots=ROOTS)
        ref = {o: w.read("out/" + o) for o in outs}
        err0 = p0.stderr()
        for n, faults in enumerate(sc["runs"]):
            clear(w)
            prior = {o: c01.set_prior(w, o, k, None) for o, k in zip(outs, sc["prior"])}
            plan = Plan(w, faults, p0.events, out)

            def decide(proc, ev):
                if "compile_" in ev.path:       # only harmless faults for the database
                    keep, plan.faults = plan.faults, [f for f in plan.faults if is_soft(f[0])]
                    try:
                        return plan(proc, ev)
                    finally:
                        plan.faults = keep
                return plan(proc, ev)

            p = tool(ctx, out, w, "r%d" % n, argv, sim=sc["sim"], decide=decide, extra_roots=ROOTS)
            if plan.fired:
                out.marks.add(digest(repr(plan.fired), [x.replace(w.root, "") for x in plan.fired_paths], [f[1] for f in plan.faults]))
            what = [(f[0], CODE_NAMES[f[1]], f[2], x.replace(w.root, "@")) for f, x in zip(plan.fired, plan.fired_paths)][:5]
            allsoft = all(c == SHORT or a == errno.EINTR or op == "mmap" for op, c, a in plan.fired)
            got = {o: w.read("out/" + o) for o in outs}
            if allsoft:
                out.stats["probe:runs with harmless faults only"] += 1
                if p.status != p0.status:
                    out.fail("harmless-fault-matters", "run %d: exit %d instead of %d under %s: %r" % (n, p.status, p0.status, what, p.stderr()[-200:]))
                elif p0.status == 0 and got != ref:
                    out.fail("harmless-fault-matters", "run %d: other output under %s" % (n, what))
                elif p.stderr() != err0:
                    out.fail("harmless-fault-matters", "run %d: other diagnostics under %s" % (n, what))
            elif p.status == 0:
                out.stats["probe:success despite an error"] += 1
                if p0.status != 0:
                    out.fail("accepted", "run %d exits 0 under %s, without faults %d" % (n, what, p0.status))
                for o in outs:
                    if got[o] != ref[o]:
                        out.fail("wrong-success", "run %d exits 0 under %s, but %s is %s instead of %s" % (
                            n, what, o, short(got[o]), short(ref[o])))
            else:
                out.stats["probe:failure after an error"] += 1
                for o in outs:
                    if got[o] is not None and got[o] != prior[o]:
                        out.fail("output-after-failure", "run %d exits %d under %s, but %s is %s, before %s" % (
                            n, p.status, what, o, short(got[o]), short(prior[o])))
            if out.violation:
                break
        out.sample = {"db": sc["db"], "runs": [[describe(f) for f in r] for r in sc["runs"][:3]]}
    finally:
        w.close()
    return out


def shrink(sc):
    yield from c01.shrink(sc)
