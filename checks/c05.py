"""C05: the generated code depends on the input alone."""
import copy
from common import *
import odd

PROPERTY = "C05"
LEVEL = "exploration"
PLAN = {"quick": (700, 90), "thorough": (40000, 5400)}
RULE = ("A scenario is one generated header (23 kinds of blocks, swarm-selected), a number of output "
        "files and 3-5 execution environments drawn from the seed: heap placement (lanes, gaps, reuse "
        "order), content of fresh and freed memory, pid, clock, random numbers, inode numbers, host, "
        "stack shift, working directory, user environment (also any variable not asked for today), times and modes of the source files, prior output files, short reads and writes. "
        "A run is one evaluation; it is non-trivial if it generated code for at least one class or "
        "function, and distinct by (header, allocation-address history).")
REAL = ["genpybind-tool built from /repo", "Clang/LLVM 18 libraries", "file system (scratch directory)"]
STUB = ["memory allocator", "clock, pid, host name, random numbers, inode numbers"]
ASSUMPTIONS = ["the image and libraries are loaded at fixed addresses (ASLR off); heap addresses are "
               "the simulator's", "compilers and flags are part of the input (same PATH)"]


def environment(rng):
    e = {"sim": engine.random_sim(rng)}
    if rng.random() < 0.5:
        e["sim"]["env"] = rng.getrandbits(30) | 1
    if rng.random() < 0.4:
        e["times"] = rng.choice([0, 1, 1000000000, 1700000000, 4000000000]) + rng.randrange(1000)
    if rng.random() < 0.3:
        e["mode"] = rng.choice([0o444, 0o600, 0o755, 0o666])
    if rng.random() < 0.3:
        e["cwd"] = rng.choice(["out", "src", "tmp", "home"])
    if rng.random() < 0.4:
        e["env"] = {rng.choice(["LC_ALL", "TERM", "USER", "TZ", "COLUMNS", "NO_COLOR", "EDITOR", "LOGNAME",
                                "SOURCE_DATE_EPOCH", "GENPYBIND", "LANG", "PWD", "SHLVL"]):
                    rng.choice(["C", "x", "de_DE.UTF-8", "1", "xterm-256color", "/nowhere", "0"])
                    for _ in range(rng.randrange(1, 4))}
    if rng.random() < 0.4:
        e["prior"] = rng.choice(["garbage", "empty", "same", "same+", "prefix"])
    if rng.random() < 0.3:
        e["faults"] = [{"sel": rng.choice(["write:out", "pread:src", "read:src", "write:stderr"]),
                        "at": rng.random(), "code": rng.choice([SHORT, ERRNO]), "arg": 4}
                       for _ in range(rng.randrange(1, 4))]
        for f in e["faults"]:
            f["arg"] = errno.EINTR if f["code"] == ERRNO else rng.randrange(1, 4000)
    return e


def scenario(rng, i, tier):
    nout = rng.choice([1, 1, 1, 2, 3, 5])
    h = gen.header(rng, marks=rng.random() < 0.3)
    flags = odd.insert(rng, h, 0.15)
    return {"header": gen.relayout(rng, h), "outs": pick_outs(rng, nout), "flags": flags,
            "args": rng.choice([[], [], [], ["--module-name=mod"], ["--verbose"]]),
            "envs": [environment(rng) for _ in range(rng.choice([3, 4, 5]))]}


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        st, ref, p0 = reference(ctx, out, w, sc["header"], sc["outs"], sc["args"], flags=FLAGS + sc["flags"])
        if st != 0:
            out.stats["probe:reference run not accepted"] += 1
            return out
        src = w.path("src/header.h")
        nontrivial = any(b"context.def" in t or b"class_" in t for t in ref.values())
        hh = digest(gen.render(sc["header"]))
        for n, e in enumerate(sc["envs"]):
            clear(w)
            for o in sc["outs"]:
                pr = e.get("prior")
                if pr:
                    w.write("out/" + o, {"garbage": b"\xff\0garbage", "empty": b"", "same": ref[o],
                                         "same+": ref[o] + b"// x\n", "prefix": ref[o][:len(ref[o]) // 2]}[pr])
            for n2 in os.listdir(w.path("src")):
                if "times" in e:
                    os.utime(w.path("src", n2), (e["times"], e["times"] + len(n2)))
                if os.path.isfile(w.path("src", n2)):
                    os.chmod(w.path("src", n2), e.get("mode", 0o644))
            plan = Plan(w, e.get("faults", []), p0.events, out)
            p = tool(ctx, out, w, "e%d" % n, out_args(w, sc["outs"]) + sc["args"] + [src] + FLAGS + sc["flags"],
                     sim=e["sim"], decide=plan, env=e.get("env"),
                     cwd=w.path(e.get("cwd", "cwd")))
            for k in e:
                out.stats["probe:varied " + k] += 1
            if nontrivial:
                out.marks.add(digest(hh, p.alloc_hash or ""))
            if p.status != 0:
                if plan.fired:
                    out.stats["probe:failed under a transient fault"] += 1
                    continue
                out.fail("status-differs", "environment %d: exit %d instead of 0; %r" % (
                    n, p.status, p.stderr()[-300:]))
                break
            for o in sc["outs"]:
                got = w.read("out/" + o)
                if got != ref[o]:
                    out.fail("output-differs", "environment %d: %s is %s instead of %s; %s" % (
                        n, o, short(got), short(ref[o]), first_difference(ref[o], got)))
            if out.violation:
                break
        out.sample = {"header_blocks": len(sc["header"]["blocks"]), "outputs": sc["outs"],
                      "environments": sc["envs"][:2], "header": gen.render(sc["header"])[:600]}
    finally:
        w.close()
    return out


def first_difference(a, b):
    a, b = (a or b"").split(b"\n"), (b or b"").split(b"\n")
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "line %d: %r / %r" % (i + 1, x[:120].decode("utf-8", "replace"), y[:120].decode("utf-8", "replace"))
    return "lengths %d / %d lines" % (len(a), len(b))


def shrink(sc):
    yield from shrink_list(sc, "envs", 1)
    if len(sc["outs"]) > 1:
        yield with_(sc, outs=sc["outs"][:1])
    if sc["args"]:
        yield with_(sc, args=[])
    for h in shrink_header(sc["header"]):
        yield with_(sc, header=h)
    for i, e in enumerate(sc["envs"]):
        for k in ("cwd", "env", "prior", "faults", "times", "mode"):
            if k in e:
                c = copy.deepcopy(sc)
                del c["envs"][i][k]
                yield c
        for s in shrink_sim(e["sim"]):
            c = copy.deepcopy(sc)
            c["envs"][i]["sim"] = s
            yield c
