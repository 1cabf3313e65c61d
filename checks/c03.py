"""C03: rejected input never produces output and never reports success."""
import copy, subprocess
from common import *
import odd
import checks.c01 as c01

PROPERTY = "C03"
LEVEL = "exploration"
PLAN = {"quick": (1600, 100), "thorough": (60000, 5400)}
RULE = ("A scenario is a generated header, 1-4 outputs and a history of 5 runs over versions of that header with "
        "1-3 mistakes each, out of %d: every annotation on every kind of declaration with every wrong form of "
        "arguments, and mistakes of preprocessing, parsing, semantic analysis, annotation syntax, graph building "
        "and emission. They stand before, between or after the valid declarations, in a namespace, class, class template, "
        "moved class or macro argument (%d kinds of place) or in an included header; correct versions and versions damaged at random and %d headers of unusual declarations (accepted or rejected, but consistently, without a crash, in bounded time) come in between; outputs keep what the history left or get other "
        "prior states; some runs meet unusual memory layouts, short reads and writes or failing calls. "
        "Non-trivial: every run on a version with a mistake; distinct by (mistakes and positions, options, faults, "
        "allocation-address history)." % (len(gen.MISTAKES_ALL), len(gen.WRAPPERS), len(odd.ODD)))
REAL, STUB = c01.REAL, c01.STUB
ASSUMPTIONS = ["a run that dies of memory exhaustion injected by the simulator need not print an error"]

# may stand inside something else
NESTABLE = [n for n in sorted(gen.MISTAKES) if gen.wrappers(n)]
# may stand in a header included by the main one
DEPABLE = [n for n in sorted(gen.MISTAKES) if n not in ("parse_eof",)]
MATRIX = sorted(gen.MATRIX)
LATE = [x for x in sorted(gen.MISTAKES) if x.startswith(("emit", "moved", "alias"))]
FLAGSETS = [[], [], [], ["-w"], ["-Wall", "-Wextra"], ["-ferror-limit=1"], ["-Werror"], ["-ferror-limit=0"],
            ["-Wno-everything"], ["-fno-caret-diagnostics"]]


def place(rng, j, n=None):
    """One mistake, where it stands and how it is spelled."""
    how = [x for x in gen.SPELLINGS if rng.random() < 0.2]
    if n is None and rng.random() < 0.5:
        n = "@%d" % rng.getrandbits(40)
    return placed(rng, j, n) + [how]


def placed(rng, j, n):
    where = rng.random()
    if where < 0.15:
        n = n or rng.choice(DEPABLE)
        return [n, 700 + j, "dep", rng.random()]
    if where < 0.5 and (n is None or gen.wrappers(n)):
        n = n or rng.choice(NESTABLE)
        return [n, 700 + j, rng.choice(gen.wrappers(n)), rng.random()]
    if n is None:
        n = rng.choice(sorted(gen.MISTAKES)) if rng.random() < 0.75 else rng.choice(LATE)
    return [n, 700 + j, "top", rng.choice([0, 1, rng.random()])]


def version(h, mistakes):
    h = copy.deepcopy(h)
    for n, k, where, pos, how in mistakes:
        text = gen.respell(gen.mistake(n, k), how)
        if where == "dep":
            h["includes"]["bad%d.h" % k] = ("#pragma GCC system_header\n" if pos > 0.6 else "") + gen.PROLOGUE + "struct GENPYBIND(visible) DepA%d {};\n" % k + text
            continue
        if where != "top":
            text = gen.wrap(text, where, k)
        h["blocks"].insert(int(pos * len(h["blocks"])), text)
    return h


def scenario(rng, i, tier):
    nout = rng.choice([1, 1, 2, 3, 4])
    runs = []
    order = random.Random(tier).sample(MATRIX, len(MATRIX))
    for j in range(5):
        r = {"sim": engine.random_sim(rng) if rng.random() < 0.4 else dict(PLAIN_SIM), "faults": []}
        if rng.random() < 0.3:
            # damaged at random: whatever the verdict, it must be consistent
            h = version(gen.header(rng, size=rng.choice([1, 3, 6, 12])),
                        [place(rng, x, rng.choice(gen.NAMES)) for x in range(rng.choice([0, 0, 1, 3]))])
            h["includes"].pop("dep.h", None)
            r["args"], r["flags"] = [], list(rng.choice(FLAGSETS))
            if rng.random() < 0.4:
                # unusual declarations, as they are or damaged
                name = rng.choice(sorted(odd.ODD))
                text, std = odd.ODD[name]
                r["flags"] += std
                h = {"blocks": [text], "includes": {}, "extra": {}}
                if rng.random() < 0.3:
                    other = gen.header(rng, size=2)["blocks"] if rng.random() < 0.5 else [odd.ODD[rng.choice(sorted(odd.ODD))][0]]
                    h["blocks"].insert(rng.randrange(2), "".join(x for x in other if not x.startswith("//")))
                h["raw"] = gen.split(gen.render(h))[0]
                if not any(x in h["raw"] for x in ("S<T *>", "S<N + 1>")) and rng.random() < 0.6:
                    h["raw"] = gen.mutate(rng, h["raw"])
            else:
                h["raw"] = gen.mutate(rng, gen.split(gen.render(h))[0])
            r["raw"], r["mistakes"] = h, []
            r["prior"] = [rng.choice(["keep"] + [p for p in c01.PRIORS if p != "same"]) for _ in range(nout)]
            runs.append(r)
            continue
        if rng.random() < 0.12:
            r["mistakes"] = []          # a correct version in between
            runs.append(r)
            continue
        if rng.random() < 0.5:
            r["mistakes"] = [place(rng, 0, order[(5 * i + j) % len(order)])]
        else:
            r["mistakes"] = [place(rng, x) for x in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 2])):
                c = rng.choice([ERRNO, SHORT, ERRNO])
                r["faults"].append({"sel": rng.choice(["write|close|open|unlink|stat|access:out", "write:stderr",
                                                       "read|pread|open|stat|fstat:src"]) if c == ERRNO else
                                    rng.choice(["write:out", "pread|read:src", "write:stderr"]),
                                    "at": rng.random(), "code": c,
                                    "arg": rng.choice(OUT_ERRNOS + [errno.EINTR, errno.ENOENT]) if c == ERRNO else rng.randrange(1, 4000)})
        r["prior"] = [rng.choice(["keep", "keep"] + [p for p in c01.PRIORS if p != "same"]) for _ in range(nout)]
        r["args"] = rng.choice([[], [], [], ["--verbose"], ["--dump-graph=visibility"], ["--dump-graph=pruned"],
                                ["--module-name=some_mod"], ["--keep-output-files"]])
        r["flags"] = rng.choice(FLAGSETS)
        runs.append(r)
    return {"header": gen.header(rng, size=rng.choice([1, 3, 6, 12])), "outs": pick_outs(rng, nout), "runs": runs}


def compiler_crashes(src, flags):
    """Whether the installed compiler, without genpybind, cannot cope with the header either."""
    r = subprocess.run(["clang++-18", "-xc++", "-fsyntax-only", "-D__GENPYBIND__"] + [f for f in flags if f != "--"] + [src],
                       capture_output=True, timeout=120)
    return r.returncode not in (0, 1) or b"PLEASE submit a bug report" in r.stderr


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        outs = sc["outs"]
        events = []
        for n, r in enumerate(sc["runs"]):
            raw = r.get("raw")
            src = gen.install(w, raw or version(sc["header"], r["mistakes"]))
            if raw:
                w.write("src/header.h", raw["raw"])
            flags = FLAGS + r.get("flags", [])
            names = [m[0] for m in r["mistakes"]]
            for o, k in zip(outs, r.get("prior", [])):
                if k != "keep":
                    if os.path.lexists(w.path("out/" + o)):
                        os.unlink(w.path("out/" + o))
                    c01.set_prior(w, o, k, None)
            prior = {o: w.read("out/" + o) for o in outs}
            plan = Plan(w, r["faults"], events, out)
            changed = set()

            def observe(proc):
                ops = {op for (op, _, _), pa in zip(plan.fired, plan.fired_paths) if path_class(w, pa) == "out"}
                if raw:
                    changed.update(o for o in outs if w.read("out/" + o) not in (None, prior[o]))
                    return
                if "--keep-output-files" in r.get("args", []):
                    return      # then outputs of rejected headers are wanted; the verdict still counts
                if not names or ("open" in ops and (not proc.done or len(ops) > 1)):
                    return      # without a temporary the tool writes in place; the end state still counts unless more went wrong
                for o in outs:
                    got = w.read("out/" + o)
                    if got is not None and got != prior[o]:
                        out.fail("output-from-rejected-input", "run %d (%s): %s holds %s, before the run %s: %r" % (
                            n, names, o, short(got), short(prior[o]), got[-80:]))

            p = tool(ctx, out, w, "r%d" % n, out_args(w, outs) + r.get("args", []) + [src] + flags,
                     sim=r["sim"], decide=plan, observe=observe)
            events = events or p.events
            err = p.stderr()
            if raw:
                out.stats["probe:damaged header " + ("accepted" if p.status == 0 else "rejected")] += 1
                out.marks.add(digest(raw["raw"], p.alloc_hash or ""))
                if p.status < 0 and compiler_crashes(src, flags):
                    out.stats["probe:damaged header crashes the compiler itself"] += 1
                    continue
                if p.status < 0:
                    out.fail("crashed", "run %d ended by signal %d: %r" % (n, -p.status, err[-300:]))
                elif p.status == 0 and (b"error:" in err or any(
                        o not in changed and not (prior[o] or b"").startswith(b"#include") for o in outs)):
                    out.fail("accepted", "run %d exits 0 but says %r and wrote %s of %s" % (n, err[-200:], sorted(changed), outs))
                elif p.status and b"error" not in err:
                    out.fail("silent", "run %d exits %d without an error message: %r" % (n, p.status, err[-200:]))
                elif p.status and changed:
                    out.fail("output-from-rejected-input", "run %d is rejected but wrote %s" % (n, sorted(changed)))
                if out.violation:
                    break
                continue
            if not names:
                out.stats["probe:correct version in between"] += 1
                continue
            out.marks.add(digest(r["mistakes"], r["args"], r["flags"], repr(plan.fired), p.alloc_hash or ""))
            for m in names:
                out.stats["probe:mistake " + m.split("_")[0].split(":")[0]] += 1
            if p.status == 0:
                out.fail("accepted", "run %d exits 0 although the header has the mistakes %s; %r" % (n, names, err[-200:]))
            elif p.status < 0:
                out.fail("crashed", "run %d ended by signal %d on %s: %r" % (n, -p.status, names, err[-300:]))
            elif b"error" not in err and not any(op == "write" and "stderr" in pa for (op, _, _), pa in zip(plan.fired, plan.fired_paths)):
                out.fail("silent", "run %d exits %d on %s without an error message: %r" % (n, p.status, names, err[-200:]))
            if out.violation:
                break
        out.sample = {"outputs": outs, "runs": [{"mistakes": "damaged at random" if r.get("raw") else r["mistakes"], "flags": r.get("flags"),
                                                 "faults": [describe(f) for f in r["faults"]]} for r in sc["runs"][:3]]}
    finally:
        w.close()
    return out


def shrink(sc):
    yield from shrink_list(sc, "runs", 1)
    for i in range(len(sc["outs"])):
        if len(sc["outs"]) > 1:
            c = with_(sc, outs=sc["outs"][:i] + sc["outs"][i + 1:])
            for r in c["runs"]:
                if r.get("prior"):
                    del r["prior"][i]
            yield c
    for i, r in enumerate(sc["runs"]):
        for k in ("args", "flags"):
            if r.get(k):
                c = copy.deepcopy(sc)
                c["runs"][i][k] = []
                yield c
        if len(r["mistakes"]) > 1:
            for j in range(len(r["mistakes"])):
                c = copy.deepcopy(sc)
                c["runs"][i]["mistakes"] = [r["mistakes"][j]]
                yield c
        for j in range(len(r["faults"])):
            c = copy.deepcopy(sc)
            del c["runs"][i]["faults"][j]
            yield c
        for s in shrink_sim(r["sim"]):
            c = copy.deepcopy(sc)
            c["runs"][i]["sim"] = s
            yield c
    for i, r in enumerate(sc["runs"]):
        if r.get("raw"):
            lines = r["raw"]["raw"].split("\n")
            size = len(lines) // 2
            while size >= 1:
                for a in range(0, len(lines), size):
                    c = copy.deepcopy(sc)
                    c["runs"][i]["raw"]["raw"] = "\n".join(lines[:a] + lines[a + size:])
                    yield c
                size //= 2
    for h in shrink_header(sc["header"]):
        yield with_(sc, header=h)
