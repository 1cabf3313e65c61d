"""C06: verdict, diagnostics and graph dumps depend on the input alone."""
import copy
from common import *
import odd
import checks.c05 as c05

PROPERTY = "C06"
LEVEL = "exploration"
PLAN = {"quick": (700, 90), "thorough": (40000, 5400)}
RULE = ("A scenario is a generated header - accepted, accepted with warnings (unreachable visible "
        "contexts, unknown bases, also from template instantiations that share a location) or carrying "
        "1-4 mistakes of many kinds, sometimes with unusual declarations in between - with options (graph dumps, --verbose, warning flags) and 3-5 "
        "execution environments as for C05. Non-trivial: the reference run printed a diagnostic or a "
        "graph; distinct by (header, options, allocation-address history).")
REAL, STUB, ASSUMPTIONS = c05.REAL, c05.STUB, c05.ASSUMPTIONS


def warn_blocks(rng, k):
    """Blocks that produce several diagnostics at one location."""
    out = []
    n = rng.choice([2, 4, 8])
    types = gen.SCALARS[:]
    rng.shuffle(types)
    c = rng.random()
    if c < 0.3:
        out.append("template <typename T> struct HidW%d { struct GENPYBIND(visible) In { struct GENPYBIND(visible) Deep {}; }; enum GENPYBIND(visible) En { en }; };\n" % k
                   + "".join("template struct HidW%d<%s>;\n" % (k, t) for t in types[:n]))
    elif c < 0.5:
        out.append("template <typename T> struct Wb%d {};\ntemplate <typename T> struct GENPYBIND(visible, %s) Wd%d : Wb%d<T> {};\n" % (
            k, rng.choice(["hide_base(\"Nope\")", "inline_base(\"Nope\")", "hide_base(\"Nope\"), inline_base(\"Nope2\")"]), k, k)
            + "".join("using WdA%d_%d GENPYBIND(%s) = Wd%d<%s>;\n" % (k, j, rng.choice(["encourage", "expose_here"]), k, t)
                      for j, t in enumerate(types[:n])))
    elif c < 0.7:
        out.append("template <typename T> struct Er%d { struct GENPYBIND(readonly) In {}; enum class GENPYBIND(postamble) E2 { a }; };\n" % k
                   + "".join("template struct GENPYBIND(visible) Er%d<%s>;\n" % (k, t) for t in types[:n]))
    elif c < 0.85:
        out.append("".join("struct HidX%d_%d { struct GENPYBIND(visible) In%d {}; };\n" % (k, j, j) for j in range(n)))
    else:
        out.append("namespace hidx%d {\n" % k + "".join(
            "struct Tg%d_%d { using A GENPYBIND(expose_here) = Tg%d_%d; };\n" % (k, j, k, j) for j in range(n)) + "}\n")
    return out


def scenario(rng, i, tier):
    h = gen.header(rng, size=rng.choice([2, 4, 8, 14]))
    kind = rng.choice(["plain", "warn", "warn", "mistake", "mistakes", "both", "cluster", "cluster"])
    names = sorted(gen.MISTAKES)
    if kind in ("warn", "both"):
        for j in range(rng.choice([1, 2, 3])):
            for b in warn_blocks(rng, 500 + j):
                h["blocks"].insert(rng.randrange(len(h["blocks"]) + 1), b)
    if kind in ("mistake", "mistakes", "both"):
        late = ("pp_", "parse", "sema")
        for j in range(1 if kind == "mistake" else rng.choice([2, 3, 4])):
            name = rng.choice(names)
            if kind != "mistake" and name.startswith(late) and rng.random() < 0.8:
                name = rng.choice([x for x in names if not x.startswith(late)])
            if rng.random() < 0.2:
                name = rng.choice(sorted(gen.MATRIX))
            elif rng.random() < 0.3:
                name = "@%d" % rng.getrandbits(40)
            h["blocks"].insert(rng.randrange(len(h["blocks"]) + 1), gen.mistake(name, 700 + j))
    if kind == "cluster":               # several mistakes of one kind
        pool = [x for x in names if not x.startswith(("pp_", "parse"))]
        name = rng.choice(pool if rng.random() < 0.7 else ["moved_cycle", "moved_self", "moved_twice", "emit_base_cycle", "emit_base_cycle3", "emit_base_cycle4"])
        for j in range(rng.choice([2, 4, 8])):
            h["blocks"].insert(rng.randrange(len(h["blocks"]) + 1), gen.mistake(name, 600 + j))
    if rng.random() < 0.5 and "unreachable" not in h:
        g = gen.Gen(rng, 1, ["unreachable"])
        g.n = 5000
        h["blocks"].append(g.b_unreachable())
    std = odd.insert(rng, h, 0.15)
    h = gen.relayout(rng, h)
    args = rng.choice([[], ["--dump-graph=visibility"], ["--dump-graph=pruned"],
                       ["--dump-graph=visibility", "--dump-graph=pruned"], ["--verbose"]])
    flags = rng.choice([[], [], ["-Wall", "-Wextra"], ["-ferror-limit=2"], ["-Werror"],
                        ["-fno-caret-diagnostics"], ["-fdiagnostics-format=msvc"]])
    return {"header": h, "args": args, "flags": flags + std, "outs": rng.choice([[], ["m.cpp"], ["m.cpp", "m1.cpp"]]),
            "envs": [{"sim": engine.random_sim(rng)} for _ in range(rng.choice([3, 4, 5]))]}


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        outs = sc["outs"] or ["-"]
        flags = FLAGS + sc["flags"]
        st, ref, p0 = reference(ctx, out, w, sc["header"], outs, sc["args"], flags=flags)
        err0, so0 = p0.stderr(), p0.stdout()
        out.stats["probe:reference %s" % ("accepted" if st == 0 else "rejected")] += 1
        out.stats["probe:warnings"] += err0.count(b"warning:")
        out.stats["probe:errors"] += err0.count(b"error:")
        if st < 0:
            out.stats["probe:reference crashed"] += 1
        src = w.path("src/header.h")
        hh = digest(gen.render(sc["header"]), sc["args"], sc["flags"])
        for n, e in enumerate(sc["envs"]):
            clear(w)
            p = tool(ctx, out, w, "e%d" % n, out_args(w, outs) + sc["args"] + [src] + flags, sim=e["sim"])
            if err0:
                out.marks.add(digest(hh, p.alloc_hash or ""))
            if p.status != st:
                out.fail("status-differs", "environment %d: exit %d, reference exit %d" % (n, p.status, st))
            elif st >= 0 and p.stderr() != err0:
                out.fail("diagnostics-differ", "environment %d: %s" % (n, c05.first_difference(err0, p.stderr())))
            if out.violation:
                break
        out.sample = {"args": sc["args"], "flags": sc["flags"], "environments": sc["envs"][:1],
                      "stderr": err0[:400].decode("utf-8", "replace")}
    finally:
        w.close()
    return out


def shrink(sc):
    yield from shrink_list(sc, "envs", 1)
    for k in ("args", "flags"):
        if sc[k]:
            yield with_(sc, **{k: []})
    if sc["outs"]:
        yield with_(sc, outs=[])
    for h in shrink_header(sc["header"]):
        yield with_(sc, header=h)
    for i, e in enumerate(sc["envs"]):
        for s in shrink_sim(e["sim"]):
            c = copy.deepcopy(sc)
            c["envs"][i]["sim"] = s
            yield c
