"""C10: splitting over several files loses, repeats and reorders nothing."""
import copy, json
from common import *
import outparse, pymod
import checks.c01 as c01

PROPERTY = "C10"
LEVEL = "exploration"
PLAN = {"quick": (500, 75), "thorough": (30000, 5400)}
COMPILE_EVERY = {"quick": 25, "thorough": 60}
RULE = ("A scenario is one header and a history of 2-5 runs into one directory, each with its own number (1-16, "
        "also more files than bindings) and order of output files, memory layout and possibly a kill, a signal or a failing call; "
        "standard output may be one of the files. After every run that succeeds, its files together are compared with the single-file "
        "output of the header; every 25th scenario (thorough: 60th) also compiles, links and imports both and compares the two "
        "modules. Non-trivial: a successful run with two or more files and two or more bindings; distinct by "
        "(header, number of files, history so far).")
REAL = c01.REAL + ["clang++ 18, pybind11 2.11 and CPython 3.12 in the compiled sample"]
STUB = c01.STUB
ASSUMPTIONS = ["output paths are distinct", "the text of a definition is compared byte for byte with the single-file output"]


def scenario(rng, i, tier):
    comp = i % COMPILE_EVERY[tier] == COMPILE_EVERY[tier] - 1
    marks = rng.random() < 0.5
    h = gen.header(rng, marks=marks, safe=comp, size=rng.choice([1, 3, 5, 8]) if comp else rng.choice([0, 1, 2, 3, 5, 8, 12, 20]) or 1)
    runs = []
    for k in range(rng.randrange(2, 6)):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 8, 11, 16])
        r = {"n": n, "sim": engine.random_sim(rng) if rng.random() < 0.7 else {}, "perm": rng.getrandbits(30) if rng.random() < 0.4 else None}
        if rng.random() < 0.12:
            r["stdout"] = rng.randrange(n)
        if k and rng.random() < 0.35:
            r["fault"] = {"sel": rng.choice(["*:out", "write:out", "rename:out", "open:out", "close:out"]), "at": rng.random(),
                          "code": rng.choice([KILL, GO_KILL, SIG, ERRNO, SHORT]), "arg": 0}
            if r["fault"]["code"] == SIG:
                r["fault"]["arg"] = int(rng.choice([signal.SIGINT, signal.SIGTERM]))
            elif r["fault"]["code"] == ERRNO:
                r["fault"]["arg"] = rng.choice(OUT_ERRNOS)
            elif r["fault"]["code"] == SHORT:
                r["fault"]["arg"] = rng.randrange(1, 5000)
        runs.append(r)
    sc = {"header": h, "runs": runs}
    if comp:
        sc["compile"] = True
        runs[-1].pop("fault", None)
        runs[-1]["n"] = rng.choice([2, 3, 4])
        runs[-1].pop("stdout", None)
    return sc


NAMES = OUT_NAMES + ["u%d.cpp" % i for i in range(20)]


def judge(out, single, texts, where):
    """texts: contents in the order of the -o options."""
    want = outparse.parse(single)
    if len(want.of("module")) != 1:
        out.fail("module-count", "single file: %d module definitions" % len(want.of("module")))
        return
    got = [outparse.parse(t) for t in texts]
    mods = [len(g.of("module")) for g in got]
    if mods != [1] + [0] * (len(got) - 1):
        out.fail("module-count", "%s: module definitions per file %s" % (where, mods))
        return
    wm, gm = want.of("module")[0], got[0].of("module")[0]
    if wm[1:] != gm[1:]:
        out.fail("module-body", "%s: the module body differs from the single file: %r / %r" % (
            where, [l for l in wm[3] if l not in gm[3]][:5], [l for l in gm[3] if l not in wm[3]][:5]))
    wd = [i[1:] for i in want.of("def")]
    gd = [i[1:] for g in got for i in g.of("def")]
    if [d[0] for d in wd] != [d[0] for d in gd]:
        a, b = [d[0] for d in wd], [d[0] for d in gd]
        kind = ("definition-lost" if set(a) - set(b) else
                "definition-repeated" if len(b) != len(set(b)) and len(b) > len(a) else
                "definition-reordered" if sorted(a) == sorted(b) else "definition-differs")
        out.fail(kind, "%s: %s instead of %s" % (where, b[:12], a[:12]))
    elif wd != gd:
        bad = next(x for x, y in zip(wd, gd) if x != y)
        out.fail("definition-differs", "%s: %s" % (where, bad[0]))
    wdecl = [i[1:] for i in want.of("decl")]
    for n, g in enumerate(got):
        if n == 0:
            if [i[1:] for i in g.of("decl")] != wdecl:
                out.fail("declarations-differ", "%s: main file declares %s, single file %s" % (
                    where, [i[1] for i in g.of("decl")][:12], [d[0] for d in wdecl][:12]))
        if g.includes != want.includes:
            out.fail("includes-differ", "%s: file %d has %s instead of %s" % (where, n, g.includes, want.includes))
        if g.other != want.other:
            out.fail("extra-text", "%s: file %d: %r / %r" % (where, n, g.other[:3], want.other[:3]))
        declared = set()
        for i in g.items:
            if i[0] == "decl":
                declared.add((i[1], i[2]))
            elif i[0] == "def" and (i[1], i[2]) not in declared:
                out.fail("not-declared", "%s: file %d defines %s without declaring it" % (where, n, i[1]))
    called = [m.group(1) for m in map(outparse.CALL.match, gm[3]) if m]
    if called != [d[0] for d in wd]:
        out.fail("calls-differ", "%s: calls %s, definitions %s" % (where, called[:12], [d[0] for d in wd][:12]))


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        src = gen.install(w, sc["header"])
        p = tool(ctx, out, w, "ref", out_args(w, ["m.cpp"]) + ["--module-name=mod", src] + FLAGS)
        single = w.read("out/m.cpp")
        if p.status != 0 or single is None:
            out.stats["probe:reference run not accepted"] += 1
            return out
        ndefs = len(outparse.parse(single).of("def"))
        hh = digest(gen.render(sc["header"]))
        clear(w)
        events, hist, last = p.events, [], None
        for k, r in enumerate(sc["runs"]):
            names = NAMES[:r["n"]]
            if r["perm"] is not None:
                random.Random(r["perm"]).shuffle(names)
            if "stdout" in r:
                names[min(r["stdout"], len(names) - 1)] = "-"
            plan = Plan(w, [r["fault"]] if "fault" in r else [], events, out)
            p = tool(ctx, out, w, "r%d" % k, out_args(w, names) + ["--module-name=mod", src] + FLAGS, sim=r["sim"], decide=plan)
            events = p.events
            hist.append([r["n"], r.get("fault"), r["perm"]])
            if p.status != 0:
                if not plan.fired:
                    out.fail("run-failed", "run %d with %d files: exit %d %r" % (k, r["n"], p.status, p.stderr()[-200:]))
                    break
                continue
            if plan.fired and p.status == 0 and any(f[0] in ("rename",) for f in plan.fired):
                continue        # fallback copy, see C02
            texts = [p.stdout() if o == "-" else w.read("out/" + o) for o in names]
            if any(t is None for t in texts):
                out.fail("file-missing", "run %d of %s" % (k, [x[0] for x in hist]))
                break
            judge(out, single, texts, "run %d with %d files" % (k, r["n"]))
            if r["n"] > 1 and ndefs > 1:
                out.marks.add(digest(hh, hist))
                out.stats["probe:" + ("more files than bindings" if r["n"] > ndefs else "fewer files than bindings" if r["n"] < ndefs else "as many files as bindings")] += 1
            last = (names, texts)
            if out.violation:
                break
        if sc.get("compile") and last and not out.violation:
            compiled(ctx, out, w, single, last)
        out.sample = {"runs": [dict(r, fault=describe(r["fault"])) if "fault" in r else r for r in sc["runs"]], "bindings": ndefs,
                      "compiled": bool(sc.get("compile"))}
    finally:
        w.close()
    return out


def compiled(ctx, out, w, single, last):
    names, texts = last
    docs = []
    for tag, files in (("single", {"m.cpp": single}), ("split", {"f%02d.cpp" % i: t for i, t in enumerate(texts)})):
        d = w.path("tmp", tag)
        os.makedirs(d)
        try:
            pymod.compile_module("mod", files, w.path("src"), d)
        except pymod.CompileError as e:
            if tag == "single":
                out.stats["probe:sample does not compile"] += 1
                return
            out.fail("split-does-not-build", str(e)[-1500:])
            return
        p = pymod.python(ctx, w, "py-" + tag, [os.path.join(str(build.VERIF), "sim/dumpmod.py"), d, "mod"], sim={"heap": 7})
        record(out, w, p)
        if p.status != 0:
            if tag == "single":
                out.stats["probe:sample does not import"] += 1
                return
            out.fail("split-does-not-import", "%d %r" % (p.status, p.stderr()[-600:]))
            return
        docs.append(p.stdout())
    out.stats["probe:compiled, linked, imported and compared"] += 1
    if docs[0] != docs[1]:
        out.fail("modules-differ", "single %s, split %s" % (digest(docs[0]), digest(docs[1])))


def shrink(sc):
    if len(sc["runs"]) > 1:
        for i in range(len(sc["runs"])):
            c = copy.deepcopy(sc)
            del c["runs"][i]
            yield c
    for h in shrink_header(sc["header"]):
        yield with_(sc, header=h)
    for i, r in enumerate(sc["runs"]):
        for n in (2, 3, 5):
            if n < r["n"]:
                c = copy.deepcopy(sc)
                c["runs"][i]["n"] = n
                yield c
        for k, v in (("perm", None), ("sim", {})):
            if r[k] != v:
                c = copy.deepcopy(sc)
                c["runs"][i][k] = v
                yield c
