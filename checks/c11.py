"""C11: importing a generated module never fails because of registration order."""
import copy, json, re
from common import *
import outparse, pymod
import checks.c01 as c01

PROPERTY = "C11"
LEVEL = "exploration"
PLAN = {"quick": (560, 85), "thorough": (40000, 5400)}
COMPILE_EVERY = {"quick": 14, "thorough": 40}
RULE = ("A scenario is one header with class graphs whose order of definition, of nesting and of inheritance differ "
        "(templates deriving from their parameters, random graphs of plain, nested, templated and specialized classes with relocated bases, classes relocated into contexts before or after them, out-of-line nested classes, "
        "virtual, multiple, non-public, hidden and inlined bases, reopened namespaces, marked manual bindings), and 2-4 memory layouts "
        "under which the generator runs. Every distinct text is checked for the order of its registrations; every 14th scenario (thorough: "
        "40th) is compiled and imported in a simulated interpreter and the order in which the manual bindings ran is checked. "
        "Non-trivial: the module registers at least one class with an exposed base or a nesting parent; distinct by "
        "(header, allocation-address history).")
REAL = ["genpybind-tool built from /repo", "Clang/LLVM 18 libraries", "clang++ 18, pybind11 2.11 and CPython 3.12 in the compiled sample"]
STUB = ["memory allocator", "clock, pid, host name, random numbers, inode numbers"]
ASSUMPTIONS = ["headers do not give two things the same Python name in one scope and have a consistent Python base order"]

FEATURES = ["struct", "template", "latebase", "hierarchy", "inline", "expose_here", "nested_out_of_line", "namespace", "reopen", "manual",
            "function", "aliases", "enum", "explicit_inst", "multi_inline_template", "using_decl", "adl", "variable", "macro", "fields", "defaults", "graph"]


def scenario(rng, i, tier):
    comp = i % COMPILE_EVERY[tier] == COMPILE_EVERY[tier] - 1
    feats = rng.sample(FEATURES, rng.randrange(3, len(FEATURES)))
    feats += [f for f in ("hierarchy", "latebase", "manual", "graph", "graph") if rng.random() < 0.6] * 2
    h = gen.header(rng, marks=rng.random() < 0.8, safe=True, features=feats, size=rng.choice([1, 2, 4, 8] if comp else [1, 3, 5, 8, 14]))
    h = gen.relayout(rng, h)
    return {"header": h, "sims": [engine.random_sim(rng) for _ in range(rng.choice([2, 3, 4]))], "compile": comp,
            "nout": rng.choice([1, 1, 1, 2, 3])}


def judge(out, text, header, extra=()):
    """-> facts about the module for the runtime check, or None."""
    p = outparse.parse(text)
    mods = p.of("module")
    if len(mods) != 1:
        out.fail("no-module", "%d module definitions" % len(mods))
        return None
    body = mods[0][3]
    intro = outparse.introducers(body)
    known_ids, seen, kinds = {mods[0][2]}, {}, {}
    where = {t: i for i, (_, k, t, _, _, _) in enumerate(intro) if t}
    edges = 0
    for i, (ident, kind, typ, bases, parent, name) in enumerate(intro):
        if parent is not None and parent not in known_ids:
            out.fail("parent-later", "%s is registered in %s, which is not yet defined" % (ident, parent))
        known_ids.add(ident)
        for b in bases:
            if b in where:
                edges += 1
                if where[b] >= i:
                    out.fail("base-later", "%s is registered before its base %s" % (typ, b))
            elif not re.match(r"^(::)?std::", b):
                out.fail("base-missing", "%s names the base %s, which is never registered" % (typ, b))
        edges += parent is not None and kinds.get(parent) in ("class", "module")
        kinds[ident] = kind
    # types first, then everything else
    last_intro = max([n for n, l in enumerate(body) if outparse.INTRO.match(l)] or [-1])
    calls = [n for n, l in enumerate(body) if outparse.CALL.match(l)]
    if calls and last_intro > min(calls):
        out.fail("introducer-after-call", "%r comes after %r" % (body[last_intro], body[min(calls)]))
    src = gen.render(header)
    pos = {int(m.group(1)): m.start() for m in re.finditer(r"simlog::mark\((\d+)\)", src)}
    post = {int(m.group(1)) for m in re.finditer(r"GENPYBIND\(postamble\)\s*GENPYBIND_MANUAL\(\{ ::simlog::mark\((\d+)\)", src)}
    marks_of = lambda lines: [int(x) for l in lines for x in re.findall(r"simlog::mark\((\d+)\)", l)]
    # postambles last, in source order
    mlines = [(n, m) for n, l in enumerate(body) for m in marks_of([l])]
    if calls and any(n < max(calls) for n, m in mlines):
        out.fail("postamble-early", "a manual binding in the module body precedes %r" % body[max(calls)])
    tail = [m for n, m in mlines]
    if sorted(tail, key=lambda m: pos.get(m, -1)) != tail:
        out.fail("postamble-order", "%s" % tail)
    if set(tail) != post & set(tail) or (post - set(tail)):
        out.fail("postamble-set", "postambles %s, emitted last %s" % (sorted(post), tail))
    per = {}
    alldefs = p.of("def") + [d for t in extra for d in outparse.parse(t).of("def")]
    for d in alldefs:
        ms = marks_of(d[3])
        if not ms:
            continue
        per[d[1]] = ms
        # source order within the scope
        if sorted(ms, key=lambda m: pos.get(m, -1)) != ms:
            out.fail("manual-order", "%s runs the manual bindings %s, source order %s" % (
                d[1], ms, sorted(ms, key=lambda m: pos.get(m, -1))))
    called = [m.group(1) for m in map(outparse.CALL.match, body) if m]
    if len(called) != len(set(called)) or set(called) != {d[1] for d in alldefs}:
        out.fail("calls", "called %s, defined %s" % (called[:10], [d[1] for d in alldefs][:10]))
    return {"expected_marks": [m for c in called for m in per.get(c, [])] + tail, "edges": edges, "post": sorted(post)}


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        src = gen.install(w, sc["header"])
        outs = OUT_NAMES[:sc["nout"]]
        hh = digest(gen.render(sc["header"]))
        seen, facts, texts = set(), None, None
        for k, sim in enumerate([{}] + sc["sims"]):
            clear(w)
            p = tool(ctx, out, w, "l%d" % k, out_args(w, outs) + ["--module-name=mod", src] + FLAGS, sim=sim)
            if p.status != 0:
                if k == 0:
                    out.stats["probe:header not accepted"] += 1
                    return out
                break                    # C05/C06 decide that
            t = [w.read("out/" + o) for o in outs]
            key = digest(*t)
            if facts is None or facts["edges"]:
                out.marks.add(digest(hh, p.alloc_hash or ""))
            if key in seen:
                continue
            seen.add(key)
            out.stats["probe:distinct texts checked"] += 1
            f = judge(out, t[0], sc["header"], t[1:])
            if out.violation:
                break
            if facts is None:
                facts, texts = f, t
                out.stats["probe:ordering constraints"] += f["edges"]
                out.stats["probe:manual bindings"] += len(f["expected_marks"])
        if sc["compile"] and not out.violation:
            imported(ctx, out, w, texts, facts)
        out.sample = {"header": gen.render(sc["header"])[:1200], "layouts": sc["sims"][:2], "constraints": facts and facts["edges"]}
    finally:
        w.close()
    return out


def imported(ctx, out, w, texts, facts):
    try:
        pymod.compile_module("mod", {"f%02d.cpp" % i: t for i, t in enumerate(texts)}, w.path("src"), w.path("tmp"))
    except pymod.CompileError as e:
        out.fail("does-not-compile", str(e)[-800:].replace(w.root, "@"))
        return
    p = pymod.python(ctx, w, "py", [os.path.join(str(build.VERIF), "sim/dumpmod.py"), w.path("tmp"), "mod"], sim={"heap": 11})
    record(out, w, p)
    out.stats["probe:compiled and imported"] += 1
    if p.status != 0:
        err = p.stderr().decode("utf-8", "replace")
        if "consistent method resolution" in err:
            out.stats["probe:base order Python does not accept"] += 1
            return
        out.fail("import-fails", "%d %s" % (p.status, err[-500:]))
        return
    got = json.loads(p.stdout()).get("marks", [])
    if got != facts["expected_marks"]:
        out.fail("manual-order-at-import", "manual bindings ran as %s, expected %s" % (got, facts["expected_marks"]))


def shrink(sc):
    yield from shrink_list(sc, "sims", 0)
    if sc["nout"] > 1:
        yield with_(sc, nout=1)
    if sc["compile"]:
        yield with_(sc, compile=False)
    for h in shrink_header(sc["header"]):
        yield with_(sc, header=h)
    for i, s in enumerate(sc["sims"]):
        for x in shrink_sim(s):
            c = copy.deepcopy(sc)
            c["sims"][i] = x
            yield c
