"""C08: no history can make a later run produce anything but the current bindings."""
import copy
from common import *
import checks.c01 as c01

PROPERTY = "C08"
LEVEL = "exploration"
PLAN = {"quick": (700, 100), "thorough": (30000, 5400)}
RULE = ("A scenario is a history of 8-20 actions in one directory: edits of the header (blocks dropped, added, "
        "swapped, mistakes made and undone), of an included header and of a header named by a pragma, runs that "
        "finish, fail, are killed at any call or interrupted, damaged, deleted or truncated outputs, stale and foreign temporaries "
        "(also with the names the next run will draw), file times and the clock jumping forwards and back, other working directories, other "
        "module names and numbers of outputs. Undisturbed runs in between and at the end are compared with a run on the same sources "
        "and the same paths in a pristine directory. Non-trivial: an undisturbed run after at least one disturbance; "
        "distinct by the digest of the history so far.")
REAL, STUB = c01.REAL, c01.STUB
ASSUMPTIONS = ["temporaries of killed runs exist only as far as the killed run really left them or as files with such names"]


def scenario(rng, i, tier):
    h = gen.header(rng, size=rng.choice([3, 5, 8]))
    h["includes"].setdefault("dep.h", gen.PROLOGUE + "struct GENPYBIND(visible) Dep0 { int d = 0; };\n")
    nout = rng.choice([1, 1, 2, 3])
    acts = []
    n = rng.randrange(6, 13)
    # an exact repetition of the random numbers makes temporaries collide
    sims = [engine.random_sim(rng) for _ in range(2)] + [dict(PLAIN_SIM)]
    for k in range(n):
        a = rng.choices(["edit", "dep", "run", "kill", "fault", "damage", "stale", "times", "mistake", "outs", "extra"],
                        [4, 3, 4, 5, 3, 3, 2, 2, 1, 1, 1])[0]
        act = {"do": a, "seed": rng.getrandbits(32), "sim": rng.choice(sims), "cwd": rng.choice(["cwd", "cwd", "out", "src"])}
        if a == "kill":
            act["fault"] = {"sel": rng.choice(["*:out", "*:out", "*:*"]), "at": rng.random(),
                            "code": rng.choice([KILL, GO_KILL, SIG, GO_SIG]), "arg": 0}
            if act["fault"]["code"] in (SIG, GO_SIG):
                act["fault"]["arg"] = int(rng.choice([signal.SIGINT, signal.SIGTERM]))
            elif rng.random() < 0.3:
                act["fault"] = {"sel": "write:out", "at": rng.random(), "code": TORN_KILL, "arg": rng.randrange(4000)}
        if a == "fault":
            act["fault"] = {"sel": rng.choice(["write:out", "open:out", "close:out", "rename:out", "open:src"]), "at": rng.random(),
                            "code": ERRNO, "arg": rng.choice(OUT_ERRNOS), "sticky": rng.random() < 0.4}
        acts.append(act)
    acts.append({"do": "run", "seed": 0, "sim": rng.choice(sims), "cwd": "cwd"})
    return {"header": h, "nout": nout, "acts": acts, "args": rng.choice([[], [], ["--module-name=mm"]])}


def edit(h, rng):
    h = copy.deepcopy(h)
    b = h["blocks"]
    k = rng.random()
    if k < 0.25 and len(b) > 1:
        del b[rng.randrange(len(b))]
    elif k < 0.6:
        g = gen.Gen(rng, 1, ["struct", "enum", "function", "template", "variable", "namespace"])
        g.n = rng.randrange(10000, 10**6)
        b.insert(rng.randrange(len(b) + 1), g.block(rng.choice(["struct", "enum", "function", "template", "variable"])))
    elif k < 0.8 and len(b) > 1:
        i, j = rng.randrange(len(b)), rng.randrange(len(b))
        b[i], b[j] = b[j], b[i]
    else:
        # same length, other content
        i = rng.randrange(len(b)) if b else None
        if i is not None:
            b[i] = b[i].replace(" = 1", " = 7").replace("return 1", "return 7").replace("int x", "int y")
    return h


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        h = sc["header"]
        good = h
        outs = OUT_NAMES[:sc["nout"]]
        gen.install(w, h)
        src = w.path("src/header.h")
        disturbed = 0
        hist = []
        depver = 0
        times = {}
        for n, act in enumerate(sc["acts"]):
            rng = random.Random(act["seed"])
            do = act["do"]
            hist.append([do, act.get("fault"), act["seed"]])
            args = out_args(w, outs) + sc["args"] + [src] + FLAGS
            cwd = w.path(act["cwd"])
            if do == "edit":
                good = h = edit(good, rng)
            elif do == "mistake":
                h = copy.deepcopy(good)
                h["blocks"].insert(rng.randrange(len(h["blocks"]) + 1), gen.mistake(rng.choice(sorted(gen.MISTAKES)), 900))
                disturbed += 1
            elif do == "dep":
                depver += 1
                good = copy.deepcopy(good)
                good["includes"]["dep.h"] = gen.PROLOGUE + "struct GENPYBIND(visible) Dep%d { int d%d = 0; };\n" % (depver % 3, depver % 10)
                h = copy.deepcopy(good)
                disturbed += 1
            elif do == "extra":
                good = copy.deepcopy(good)
                name = "extra_q%d.h" % rng.randrange(3)
                good["extra"][name] = "#pragma once\n"
                good["pragmas"] = [x for x in good["pragmas"]] + ["\"%s\"" % name]
                h = copy.deepcopy(good)
            if do in ("edit", "mistake", "dep", "extra"):
                gen.install(w, h)
                if rng.random() < 0.5:      # the edit keeps the old time stamp
                    for f in ("src/header.h", "src/dep.h"):
                        if f in times and os.path.exists(w.path(f)):
                            os.utime(w.path(f), (times[f], times[f]))
            elif do == "outs":
                outs = OUT_NAMES[:rng.choice([1, 2, 3, 4])]
            elif do == "times":
                for f in ["src/header.h", "src/dep.h"] + ["out/" + o for o in outs]:
                    if os.path.exists(w.path(f)):
                        times[f] = rng.choice([0, 10**9, 1700000000, 4 * 10**9])
                        os.utime(w.path(f), (times[f], times[f]))
                disturbed += 1
            elif do == "damage":
                o = rng.choice(outs)
                p = w.path("out/" + o)
                body = w.read("out/" + o)
                k = rng.choice(["delete", "truncate", "garbage", "append", "readonly", "dangling"])
                if k == "delete" or body is None:
                    if os.path.lexists(p):
                        os.unlink(p)
                elif k == "readonly":
                    os.chmod(p, 0o444)
                elif k == "dangling":
                    os.unlink(p)
                    os.symlink(w.path("tmp/nowhere"), p)
                else:
                    if os.path.islink(p):
                        os.unlink(p)
                    w.write("out/" + o, {"truncate": body[:len(body) // 2], "garbage": b"\0\xff", "append": body + b"x"}[k])
                disturbed += 1
                out.stats["probe:damage " + k] += 1
            elif do == "stale":
                # temporaries of a run that was killed, possibly under the name the next run draws
                q = Process(ctx.built, w, "s%d" % n, args, sim=act["sim"], cwd=cwd)

                def stop(proc, ev):
                    return (KILL, 0) if ev.op in ("rename", "close") and path_class(w, ev.path) == "out" else None
                run_to_end(q, stop)
                record(out, w, q)
                disturbed += 1
            elif do in ("kill", "fault"):
                events = tool(ctx, out, w, "d%d" % n, args, sim=act["sim"], cwd=cwd).events if n == 0 else last_events(out, w)
                plan = Plan(w, [act["fault"]], events, out)
                p = tool(ctx, out, w, "f%d" % n, args, sim=act["sim"], decide=plan, cwd=cwd)
                remember(out, p)
                disturbed += bool(plan.fired)
            else:
                p = tool(ctx, out, w, "u%d" % n, args, sim=act["sim"], cwd=cwd)
                remember(out, p)
                got = {o: w.read("out/" + o) for o in outs}
                # the same sources at the same paths, nothing else
                keep = w.path("keep")
                os.rename(w.path("out"), keep)
                engine.make_out(w.root)
                r = tool(ctx, out, w, "p%d" % n, args)
                want = {o: w.read("out/" + o) for o in outs}
                import shutil
                shutil.rmtree(w.path("out"))
                os.rename(keep, w.path("out"))
                if disturbed:
                    out.marks.add(digest(hist, gen.render(h)))
                what = [x[0] for x in hist]
                if p.status != r.status:
                    out.fail("status-differs", "action %d of %s: exit %d, pristine exit %d: %r" % (n, what, p.status, r.status, p.stderr()[-200:]))
                elif p.status == 0:
                    for o in outs:
                        if got[o] != want[o]:
                            out.fail("stale-output", "action %d of %s: %s is %s, pristine %s" % (n, what, o, short(got[o]), short(want[o])))
                elif any(got[o] is not None and got[o] == want.get(o, b"") for o in outs):
                    pass
                if p.status == r.status and p.stderr() != r.stderr():
                    out.fail("diagnostics-differ", "action %d of %s: %r / %r" % (n, what, p.stderr()[-200:], r.stderr()[-200:]))
            if out.violation:
                break
        out.sample = {"history": [dict(a, fault=describe(a["fault"])) if "fault" in a else a for a in sc["acts"]][:8]}
    finally:
        w.close()
    return out


def remember(out, p):
    out.last = p.events


def last_events(out, w):
    return getattr(out, "last", [])


def shrink(sc):
    acts = sc["acts"]
    for size in (len(acts) // 2, len(acts) // 4, 1):
        if size < 1:
            continue
        for i in range(0, len(acts) - 1, size):
            c = copy.deepcopy(sc)
            del c["acts"][i:min(i + size, len(acts) - 1)]
            yield c
    if sc["nout"] > 1:
        yield with_(sc, nout=1)
    if sc["args"]:
        yield with_(sc, args=[])
    for h in shrink_header(sc["header"]):
        yield with_(sc, header=h)
    for i, a in enumerate(acts):
        if a["cwd"] != "cwd":
            c = copy.deepcopy(sc)
            c["acts"][i]["cwd"] = "cwd"
            yield c
        for s in shrink_sim(a["sim"]):
            c = copy.deepcopy(sc)
            c["acts"][i]["sim"] = s
            yield c
