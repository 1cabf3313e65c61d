"""C07: concurrent runs do not disturb each other."""
import copy
from common import *
import checks.c01 as c01

PROPERTY = "C07"
LEVEL = "exploration"
PLAN = {"quick": (1000, 90), "thorough": (30000, 5400)}
RULE = ("A scenario is 2-4 runs of the tool over 1-3 headers with shared or own output paths, started together or "
        "staggered; a seeded scheduler decides at every intercepted call which run goes next (uniform, "
        "priority with random change points, or long bursts; half of the scenarios start interleaving at the first output call so that the "
        "publishing phases really overlap). Some runs share pid, random numbers and clock so that their "
        "temporary names collide; some runs are killed, interrupted or rejected. After every step all output "
        "paths are read. Non-trivial: at least two runs were in their output phase at once; distinct by the "
        "order of output-side calls over all runs.")
REAL, STUB = c01.REAL, ["memory allocator", "clock, pid, random numbers", "process scheduling (at call boundaries)",
                        "kill and signal delivery"]
ASSUMPTIONS = ["calls of different runs are atomic with respect to each other", "as for C01, no call that creates or renames a temporary fails"]


def scenario(rng, i, tier):
    nh = rng.choice([1, 1, 2, 3])
    np_ = rng.choice([2, 2, 2, 3, 4])
    headers = [gen.header(rng, size=rng.choice([1, 2, 4])) for _ in range(nh)]
    for h in headers:
        if rng.random() < 0.12:
            h["blocks"].append(gen.mistake(rng.choice(sorted(gen.MISTAKES)), 900))
    same = rng.random() < 0.5        # identical environment: temporary names collide
    base = engine.random_sim(rng)
    procs = []
    shared = rng.choice([1, 1, 2, 3])
    for k in range(np_):
        nout = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.7:
            outs = ["s%d.cpp" % j for j in range(shared)][:nout]
            if rng.random() < 0.3:
                rng.shuffle(outs)
        else:
            outs = ["p%d_%d.cpp" % (k, j) for j in range(nout)]
        sim = dict(base) if same else engine.random_sim(rng)
        sim["heap"] = rng.choice([0, base["heap"]])
        p = {"h": rng.randrange(nh), "outs": outs, "sim": sim, "faults": [], "start": rng.choice([0, 0, 0, 0, 0, rng.randrange(30), rng.randrange(300)])}
        x = rng.random()
        if x < 0.2:
            p["faults"].append({"sel": "*:out", "at": rng.random(), "code": rng.choice([KILL, GO_KILL]), "arg": 0})
        elif x < 0.3:
            p["faults"].append({"sel": "*:out", "at": rng.random(), "code": rng.choice([SIG, GO_SIG]), "arg": int(rng.choice([signal.SIGINT, signal.SIGTERM]))})
        elif x < 0.4:
            p["faults"].append({"sel": "write:out", "at": rng.random(), "code": rng.choice([ERRNO, SHORT]), "arg": errno.ENOSPC})
        procs.append(p)
    outs = sorted({o for p in procs for o in p["outs"]})
    if i % 20 == 0:
        # a run that erases its outputs against one that writes them
        headers = headers[:1] + [gen.header(rng, size=1)]
        headers[1]["blocks"].append(gen.mistake(rng.choice([m for m in sorted(gen.MISTAKES) if m.startswith(("emit_", "sema_", "parse"))]), 900))
        for k, p in enumerate(procs):
            p.update(h=1 if k else 0, outs=["s0.cpp"], faults=[], start=0, hold=bool(k))
        return {"headers": headers, "procs": procs[:2], "prior": {"s0.cpp": "old"},
                "sched": {"kind": "uniform", "seed": rng.getrandbits(32), "skip": True}}
    return {"headers": headers, "procs": procs, "prior": {o: rng.choice(["absent", "old", "garbage", "empty"]) for o in outs},
            "sched": {"kind": rng.choice(["uniform", "priority", "burst"]), "seed": rng.getrandbits(32),
                      "skip": rng.random() < 0.6}}


class Sched:
    def __init__(self, spec):
        self.r = random.Random(spec["seed"])
        self.kind = spec["kind"]
        self.prio = {}
        self.cur = None

    def pick(self, ready):
        if len(ready) == 1:
            return ready[0]
        if self.kind == "uniform":
            return self.r.choice(ready)
        if self.kind == "burst":
            if self.cur not in ready or self.r.random() < 0.2:
                self.cur = self.r.choice(ready)
            return self.cur
        for k in ready:
            self.prio.setdefault(k, self.r.random())
        if self.r.random() < 0.15:
            self.prio[self.r.choice(ready)] = self.r.random()
        return max(ready, key=lambda k: self.prio[k])


def install_all(w, sc):
    srcs = []
    for k, h in enumerate(sc["headers"]):
        srcs.append(gen.install(w, h, "src/h%d/header%d.h" % (k, k)))
    return srcs


def classify(k, order):
    """clang checks that an output exists and then that it may be written; if another run (on
    rejected input) erases it in between, it gives up (known finding)."""
    mine = [i for i, e in enumerate(order) if e[0] == k]
    for a, b in zip(mine, mine[1:]):
        if order[a][1] == "stat" and order[b][1] == "access" and order[a][2] == order[b][2] \
                and any(e[1] == "unlink" and e[2] == order[a][2] for e in order[a:b]):
            return "erased-between-checks"
    return "disturbed"


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        srcs = install_all(w, sc)
        refs = []
        cache = {}
        for p in sc["procs"]:
            key = (p["h"], tuple(p["outs"]))
            if key not in cache:
                cache[key] = reference(ctx, out, w, srcs[p["h"]], p["outs"])
            refs.append(cache[key])
        clear(w)
        prior = {}
        for o, kind in sc["prior"].items():
            prior[o] = c01.set_prior(w, o, kind, None)
        allowed = {o: {prior[o]} for o in prior}
        erasers = {o: False for o in prior}      # somebody may erase it
        for p, (st, ref, p0) in zip(sc["procs"], refs):
            for o in p["outs"]:
                if st == 0:
                    allowed[o].add(ref[o])
                if st != 0 or any(f["code"] == ERRNO for f in p["faults"]):
                    erasers[o] = True
        before = w.snapshot()
        sched = Sched(sc["sched"])
        procs, plans, seen = {}, {}, {}
        waiting = {k: p["start"] for k, p in enumerate(sc["procs"])}
        order = []
        both = False
        steps = 0
        live = set()

        def launch(k):
            p = sc["procs"][k]
            procs[k] = Process(ctx.built, w, "p%d" % k, out_args(w, p["outs"]) + [srcs[p["h"]]] + FLAGS, sim=p["sim"])
            plans[k] = Plan(w, p["faults"], refs[k][2].events, out)
            seen[k] = set()
            if sc["sched"]["skip"]:
                # up to the first call on an output: nothing of it is visible to others
                q = procs[k]
                while not q.done and path_class(w, q.event.path) != "out":
                    q.step()
                # or up to where it erases its output
                while p.get("hold") and not q.done and q.event.path not in [w.path("out", o) for o in p["outs"] if q.event.op == "unlink"]:
                    q.step()

        def look(k):
            for o in prior:
                got = w.read("out/" + o)
                if got not in allowed[o] and not (got is None and erasers[o]):
                    out.fail("mixed-output", "after step %d of run %d: %s is %s, allowed %s" % (
                        steps, k, o, short(got), [short(x) for x in sorted(allowed[o], key=repr)]))
                if k is not None and o in sc["procs"][k]["outs"] and got == refs[k][1].get(o):
                    seen[k].add(o)

        try:
            while waiting or any(not p.done for p in procs.values()):
                idle = all(p.done for p in procs.values())
                for k in [k for k, s in waiting.items() if s <= steps or (idle and s == min(waiting.values()))]:
                    del waiting[k]
                    launch(k)
                ready = [k for k, p in procs.items() if not p.done]
                if not ready:
                    continue
                k = sched.pick(ready)
                p = procs[k]
                ev = p.event
                inout = [j for j in ready if path_class(w, procs[j].event.path) == "out"]
                both = both or len(inout) > 1
                if path_class(w, ev.path) == "out":
                    order.append((k, ev.op, os.path.relpath(ev.path, w.path("out")), ev.path2.rsplit("/", 1)[-1]))
                d = plans[k](p, ev)
                p.step(*(d or (GO, 0)))
                steps += 1
                look(k)
                if steps > 60000:
                    raise engine.Hang("schedule does not end")
                if out.violation:
                    break
        finally:
            for p in procs.values():
                if not p.done:
                    p.abort()
        for k in sorted(procs):
            if procs[k].done:
                record(out, w, procs[k])
        out.log(repr(order))
        if both:
            out.marks.add(digest(repr(order)))
        out.stats["probe:scenarios with overlapping output phases"] += both
        opened = {}
        for e in order:
            if e[1] == "open" and e[2].endswith(".tmp"):
                opened.setdefault(e[2], set()).add(e[0])
        out.stats["probe:temporary names tried by two runs"] += sum(len(v) > 1 for v in opened.values())
        killed = any(c in (KILL, GO_KILL) for pl in plans.values() for _, c, _ in pl.fired)
        if not out.violation:
            for k, p in sorted(procs.items()):
                st, ref, _ = refs[k]
                fired = plans[k].fired
                if p.status == 0:
                    if st != 0:
                        out.fail("accepted", "run %d exits 0, alone it exits %d" % (k, st))
                    elif not set(sc["procs"][k]["outs"]) <= seen[k]:
                        out.fail("not-delivered", "run %d exits 0 but its complete output never stood at %s" % (
                            k, sorted(set(sc["procs"][k]["outs"]) - seen[k])))
                elif not fired and p.status != st:
                    out.fail(classify(k, order), "run %d exits %d, alone it exits %d: %r" % (k, p.status, st, p.stderr()[-300:]))
            after = w.snapshot()
            tainted = killed or any(c in (SIG, GO_SIG) and op == "open" for pl in plans.values() for op, c, _ in pl.fired)
            extra = sorted(x for x in after if x not in before and x[4:] not in prior)
            lost = sorted(x for x in before if x not in after and x[4:] not in prior)
            changed = sorted(x for x in before if x in after and before[x] != after[x] and x[4:] not in prior)
            if (extra and not tainted) or lost or changed:
                out.fail("left-behind", "extra files %s, lost %s, changed %s" % (extra, lost, changed))
            # files nobody may erase and no run could replace still hold what they held
            for o in prior:
                got = w.read("out/" + o)
                if got is None and prior[o] is not None and not erasers[o]:
                    out.fail("lost-output", "%s disappeared" % o)
        out.sample = {"runs": [{"outputs": p["outs"], "header": p["h"], "faults": [describe(f) for f in p["faults"]]} for p in sc["procs"]],
                      "schedule": sc["sched"], "order": order[:40]}
    finally:
        w.close()
    return out


def shrink(sc):
    if len(sc["procs"]) > 1:
        for i in range(len(sc["procs"])):
            c = copy.deepcopy(sc)
            del c["procs"][i]
            used = {o for p in c["procs"] for o in p["outs"]}
            c["prior"] = {o: k for o, k in c["prior"].items() if o in used}
            yield c
    for i, p in enumerate(sc["procs"]):
        if p["faults"]:
            c = copy.deepcopy(sc)
            c["procs"][i]["faults"] = []
            yield c
        if p["start"]:
            c = copy.deepcopy(sc)
            c["procs"][i]["start"] = 0
            yield c
        if len(p["outs"]) > 1:
            for j in range(len(p["outs"])):
                c = copy.deepcopy(sc)
                del c["procs"][i]["outs"][j]
                used = {o for q in c["procs"] for o in q["outs"]}
                c["prior"] = {o: k for o, k in c["prior"].items() if o in used}
                yield c
        for s in shrink_sim(p["sim"]):
            c = copy.deepcopy(sc)
            c["procs"][i]["sim"] = s
            yield c
    if sc["sched"]["kind"] != "burst":
        yield with_(sc, sched=dict(sc["sched"], kind="burst"))
    for seed in range(3):
        if sc["sched"]["seed"] > 2:
            yield with_(sc, sched=dict(sc["sched"], seed=seed))
    for i, h in enumerate(sc["headers"]):
        for h2 in shrink_header(h):
            c = copy.deepcopy(sc)
            c["headers"][i] = h2
            yield c
