"""Helpers shared by the checks: running the tool in a world, fault plans, oracles."""
import copy, errno, json, os, random, signal
import build, engine, gen
from engine import (GO, ERRNO, SHORT, KILL, SIG, GO_KILL, GO_SIG, ALLOC, TORN_KILL, GO_ERRNO,
                    CODE_NAMES, Process, World, run_to_end, digest)

REPO = str(build.REPO)
FLAGS = ["--", "-I" + REPO + "/public", "-std=c++17"]


def path_class(world, p):
    if p.startswith("<"):
        return p.strip("<>")
    if p.startswith(world.root + "/"):
        return p[len(world.root) + 1:].split("/")[0]
    if p.startswith(REPO):
        return "repo"
    return "misc"


def sel_match(world, ev, sel):
    """sel: "op:class" with * wildcards and | alternatives in both parts."""
    ops, _, cls = sel.partition(":")
    if ev.op in ("start", "exit"):      # bookkeeping, not calls of the program
        return False
    if ops != "*" and ev.op not in ops.split("|"):
        return False
    if cls in ("*", ""):
        return True
    return path_class(world, ev.path) in cls.split("|")


class Plan:
    """Turns a fault list into a decision function.

    fault = {"sel": "write:out", "at": 0.4 | "nth": 3, "code": ERRNO, "arg": 28,
             "sticky": bool}
    "at" is resolved against the events of an undisturbed run."""

    def __init__(self, world, faults, ref_events, out=None):
        self.world, self.out = world, out
        self.faults = []
        self.fired = []
        self.fired_paths = []
        for f in faults:
            nth = f.get("nth")
            if nth is None:
                n = sum(1 for e in ref_events if sel_match(world, e, f["sel"]))
                nth = int(f["at"] * n)
            self.faults.append([f, nth, 0])

    def __call__(self, proc, ev):
        res = None
        for item in self.faults:
            f, nth, seen = item
            if not sel_match(self.world, ev, f["sel"]):
                continue
            item[2] += 1
            hit = seen == nth or (f.get("sticky") and seen > nth)
            if hit and res is None:
                res = (f["code"], f["arg"])
                self.fired.append((ev.op, f["code"], f["arg"]))
                self.fired_paths.append(ev.path)
                if self.out is not None:
                    what = CODE_NAMES[f["code"]]
                    if f["code"] in (ERRNO, GO_ERRNO):
                        what += " " + errno.errorcode.get(f["arg"], str(f["arg"]))
                    elif f["code"] in (SIG, GO_SIG):
                        what += " " + signal.Signals(f["arg"]).name
                    self.out.stats["fault:%s %s" % (ev.op, what)] += 1
        return res


def describe(fault):
    return dict(fault, code=CODE_NAMES[fault["code"]])


def out_args(world, outs):
    a = []
    for o in outs:
        a += ["-o", o if o == "-" else world.path("out", o)]
    return a


def tool(ctx, out, world, name, argv, sim=None, decide=None, observe=None, **kw):
    """Run the real tool to its end inside the simulation and record the history."""
    p = Process(ctx.built, world, name, argv, sim=sim, **kw)
    run_to_end(p, decide, observe)
    record(out, world, p)
    return p


def record(out, world, p):
    out.evals += 1
    out.stats["steps"] += p.steps
    out.stats["signalled exits" if p.status < 0 else "exit %d" % p.status] += 1
    out.log(p.name, p.status, p.decisions)
    for e in p.events:
        out.log(e.op, e.path, e.path2, e.a, e.b, e.allocs)
    out.log(p.alloc_hash or "")
    out.log(p.stdout(), p.stderr())


def reference(ctx, out, world, h, outs, extra=(), name="ref", flags=None):
    """Undisturbed run with the plain heap in a pristine output directory.
    -> (status, {out: bytes}, process); outputs are removed afterwards."""
    src = gen.install(world, h) if isinstance(h, dict) else h
    clear(world)
    p = tool(ctx, out, world, name, out_args(world, outs) + list(extra) + [src] + (flags or FLAGS))
    texts = {o: (p.stdout() if o == "-" else world.read("out/" + o)) for o in outs}
    clear(world)
    return p.status, texts, p


def clear(world):
    import shutil
    shutil.rmtree(world.path("out"), ignore_errors=True)
    engine.make_out(world.root)


OUT_NAMES = ["m.cpp", "m1.cpp", "part two.cpp", "z.cc", "q.cpp", "r.cpp", "s.cpp", "t.cpp"]
ODD_NAMES = ["d1/m.cpp", "d1/deep/m.cpp", "d2/m.cpp", "d2/m1.cpp", "noextension", "\u00fc \u00f6.cpp", "100%.cpp", "%s%d.cpp",
             "-dash.cpp", ".hidden.cpp", "x.h", "a" * 200 + ".cpp", "m.cpp.cpp", "m", "m.cpp.tmp", "d1/a;b'c\"d.cpp"]


def pick_outs(rng, n):
    """n different output names; names in several directories and of unusual form."""
    if rng.random() < 0.5:
        return OUT_NAMES[:n]
    return rng.sample(OUT_NAMES + ODD_NAMES, n)


OUT_ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EROFS, errno.EACCES, errno.EMFILE,
              errno.ENFILE, errno.ENOMEM, errno.EPERM, errno.EFBIG]


def short(b, n=80):
    if b is None:
        return "absent"
    return "%d bytes %s" % (len(b), digest(b))


def shrink_header(h):
    """Candidates with fewer blocks, extras and includes."""
    n = len(h["blocks"])
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            c = copy.deepcopy(h)
            del c["blocks"][i:i + size]
            yield c
        size //= 2
    if h.get("includes") or h.get("pragmas"):
        c = copy.deepcopy(h)
        c["includes"], c["pragmas"], c["extra"] = {}, [], {}
        yield c
    # single lines
    for i, b in enumerate(h["blocks"]):
        lines = b.split("\n")
        if len(lines) > 2:
            for j in range(len(lines)):
                c = copy.deepcopy(h)
                c["blocks"][i] = "\n".join(lines[:j] + lines[j + 1:])
                yield c


PLAIN_SIM = {"heap": 0, "misc": 1}


def shrink_sim(sim):
    """Candidates closer to the plain environment."""
    for k in list(sim):
        if k in ("heap", "misc"):
            if sim[k] != PLAIN_SIM[k]:
                c = dict(sim)
                c[k] = PLAIN_SIM[k]
                yield c
        else:
            c = dict(sim)
            del c[k]
            yield c


def with_(sc, **kw):
    c = copy.deepcopy(sc)
    c.update(kw)
    return c


def shrink_list(sc, key, minimum=0):
    items = sc[key]
    if len(items) <= minimum:
        return
    if len(items) > 3:
        for half in (items[:len(items) // 2], items[len(items) // 2:]):
            if len(half) >= minimum:
                yield with_(sc, **{key: copy.deepcopy(half)})
    for i in range(len(items)):
        yield with_(sc, **{key: copy.deepcopy(items[:i] + items[i + 1:])})
