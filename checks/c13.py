"""C13: objects live exactly as long as the annotations promise."""
import copy, json
from common import *
import lifemod, pymod
from lifemod import Cpp, Wrapper, Model, ACCEPTS

PROPERTY = "C13"
LEVEL = "exploration"
PLAN = {"quick": (900, 120), "thorough": (60000, 5400)}
MODULES = {"quick": 20, "thorough": 120}
RULE = ("A scenario is one generated API (constructors, methods, static and free functions, call operators, inlined methods, methods of a class template, methods brought in by using-declarations, virtual methods and their overrides, classes with several bases, annotated copy constructors, function templates, overloads, renamed functions and functions redeclared with other parameter names, with random "
        "keep_alive pairs over return, this and parameters, return value policies and holder types), put through the generator and the "
        "compiler, and a random history of 20-70 operations on it in a simulated interpreter: calls with positional, keyword, None and "
        "defaulted arguments, calls that are refused, dropped and duplicated references, attributes, C++ owners of shared objects, garbage "
        "collections, under a seeded heap that decides when addresses are reused. After every operation the set of live C++ objects is "
        "compared with the model. Non-trivial: at least one keep_alive edge or one non-owning or shared result; distinct by digest of (API, history).")
REAL = ["genpybind-tool built from /repo", "clang++ 18, pybind11 2.11, CPython 3.12", "generated API (test double of a user's library)"]
STUB = ["memory allocator of the interpreter", "clock, pid, random numbers"]
ASSUMPTIONS = ["reference cycles that contain a keep_alive edge are not created (pybind11 cannot collect them)",
               "automatic collections are replaced by collections at chosen points", "functions exposed as properties or operators are not covered"]


def scenario(rng, i, tier):
    mods = MODULES[tier]
    k = i % mods
    # the set of APIs is a function of the batch, so that each is compiled once
    sc = {"api": None, "apiseed": k, "sim": engine.random_sim(rng), "toolsim": engine.random_sim(rng) if rng.random() < 0.3 else {},
          "nout": rng.choice([1, 1, 2]) if k % 5 == 0 else 1}
    sp = lifemod.spec(random.Random("api/%s/%d/%d" % (tier, rng.batch, k)))
    names = [f["uid"] for f in sp["fns"]]
    w = {n: rng.choice([0, 1, 1, 2, 4]) for n in names}
    kinds = ["new", "call", "drop", "ref", "attr", "gc", "put", "get", "clear", "bad", "delattr", "getattr", "field"]
    kw = [5, 14, 8, 1, 2, 1, 1, 1, 1, 1.5, 0.7, 0.7, 1]
    kw = [x * rng.choice([0.3, 1, 1, 2]) for x in kw]
    ops = []
    for n in range(rng.choice([25, 45, 75])):
        op = {"do": rng.choices(kinds, kw)[0] if n > 6 else "new", "r": [rng.random() for _ in range(10)]}
        if op["do"] in ("call", "bad"):
            op["fn"] = rng.choices(names, [w[n] + 0.1 for n in names])[0]
        ops.append(op)
    sc["ops"] = ops
    sc["api"] = sp
    return sc


class Resolver:
    """Turns raw operations into concrete ones, keeping the model in step."""

    def __init__(self, sp, out):
        self.sp, self.m, self.out = sp, Model(), out
        self.fns = {f["uid"]: f for f in sp["fns"]}
        self.n = 0
        self.alive = []            # wrappers, exactly as reference counting has them
        for c in ("P", "N"):
            self.m.add_global(c)
        self.edges = 0
        self.special = 0

    # -- reference counting
    def settle(self):
        while True:
            refs = list(self.m.slots.values()) + [x for w in self.alive for x in w.edges] + [w.attr for w in self.alive if w.attr]
            keep = [w for w in self.alive if any(w is r for r in refs)]
            if len(keep) == len(self.alive):
                return
            self.alive = keep

    def collect(self):
        todo, seen = list(self.m.slots.values()), []
        while todo:
            x = todo.pop()
            if not any(x is s for s in seen):
                seen.append(x)
                todo += x.edges + ([x.attr] if x.attr else [])
        self.alive = [w for w in self.alive if any(w is s for s in seen)]

    def live(self):
        res = []
        for w in self.alive:
            c = w.cpp
            while c.parent is not None:
                c = c.parent
            if not any(c is x for x in res):
                res.append(c)
        for c in list(self.m.vault.values()) + list(self.m.globals.values()) + self.m.immortal:
            if not any(c is x for x in res):
                res.append(c)
        flat = []
        for c in res:
            flat.append(c)
            if c.member:
                flat.append(c.member)
        return flat

    def add(self, w):
        self.alive.append(w)
        if w.cpp.cls in lifemod.IMMORTAL and not any(w.cpp is c for c in self.m.immortal):
            self.m.immortal.append(w.cpp)

    def wrapper_of(self, cpp):
        return next((w for w in self.alive if w.cpp is cpp), None)

    def reaches(self, a, b, ka_only_if=None):
        todo, seen = [a], []
        while todo:
            x = todo.pop()
            if x is b:
                return True
            if any(x is s for s in seen):
                continue
            seen.append(x)
            todo += x.edges + ([x.attr] if x.attr else [])
        return False

    def ka_on_path(self, a, b):
        """Is there a way from a to b that uses a keep_alive edge?"""
        todo, seen = [(a, False)], []
        while todo:
            x, used = todo.pop()
            if x is b and used:
                return True
            if any(x is s and used == u for s, u in seen):
                continue
            seen.append((x, used))
            todo += [(e, True) for e in x.edges]
            if x.attr:
                todo.append((x.attr, used))
        return False

    def pick(self, classes, r):
        c = [k for k, w in self.m.slots.items() if w.cpp.cls in classes]
        return c[int(r * len(c))] if c else None

    def slot(self):
        self.n += 1
        return "s%d" % self.n

    def resolve(self, op):
        """-> (driver operation, expectation) or None"""
        do, r, m = op["do"], op["r"], self.m
        exp = {"err": None, "result": None, "fresh": None, "do": do}
        if do == "new":
            cls = lifemod.TYPES[int(r[0] * len(lifemod.TYPES))]
            w = m.fresh(cls)
            self.add(w)
            d = self.slot()
            m.slots[d] = w
            exp["result"] = w
            return ["call", lifemod.PY.get(cls, cls), None, [], {}, d], exp
        if do == "drop":
            k = self.pick(lifemod.TYPES, r[0])
            if k is None:
                return None
            del m.slots[k]
            return ["drop", k], exp
        if do == "ref":
            k = self.pick(lifemod.TYPES, r[0])
            if k is None:
                return None
            d = self.slot()
            m.slots[d] = m.slots[k]
            return ["ref", k, d], exp
        if do == "attr":
            a, b = self.pick(self.sp["dyn"], r[0]), self.pick(lifemod.TYPES, r[1])
            if a is None or b is None or self.ka_on_path(m.slots[b], m.slots[a]):
                return None
            m.slots[a].attr = m.slots[b]
            if self.reaches(m.slots[b], m.slots[a]) :
                self.out.stats["probe:reference cycle"] += 1
            return ["attr", a, b], exp
        if do == "delattr":
            c = [k for k, w in m.slots.items() if w.attr]
            if not c:
                return None
            k = c[int(r[0] * len(c))]
            m.slots[k].attr = None
            return ["delattr", k], exp
        if do == "getattr":
            c = [k for k, w in m.slots.items() if w.attr]
            if not c:
                return None
            k = c[int(r[0] * len(c))]
            d = self.slot()
            exp["result"] = m.slots[k].attr
            m.slots[d] = m.slots[k].attr
            return ["getattr", k, d], exp
        if do == "field":
            k = self.pick(["N"], r[0])
            if k is None:
                return None
            n = self.m.slots[k]
            res = self.wrapper_of(n.cpp.member)
            if res is None:
                res = Wrapper(n.cpp.member)
                res.edges.append(n)
                self.add(res)
            d = self.slot()
            m.slots[d] = exp["result"] = res
            self.special += 1
            return ["field", k, d], exp
        if do == "gc":
            self.collect()
            return ["gc"], exp
        if do == "put":
            k = self.pick(["Q"], r[0])
            if k is None:
                return None
            v = int(r[1] * 4)
            m.vault[v] = m.slots[k].cpp
            self.special += 1
            return ["put", v, k], exp
        if do == "get":
            v = int(r[1] * 4)
            d = self.slot()
            if v in m.vault:
                w = self.wrapper_of(m.vault[v])
                if w is None:
                    w = Wrapper(m.vault[v])
                    self.add(w)
                m.slots[d] = exp["result"] = w
                self.special += 1
            return ["get", v, d], exp
        if do == "clear":
            v = int(r[1] * 4)
            m.vault.pop(v, None)
            return ["clear", v], exp
        return self.call(op, exp)

    def call(self, op, exp):
        f, r, m = self.fns.get(op["fn"]), op["r"], self.m
        if f is None:
            return None
        target = self_w = None
        kind = f["kind"]
        if kind in ("method", "call", "mixin", "used", "virt", "over"):
            cls = f["cls"]
            k = self.pick([cls] + (lifemod.DERIVED.get(cls, []) if kind != "call" and not f.get("overridden") else []), r[0])
            if k is None:
                return None
            target, self_w = [k], m.slots[k]
        elif kind == "static":
            target = lifemod.PY.get(f["cls"], f["cls"])
            if r[0] < 0.3:
                k = self.pick([f["cls"]] + lifemod.DERIVED.get(f["cls"], []), r[0] / 0.3)
                if k is not None:
                    target = [k]
        elif kind == "ctor":
            target = lifemod.PY.get(f["cls"], f["cls"])
        bound, vals = {}, []
        params = f["params"]
        leave_out = params and params[-1].get("default") and r[1] < 0.4
        for i, p in enumerate(params[:-1] if leave_out else params):
            x = r[2 + i]
            if p["type"] == "int":
                vals.append(int(x * 100))
                bound[p["name"]] = None
                continue
            if p["form"] in ("*", "sp") and x < 0.12 and not p.get("nonone"):
                vals.append(None)
                bound[p["name"]] = None
                continue
            k = self.pick(ACCEPTS[p["type"]], x)
            if k is None:
                if p["form"] in ("*", "sp") and not p.get("nonone"):
                    vals.append(None)
                    bound[p["name"]] = None
                    continue
                return None
            vals.append([k])
            bound[p["name"]] = m.slots[k]
        if leave_out:
            bound[params[-1]["name"]] = None
        npos = len(vals) if r[8] < 0.5 or f.get("rename") else int(r[7] * (len(vals) + 1))
        args = vals[:npos]
        kwargs = {params[i]["name"]: vals[i] for i in range(npos, len(vals))}
        name = None if kind == "ctor" else f["name"]
        if op["do"] == "bad":
            objs = [i for i, p in enumerate(params) if p["type"] != "int" and i < len(vals)]
            if not objs:
                return None
            i = objs[int(r[9] * len(objs))]
            if i < npos:
                args[i] = "text"
            else:
                kwargs[params[i]["name"]] = "text"
            exp["err"] = "TypeError"
            return ["bad", target, name, args, kwargs, None], exp
        # -- the promised effect
        ret, forever = f["ret"], None
        if kind == "ctor":
            res = m.fresh(f["cls"])
        elif ret[0] == "void":
            res = None
        elif ret[0] == "new":
            res = m.fresh(ret[1])
            if f["rvp"] in ("reference", "automatic_reference"):
                forever = res.cpp                # nobody owns it
        elif ret[0] in ("byval", "newref"):
            res = m.fresh(ret[1])
        elif ret[0] == "param":
            res = bound[ret[1]]
        elif ret[0] == "member":
            if f["rvp"] == "reference_internal":
                res = self.wrapper_of(self_w.cpp.member)
                if res is None:
                    res = Wrapper(self_w.cpp.member)
                    res.edges.append(self_w)
                self.special += 1
            else:
                # pybind11 returns the object's existing wrapper, if any, whatever the policy
                res = self.wrapper_of(self_w.cpp.member) or m.fresh("P")
        else:
            g = m.globals[ret[1]]
            res = self.wrapper_of(g)
            if res is None:
                refers = f["rvp"] in ("reference", "reference_internal") or f["rvp"] == "automatic_reference" and f["byptr"]
                res = Wrapper(g) if refers else m.fresh(g.cls)
                if f["rvp"] == "reference_internal":
                    res.edges.append(self_w)
            self.special += 1
        ends = dict(bound)
        ends["this"] = res if kind == "ctor" else self_w
        ends["return"] = res
        added = []
        for a, b in f["ka"]:
            nurse, patient = ends.get(a), ends.get(b)
            if nurse is None or patient is None:
                continue
            if nurse is patient or self.reaches(patient, nurse):
                for w in added:
                    w.edges.pop()
                return None
            nurse.edges.append(patient)
            added.append(nurse)
        self.edges += len(added)
        if forever is not None:
            m.immortal.append(forever)
            self.special += 1
        if res is not None and not any(res is w for w in self.alive):
            self.add(res)
        d = None
        if res is not None and (r[9] < 0.85 or kind == "ctor"):
            d = self.slot()
            m.slots[d] = res
        exp["result"] = res
        return ["call", target, name, args, kwargs, d], exp


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        src = w.write("src/life.h", lifemod.header(sc["api"]))
        outs = OUT_NAMES[:sc["nout"]]
        p = tool(ctx, out, w, "gen", out_args(w, outs) + ["--module-name=life", src] + FLAGS, sim=sc["toolsim"])
        if p.status != 0:
            out.fail("rejected", "%r" % p.stderr()[-600:])
            return out
        try:
            pymod.compile_module("life", {"f%d.cpp" % i: w.read("out/" + o) for i, o in enumerate(outs)}, w.path("src"), w.path("tmp"))
        except pymod.CompileError as e:
            out.fail("does-not-compile", str(e)[-1500:])
            return out
        rs = Resolver(sc["api"], out)
        ops, exps = [], []
        for op in sc["ops"]:
            x = rs.resolve(op)
            if x is None:
                continue
            ops.append(x[0])
            rs.settle()
            x[1]["live"] = rs.live()
            x[1]["slots"] = dict(rs.m.slots)
            exps.append(x[1])
        # everything has to go in the end
        for k in list(rs.m.slots):
            del rs.m.slots[k]
            ops.append(["drop", k])
            rs.settle()
            exps.append({"err": None, "result": None, "do": "drop", "live": rs.live(), "slots": dict(rs.m.slots)})
        for v in range(4):
            rs.m.vault.pop(v, None)
            ops.append(["clear", v])
            exps.append({"err": None, "result": None, "do": "clear", "live": rs.live(), "slots": {}})
        rs.collect()
        rs.settle()
        ops.append(["gc"])
        exps.append({"err": None, "result": None, "do": "gc", "live": rs.live(), "slots": {}})
        w.write("tmp/ops.json", json.dumps(ops))
        q = pymod.python(ctx, w, "py", [os.path.join(str(build.VERIF), "sim/lifedrv.py"), w.path("tmp"), "life", w.path("tmp/ops.json"), w.path("tmp/report")],
                         sim=sc["sim"])
        record(out, w, q)
        lines = (w.read("tmp/report") or b"").decode().split("\n")
        verify(out, rs, ops, exps, lines, q)
        out.stats["operations"] += len(ops)
        out.stats["probe:keep_alive edges"] += rs.edges
        out.stats["probe:references, shared or member results"] += rs.special
        if rs.edges or rs.special:
            out.marks.add(digest(sc["api"], ops))
        out.sample = {"functions": ["%s %s%s -> %s keep_alive %s %s" % (f["kind"], f["name"], [p["type"] + p["form"] for p in f["params"]], f["ret"], f["ka"], f["rvp"] or "")
                                    for f in sc["api"]["fns"]][:8], "operations": ops[:8]}
    finally:
        w.close()
    return out


def verify(out, rs, ops, exps, lines, q):
    docs = [json.loads(l) for l in lines if l.startswith("{")]
    if not docs:
        out.fail("import-fails", "%d %r" % (q.status, q.stderr()[-500:]))
        return
    # the two globals and the member of the second exist from the start
    g = sorted(docs[0]["live"])
    if len(g) != 3:
        out.fail("globals", "%s" % g)
        return
    rs.m.globals["P"].oid = g[0]
    rs.m.globals["N"].member.oid, rs.m.globals["N"].oid = g[2], g[1]
    oids = {id(rs.m.globals["P"]): g[0], id(rs.m.globals["N"]): g[1], id(rs.m.globals["N"].member): g[2]}
    for n, (op, exp) in enumerate(zip(ops, exps)):
        if 2 * n + 2 >= len(docs):
            out.fail("crash", "the interpreter ended (status %d) in operation %d: %s; %r" % (q.status, n, op, q.stderr()[-300:]))
            return
        d, after = docs[2 * n + 1], docs[2 * n + 2]
        what = "operation %d %s" % (n, op)
        if d["err"] != exp["err"]:
            out.fail("unexpected-error" if d["err"] else "missing-error", "%s: %s" % (what, d["err"]))
            return
        res = exp["result"]
        if (res is None) != d["none"]:
            out.fail("wrong-result", "%s: %s" % (what, d))
            return
        if res is not None:
            c = res.cpp
            if id(c) in oids:
                if d.get("oid") != oids[id(c)]:
                    out.fail("wrong-object", "%s: returned object %s instead of %s" % (what, d.get("oid"), oids[id(c)]))
                    return
            else:
                if d.get("oid") in oids.values():
                    out.fail("not-a-new-object", "%s: returned object %s, which exists already" % (what, d.get("oid")))
                    return
                oids[id(c)] = d.get("oid")
                if c.member is not None:
                    oids[id(c.member)] = d.get("moid")
        want = sorted(oids[id(c)] for c in exp["live"])
        got = sorted(after["live"])
        if got != want:
            early, late = sorted(set(want) - set(got)), sorted(set(got) - set(want))
            if early:
                out.fail("destroyed-early", "%s: objects %s are gone although promised to live" % (what, early))
            else:
                out.fail("leaked", "%s: objects %s are alive although nothing holds them" % (what, late))
            return
        if after["errors"]:
            out.fail("use-of-dead-object", "%s: %d accesses to or destructions of dead objects" % (what, after["errors"]))
            return
        ids = {k: oids[id(x.cpp)] for k, x in exp["slots"].items()}
        if after["slots"] != ids:
            out.fail("identity", "%s: %s instead of %s" % (what, after["slots"], ids))
            return
    if q.status != 0 or lines[-2:] != ["done", ""]:
        out.fail("crash", "the interpreter ended with status %d: %r" % (q.status, q.stderr()[-300:]))


def shrink(sc):
    ops = sc["ops"]
    size = len(ops) // 2
    while size >= 1:
        for i in range(0, len(ops), size):
            c = copy.deepcopy(sc)
            del c["ops"][i:i + size]
            yield c
        size //= 2
    used = {o["fn"] for o in ops if "fn" in o}
    if any(f["uid"] not in used for f in sc["api"]["fns"]):
        c = copy.deepcopy(sc)
        c["api"]["fns"] = [f for f in c["api"]["fns"] if f["uid"] in used]
        yield c
    if sc["nout"] > 1:
        yield with_(sc, nout=1)
    if sc["toolsim"]:
        yield with_(sc, toolsim={})
    for s in shrink_sim(sc["sim"]):
        yield with_(sc, sim=s)
