"""C14: modules can be imported in any order and combination."""
import copy, json
from common import *
import impmod, pymod

PROPERTY = "C14"
LEVEL = "exploration"
PLAN = {"quick": (900, 120), "thorough": (60000, 5400)}
SETS = {"quick": 14, "thorough": 150}
RULE = ("A scenario is a set of 2-4 generated modules whose headers refer to each other's classes, nested classes, enums and template "
        "instances by aliases (in the module, a submodule, a class, a namespace; renamed, const, chained), by function parameters, results and "
        "- between modules that import each other by manual bindings (first thing, or in the middle of the aliases) - default arguments and variables, put through the real generator and "
        "compiler, and a random history of 4-16 operations in a simulated interpreter: imports under the warning filters always, default, "
        "ignore and error, repeated imports, modules dropped from sys.modules and imported again, modules that cannot be found for a while, "
        "garbage collections, calls. Every result is compared with the model of the type registry. Non-trivial: at least one alias "
        "was evaluated while its type was foreign; distinct by digest of (modules, history).")
REAL = ["genpybind-tool built from /repo", "clang++ 18, pybind11 2.11, CPython 3.12", "generated headers (test double of a user's library)"]
STUB = ["memory allocator of the interpreter", "clock, pid, random numbers"]
ASSUMPTIONS = ["after an import that failed, the types of that module may or may not stay registered until the end (CPython and pybind11 decide)",
               "default arguments and variables of a foreign type are used only if the module imports the other one by a manual binding"]


def scenario(rng, i, tier):
    k = i % SETS[tier]
    sp = impmod.spec(random.Random("imp/%s/%d/%d" % (tier, rng.batch, k)))
    n = len(sp["mods"])
    sc = {"spec": sp, "sim": engine.random_sim(rng), "toolsim": engine.random_sim(rng) if rng.random() < 0.3 else {}}
    flt = rng.choice([["always"], ["always"], ["always", "ignore"], ["always", "error"], ["always", "always", "error", "ignore", "default"]])
    ops = []
    for _ in range(rng.choice([4, 7, 10, 16])):
        do = rng.choices(["import", "forget", "gc", "call", "hide", "unhide"], [8, 1, 1, 5, 0.6, 0.6])[0]
        op = {"do": do, "m": rng.randrange(n)}
        if do == "import":
            op["filter"] = rng.choice(flt)
        if do == "call":
            op["fn"] = rng.randrange(4)
            op["r"] = rng.random()
        ops.append(op)
    sc["ops"] = ops
    return sc


def class_path(sp, j, t):
    """Where the module that defines the type shows it."""
    m, ty = sp["mods"][j], sp["mods"][j]["types"][t]
    pre = ["sub"] if m["ns"] == "module" else []
    if ty["kind"] == "nested":
        return pre + [ty["name"] + "Outer", ty["name"]]
    if ty["kind"] in ("template", "spec"):
        return pre + [ty["name"] + "Tpl_int_"]
    return pre + [ty["name"]]


def alias_path(i, a):
    return {"top": [], "own": [], "module": ["inner"], "struct": ["Holder%d" % i]}[a["where"]] + [a["name"]]


YES, NO, MAYBE = "yes", "no", "maybe"


class Registry:
    def __init__(self, sp):
        self.sp = sp
        n = len(sp["mods"])
        self.state = ["new"] * n       # new, loaded, failed
        self.present = [False] * n     # in sys.modules
        self.hidden = [False] * n
        self.bound = [False] * n       # the driver holds the module
        self.aliases = {}              # (i, k) -> class known to be there: YES, NO or MAYBE
        self.foreign = 0

    def known(self, j, t):
        if not impmod.registers(self.sp, j, t):
            return NO
        return {"new": NO, "loading": YES, "loaded": YES, "failed": MAYBE}[self.state[j]]

    def load(self, i, strict, exp):
        """-> True, False or None (either).  exp collects the warnings."""
        if self.present[i]:
            return True
        if self.hidden[i]:
            exp["missing_file"].append("m%d" % i)
            return False
        if self.state[i] == "loaded":          # the interpreter restores the module as it was
            self.present[i] = True
            return True
        if self.state[i] == "failed":
            return None
        self.state[i] = "loading"
        got = {}
        for what, x in impmod.sequence(self.sp, i):
            if what == "import":
                r = self.load(x, strict, exp)
                if not r:
                    self.state[i] = "failed"
                    return r
                continue
            a = self.sp["mods"][i]["aliases"][x]
            s = got[(i, x)] = self.known(a["mod"], a["type"])
            if a["mod"] != i:
                self.foreign += 1
            if s != YES:
                exp["sure" if s == NO else "perhaps"].append(impmod.display(self.sp, a["mod"], a["type"]))
                if strict:
                    # the aliases of other scopes may be evaluated in any order
                    for y, b in enumerate(self.sp["mods"][i]["aliases"]):
                        if b["where"] != "top" and self.known(b["mod"], b["type"]) != YES:
                            exp["perhaps"].append(impmod.display(self.sp, b["mod"], b["type"]))
                    self.state[i] = "failed"
                    return False if s == NO else None
        self.state[i] = "loaded"
        self.present[i] = True
        self.aliases.update(got)
        return True


def resolve(sc, out):
    """-> (driver operations, expectations, registry)"""
    sp = sc["spec"]
    reg = Registry(sp)
    ops, exps = [], []

    def add(op, **exp):
        ops.append(op)
        exps.append(exp)

    def look(i):
        """Compare all that module i shows."""
        for k, a in enumerate(sp["mods"][i]["aliases"]):
            s = reg.aliases.get((i, k), MAYBE)
            j = a["mod"]
            if s == YES and reg.bound[j]:
                add(["alias", "m%d" % i, alias_path(i, a), "m%d" % j, class_path(sp, j, a["type"])], none=False, same=True)
            elif s != MAYBE:
                add(["alias", "m%d" % i, alias_path(i, a), None, None], none=s == NO, same=None)
            else:
                add(["alias", "m%d" % i, alias_path(i, a), None, None], any=True)

    for op in sc["ops"]:
        i = op["m"]
        if op["do"] == "import":
            exp = {"sure": [], "perhaps": [], "missing_file": [], "filter": op["filter"]}
            was = list(reg.state)
            r = reg.load(i, op["filter"] == "error", exp)
            # (failing modules are not in sys.modules, whatever is loaded by them stays)
            exp["ok"] = r
            if r is None:
                reg.bound[i] = False
            add(["import", "m%d" % i, op["filter"]], **exp)
            out.stats["probe:import under filter %s" % op["filter"]] += 1
            out.stats["probe:import %s" % {True: "succeeds", False: "fails", None: "either"}[r]] += 1
            if r:
                reg.bound[i] = True
                out.stats["probe:alias of an unknown type"] += len(exp["sure"])
                look(i)
            if r is None:
                # the rest of the history cannot be predicted
                add(["gc"])
                break
        elif op["do"] == "forget":
            reg.present[i] = False
            add(["forget", "m%d" % i])
        elif op["do"] == "gc":
            add(["gc"])
        elif op["do"] in ("hide", "unhide"):
            reg.hidden[i] = op["do"] == "hide"
            add([op["do"], "m%d" % i])
            out.stats["fault:module file %s" % ("missing" if op["do"] == "hide" else "restored")] += 1
        elif op["do"] == "call":
            if not reg.bound[i]:
                continue
            fns = sp["mods"][i]["fns"]
            f = fns[op["fn"] % len(fns)]
            j, t = f["mod"], f["type"]
            ty = sp["mods"][j]["types"][t]
            en = "enum" in ty["kind"]
            k = impmod.effective(sp, i, f)
            s = reg.known(j, t)
            v = ty["v"]
            arg = ["m%d" % j, class_path(sp, j, t), v if en else None]
            exp = {}
            if k == "var":
                add(["var", "m%d" % i, [f["name"]]], value=v)
                continue
            if k == "take" or (k == "ptr" and op["r"] < 0.5) or (k == "default" and op["r"] < 0.3):
                if s == YES and reg.bound[j]:
                    add(["call", "m%d" % i, [f["name"]], [arg]], value=v)
                elif s == NO:
                    add(["call", "m%d" % i, [f["name"]], [None]], exc="TypeError")
            elif k == "ptr":
                if s == YES:
                    add(["call", "m%d" % i, [f["name"]], [None]], value=-1)
                elif s == NO:
                    add(["call", "m%d" % i, [f["name"]], [None]], exc="TypeError")
            elif k == "default":
                add(["call", "m%d" % i, [f["name"]], []], value=v)
            else:
                if s == YES:
                    add(["call", "m%d" % i, [f["name"]], []], value=v)
                elif s == NO:
                    add(["call", "m%d" % i, [f["name"]], []], exc="TypeError")
            if j != i:
                out.stats["probe:call with a foreign type (%s)" % s] += 1
    # whatever happened, modules look as they did
    for i in range(len(sp["mods"])):
        if reg.bound[i]:
            look(i)
    return ops, exps, reg


PREFIX, SUFFIX = "Reference to unknown type '", "'"


def texts(names):
    return sorted(PREFIX + n + SUFFIX for n in names)


def verify(out, ops, exps, lines, q):
    docs = [json.loads(l) for l in lines if l.startswith("{")]
    for n, (op, exp) in enumerate(zip(ops, exps)):
        what = "operation %d %s" % (n, op)
        if n >= len(docs):
            out.fail("crash", "the interpreter ended (status %d) in %s; %r" % (q.status, what, q.stderr()[-300:]))
            return
        d = docs[n]
        if op[0] == "import":
            exc = d.get("exc")
            warned = sorted(w[1] for w in d["warnings"])
            if any(w[0] != "Warning" for w in d["warnings"]):
                out.fail("wrong-warning", "%s: %s" % (what, d["warnings"]))
                return
            if exp["ok"] is True and exc:
                out.fail("import-fails", "%s: %s" % (what, exc))
                return
            if exp["ok"] is False:
                if not exc:
                    out.fail("import-succeeds", "%s: expected to fail because of %s" % (what, exp["missing_file"] or exp["sure"]))
                    return
                if not exp["missing_file"]:
                    if not any(k == "Warning" and m in texts(exp["sure"] + exp["perhaps"]) for k, m in exc):
                        out.fail("wrong-error", "%s: %s" % (what, exc))
                        return
                    if any(k not in ("ImportError", "Warning") for k, m in exc):
                        out.fail("wrong-error", "%s: %s" % (what, exc))
                        return
            if exc and not any(k in ("ImportError", "ModuleNotFoundError") for k, m in exc[:1]):
                out.fail("wrong-error", "%s: %s" % (what, exc))
                return
            if exp["ok"] is True:
                sure = texts(exp["sure"])
                if exp["filter"] == "always":
                    rest = list(warned)
                    for s in sure:
                        if s not in rest:
                            out.fail("missing-warning", "%s: %s, expected %s" % (what, warned, sure))
                            return
                        rest.remove(s)
                    if [x for x in rest if x not in texts(exp["perhaps"])]:
                        out.fail("extra-warning", "%s: %s, expected %s" % (what, warned, sure))
                        return
                elif exp["filter"] == "default":
                    if set(sure) - set(warned) or set(warned) - set(sure) - set(texts(exp["perhaps"])):
                        out.fail("wrong-warning", "%s: %s, expected %s" % (what, warned, sure))
                        return
                elif warned:
                    out.fail("extra-warning", "%s: %s" % (what, warned))
                    return
        elif op[0] == "alias":
            if exp.get("any"):
                continue
            if d.get("exc"):
                out.fail("alias-missing", "%s: %s" % (what, d["exc"]))
                return
            if d["none"] != exp["none"] or (exp["same"] and not d["same"]):
                out.fail("wrong-alias", "%s: %s, expected %s" % (what, d, exp))
                return
        elif op[0] in ("call", "var"):
            if "exc" in exp:
                if not d.get("exc") or d["exc"][0][0] != exp["exc"]:
                    out.fail("missing-error", "%s: %s" % (what, d))
                    return
            elif d.get("value") != exp["value"]:
                out.fail("wrong-result", "%s: %s, expected %s" % (what, d, exp["value"]))
                return
    if q.status != 0 or lines[-2:] != ["done", ""]:
        out.fail("crash", "the interpreter ended with status %d: %r" % (q.status, q.stderr()[-300:]))


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        sp = sc["spec"]
        os.makedirs(w.path("tmp/py"), exist_ok=True)
        os.makedirs(w.path("tmp/away"), exist_ok=True)
        n = len(sp["mods"])
        for j in range(n):
            w.write("src/t%d.h" % j, impmod.types_header(sp, j))
        srcs = [w.write("src/m%d.h" % i, impmod.header(sp, i)) for i in range(n)]
        for i in range(n):
            p = tool(ctx, out, w, "gen%d" % i, out_args(w, ["m%d.cpp" % i]) + [srcs[i]] + FLAGS, sim=sc["toolsim"])
            if p.status != 0:
                out.fail("rejected", "%r" % p.stderr()[-600:])
                return out
            try:
                pymod.compile_module("m%d" % i, {"m.cpp": w.read("out/m%d.cpp" % i)}, w.path("src"), w.path("tmp/py"))
            except pymod.CompileError as e:
                out.fail("does-not-compile", str(e)[-1500:])
                return out
        ops, exps, reg = resolve(sc, out)
        w.write("tmp/ops.json", json.dumps(ops))
        q = pymod.python(ctx, w, "py", [os.path.join(str(build.VERIF), "sim/impdrv.py"), w.path("tmp/py"), w.path("tmp/ops.json"), w.path("tmp/report"),
                                        w.path("tmp/away"), pymod.SUFFIX], sim=sc["sim"])
        record(out, w, q)
        verify(out, ops, exps, (w.read("tmp/report") or b"").decode().split("\n"), q)
        out.stats["operations"] += len(ops)
        if reg.foreign:
            out.marks.add(digest(sp, ops))
        out.sample = {"modules": [{"types": [t["name"] + " " + t["kind"] for t in m["types"]], "aliases": len(m["aliases"]), "imports": m["imports"]} for m in sp["mods"]],
                      "operations": ops[:8]}
    finally:
        w.close()
    return out


def shrink(sc):
    for c in shrink_list(sc, "ops"):
        yield c
    sp = sc["spec"]
    for i, m in enumerate(sp["mods"]):
        for key in ("aliases", "imports", "mids"):
            if m.get(key):
                c = copy.deepcopy(sc)
                c["spec"]["mods"][i][key] = []
                yield c
        for k in range(len(m["aliases"])):
            c = copy.deepcopy(sc)
            del c["spec"]["mods"][i]["aliases"][k]
            yield c
        if len(m["fns"]) > 1:
            c = copy.deepcopy(sc)
            c["spec"]["mods"][i]["fns"] = m["fns"][:1]
            yield c
    if sc["toolsim"]:
        yield with_(sc, toolsim={})
    for s in shrink_sim(sc["sim"]):
        yield with_(sc, sim=s)
