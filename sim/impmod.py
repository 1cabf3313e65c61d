"""Sets of modules that refer to each other's types, and what importing them promises."""

# kinds of type: (declaration with %s name, constructible)
TYPES = {
    "struct": "struct GENPYBIND(visible) %s { int v = %d; int get() const { return v; } };\n",
    "enum": "enum class GENPYBIND(visible) %s { a, b = %d };\n",
    "plainenum": "enum GENPYBIND(visible) %s { %s_a, %s_b = %d };\n",
    "nested": "struct GENPYBIND(visible) %sOuter { struct %s { int v = %d; int get() const { return v; } }; };\n",
    "template": "template <typename T> struct %sTpl { T v = %d; int get() const { return v; } };\nusing %s GENPYBIND(encourage) = %sTpl<int>;\n",
    "final": "struct GENPYBIND(visible) %s final { int v = %d; int get() const { return v; } };\n",
    "dynamic": "class GENPYBIND(visible, dynamic_attr) %s { public: int v = %d; int get() const { return v; } };\n",
    "shared": "struct GENPYBIND(visible, holder_type(\"std::shared_ptr<::n%d::%s>\")) %s { int v = %d; int get() const { return v; } };\n",
    "derived": "struct GENPYBIND(visible) %sBase { int v = %d; virtual int get() const { return v; } virtual ~%sBase() = default; };\nstruct GENPYBIND(visible) %s : public %sBase { int get() const override { return v; } };\n",
    "inlined": "struct %sBase { int v = %d; int get() const { return v; } };\nstruct GENPYBIND(visible, inline_base(\"%sBase\")) %s : public %sBase {};\n",
    "arithenum": "enum GENPYBIND(visible, arithmetic, export_values) %s { %s_a, %s_b = %d };\n",
    "shortenum": "enum class GENPYBIND(visible, arithmetic) %s : short { a, b = %d };\n",
    "declared": "struct %s;\nstruct GENPYBIND(visible) %s { int v = %d; int get() const { return v; } };\nstruct %s;\n",
    "spec": "template <typename T> struct %sTpl;\ntemplate <> struct GENPYBIND(visible) %sTpl<int> { int v = %d; int get() const { return v; } };\nusing %s GENPYBIND(encourage) = %sTpl<int>;\n",
    "hiddenstruct": "struct GENPYBIND(hidden) %s { int v = %d; int get() const { return v; } };\n",
}


def spec(rng):
    n = rng.choice([2, 3, 3, 4])
    mods = []
    for i in range(n):
        types = []
        for t in range(rng.choice([1, 2, 3])):
            kind = rng.choice(["struct", "struct", "struct", "enum", "plainenum", "nested", "template", "hiddenstruct"] + list(TYPES))
            types.append({"name": "T%d%s" % (t, "abcd"[i]), "kind": kind, "v": rng.randrange(1, 90)})
        mods.append({"types": types, "aliases": [], "fns": [], "imports": [], "ns": rng.choice(["visible", "plain", "module"])})
    for i, m in enumerate(mods):
        # top-level imports: acyclic
        m["imports"] = [j for j in range(n) if j < i and rng.random() < 0.25]
        for a in range(rng.choice([0, 1, 2, 3, 5])):
            j = rng.randrange(n)
            t = rng.randrange(len(mods[j]["types"]))
            m["aliases"].append({"name": "al%d" % a, "mod": j, "type": t, "where": rng.choice(["top", "top", "module", "struct", "own"]),
                                 "form": rng.choice(["using", "using", "typedef", "renamed", "const", "twice"])})
        # further imports between the aliases of the module itself: (number of aliases before, module)
        m["mids"] = sorted([rng.randrange(1, 4), j] for j in range(i) if rng.random() < 0.35)
        if i and rng.random() < 0.5:   # the same type before and after an import of its module
            j = rng.randrange(i)
            al = {"mod": j, "type": rng.randrange(len(mods[j]["types"])), "where": "top"}
            m["aliases"].insert(0, dict(al, name="before", form=rng.choice(["using", "typedef", "renamed"])))
            m["aliases"].append(dict(al, name="after", form=rng.choice(["using", "const", "twice"]), where=rng.choice(["top", "module"])))
            m["imports"] = [x for x in m["imports"] if x != j]
            m["mids"] = sorted([[1, j]] + [x for x in m["mids"] if x[1] != j])
        for k in range(rng.choice([1, 2, 3])):
            j = rng.randrange(n)
            t = rng.randrange(len(mods[j]["types"]))
            m["fns"].append({"name": "fn%d" % k, "mod": j, "type": t, "kind": rng.choice(["take", "give", "ptr", "default", "var"])})
    return {"mods": mods}


def qualified(sp, j, t, i=None):
    ty = sp["mods"][j]["types"][t]
    return "n%d::%s" % (j, ("%sOuter::%s" % (ty["name"], ty["name"])) if ty["kind"] == "nested" else ty["name"])


def display(sp, j, t):
    """The name in the warning."""
    ty = sp["mods"][j]["types"][t]
    if ty["kind"] in ("template", "spec"):
        return "n%d::%sTpl<int>" % (j, ty["name"])
    return qualified(sp, j, t)


def types_header(sp, j):
    m = sp["mods"][j]
    ann = {"visible": "visible, ", "plain": "", "module": "module(sub), "}[m["ns"]]
    out = "#pragma once\n#include <genpybind/genpybind.h>\n#include <memory>\nnamespace n%d GENPYBIND(%sonly_expose_in(m%d)) {\n" % (j, ann, j)
    for ty in m["types"]:
        n, v = ty["name"], ty["v"]
        args = {"struct": (n, v), "enum": (n, v), "plainenum": (n, n, n, v), "nested": (n, n, v), "template": (n, v, n, n), "hiddenstruct": (n, v),
                "final": (n, v), "dynamic": (n, v), "shared": (j, n, n, v), "derived": (n, v, n, n, n), "inlined": (n, v, n, n, n),
                "arithenum": (n, n, n, v), "shortenum": (n, v), "declared": (n, n, v, n), "spec": (n, n, v, n, n)}[ty["kind"]]
        out += TYPES[ty["kind"]] % args
    return out + "} // namespace\n"


def dependencies(sp, i):
    """Modules imported (transitively) by the manual bindings of i."""
    seen, todo = [], list(sp["mods"][i]["imports"])
    while todo:
        j = todo.pop()
        if j not in seen:
            seen.append(j)
            todo += sp["mods"][j]["imports"]
    return seen


def registers(sp, j, t):
    return sp["mods"][j]["types"][t]["kind"] != "hiddenstruct"


def effective(sp, i, f):
    """Default arguments and variables need the type at import time."""
    if f["kind"] in ("default", "var") and not ((f["mod"] == i or f["mod"] in dependencies(sp, i)) and registers(sp, f["mod"], f["type"])):
        return "take"
    return f["kind"]


def sequence(sp, i):
    """What loading module i does, in order: ("import", module) and ("alias", index)."""
    m = sp["mods"][i]
    seq = [("import", j) for j in m["imports"]]
    mids = list(m.get("mids", []))
    top = [k for k, a in enumerate(m["aliases"]) if a["where"] == "top"]
    for n, k in enumerate(top):
        seq += [("import", j) for pos, j in mids if pos == n]
        mids = [x for x in mids if x[0] != n]
        seq.append(("alias", k))
    seq += [("import", j) for pos, j in mids]
    return seq + [("alias", k) for k, a in enumerate(m["aliases"]) if a["where"] != "top"]


def header(sp, i):
    m = sp["mods"][i]
    out = "#pragma once\n#include <genpybind/genpybind.h>\n" + "".join("#include \"t%d.h\"\n" % j for j in range(len(sp["mods"])))
    groups = {"top": [], "module": [], "struct": [], "own": []}
    texts = []
    for a in m["aliases"]:
        q = "::" + qualified(sp, a["mod"], a["type"])
        n = a["name"]
        if a["form"] == "typedef":
            text = "typedef %s %s GENPYBIND(visible);\n" % (q, n)
        elif a["form"] == "renamed":
            text = "using hid_%s GENPYBIND(visible, expose_as(%s)) = %s;\n" % (n, n, q)
        elif a["form"] == "const":
            text = "using %s GENPYBIND(visible) = const %s;\n" % (n, q)
        elif a["form"] == "twice":
            text = "using in_%s = %s;\nusing %s GENPYBIND(visible) = in_%s;\n" % (n, q, n, n)
        else:
            text = "using %s GENPYBIND(visible) = %s;\n" % (n, q)
        groups[a["where"]].append(text)
        texts.append(text)
    for what, x in sequence(sp, i):
        if what == "import":
            out += "GENPYBIND_MANUAL({ parent.import(\"m%d\"); })\n" % x
        elif m["aliases"][x]["where"] == "top":
            out += texts[x]
    if groups["module"]:
        out += "namespace inner%d GENPYBIND(module(inner)) {\n%s}\n" % (i, "".join(groups["module"]))
    if groups["struct"]:
        out += "struct GENPYBIND(visible) Holder%d {\n%s};\n" % (i, "".join(groups["struct"]))
    if groups["own"]:
        out += "namespace own%d GENPYBIND(visible, only_expose_in(m%d)) {\n%s}\n" % (i, i, "".join(groups["own"]))
    out += "namespace f%d GENPYBIND(visible) {\n" % i
    for f in m["fns"]:
        q = "::" + qualified(sp, f["mod"], f["type"])
        ty = sp["mods"][f["mod"]]["types"][f["type"]]
        en = "enum" in ty["kind"]
        k = effective(sp, i, f)
        mk = "static_cast<%s>(%d)" % (q, ty["v"]) if en else q + "()"
        val = "static_cast<int>(x)" if en else "x.get()"
        if k == "take":
            out += "inline int %s(%s x) { return %s; }\n" % (f["name"], q if en else "const %s &" % q, val)
        elif k == "give":
            out += "inline %s %s() { return %s; }\n" % (q, f["name"], mk)
        elif k == "ptr":
            out += "inline int %s(%s *x) { return x ? %s : -1; }\n" % (f["name"], q, val.replace("(x)", "(*x)").replace("x.", "x->"))
        elif k == "default":
            out += "inline int %s(%s x = %s) { return %s; }\n" % (f["name"], q, mk, val)
        else:
            out += "inline %s %s = %s;\n" % (q, f["name"], mk)
    return out + "} // namespace\n"
