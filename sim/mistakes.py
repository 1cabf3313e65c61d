"""Composed mistakes: the kinds of mistakes that are rejected late, crossed with
the kinds of declarations they can stand on.

compose(seed) -> (text with %d for the number, may stand inside a class)"""
import random

PB = "namespace pybind11 { class args; class kwargs; }\n"


def host(rng, body, ctor=False, virtual=False, operator=False):
    """A class named Rm%d with these members, exposed in some way."""
    kinds = ["plain", "final", "template", "aliastemplate", "nested", "visiblens", "module", "alias", "derived", "spec", "extern",
             "deep", "virtualbase", "partial", "inlinens", "typedef"]
    if not ctor:
        kinds += ["inline", "inline", "inline2", "inlinetpl"]
    if not virtual:
        kinds += ["union"]
    k = rng.choice(kinds)
    pub = "public: " if rng.random() < 0.5 else "private: int priv_ = 0; public: "
    return {
        "plain": "struct GENPYBIND(visible) Rm%d { @ };\n",
        "final": "class GENPYBIND(visible) Rm%d final { " + pub + "@ };\n",
        "template": "template <typename T> struct Rm%d { @ };\ntemplate struct GENPYBIND(visible) Rm%d<int>;\n",
        "aliastemplate": "template <typename T> struct Rm%d { @ };\nusing RmA%d GENPYBIND(expose_here) = Rm%d<int>;\n",
        "nested": "struct GENPYBIND(visible) RmO%d { struct Rm%d { @ }; };\n",
        "deep": "struct GENPYBIND(visible) RmO%d { struct RmP%d { int x = 0; class GENPYBIND(visible) Rm%d { " + pub + "@ }; }; };\n",
        "visiblens": "namespace rmn%d GENPYBIND(visible) { struct Rm%d { @ }; }\n",
        "inlinens": "inline namespace rmn%d GENPYBIND(visible) { struct Rm%d { @ }; }\n",
        "module": "namespace rmn%d GENPYBIND(module) { struct GENPYBIND(visible) Rm%d { @ }; }\n",
        "alias": "struct Rm%d { @ };\nusing RmA%d GENPYBIND(expose_here) = Rm%d;\n",
        "typedef": "class Rm%d { " + pub + "@ };\ntypedef Rm%d RmA%d GENPYBIND(expose_here);\n",
        "derived": "struct RmB%d { virtual ~RmB%d(); int y = 0; };\nstruct GENPYBIND(visible) Rm%d : public RmB%d { @ };\n",
        "virtualbase": "struct GENPYBIND(visible) RmB%d { int y = 0; };\nstruct GENPYBIND(visible) Rm%d : public virtual RmB%d { @ };\n",
        "spec": "template <typename T> struct Rm%d;\ntemplate <> struct GENPYBIND(visible) Rm%d<int> { @ };\n",
        "partial": "template <typename T> struct Rm%d;\ntemplate <typename T> struct Rm%d<T *> { @ };\ntemplate struct GENPYBIND(visible) Rm%d<int *>;\n",
        "extern": "extern \"C++\" { struct GENPYBIND(visible) Rm%d { @ }; }\n",
        "union": "union GENPYBIND(visible) Rm%d { @ int un_; };\n",
        "inline": "struct Rm%d { @ };\nstruct GENPYBIND(visible, inline_base) RmD%d : public Rm%d {};\n",
        "inline2": "struct Rm%d { @ };\nstruct RmM%d : public Rm%d {};\nstruct GENPYBIND(visible, inline_base) RmD%d : public RmM%d { int y = 0; };\n",
        "inlinetpl": "template <typename T> struct Rm%d { @ };\nstruct GENPYBIND(visible, inline_base) RmD%d : public Rm%d<int> {};\n",
    }[k].replace("@", body), k in ("plain", "final", "nested", "deep", "alias", "typedef")


def getter(rng, prop, name, virtual_ok=True):
    props = [prop] + ["%s_%s%d" % (name, "x", i) for i in range(rng.choice([0, 0, 1, 2]))]
    rng.shuffle(props)
    props = ", ".join(p if rng.random() < 0.7 else '"%s"' % p for p in props)
    ann = "GENPYBIND(getter_for(%s)) " % props
    if rng.random() < 0.2:
        ann = "GENPYBIND(getter_for(%s), return_value_policy(copy)) " % props
    pre = rng.choice(["", "", "inline ", "[[nodiscard]] ", "virtual " if virtual_ok else ""])
    q = rng.choice(["", " const", " const", " const noexcept", " noexcept"])
    sig = rng.choice(["int @()", "auto @()$ -> int", "const int &@()", "unsigned long @()", "int *@()", "int @(int a = 1)", "bool @()"])
    if "$" not in sig:
        sig += "$"
    if pre.startswith("[["):
        ann, pre = pre + ann, ""
    return ann + pre + sig.replace("@", name).replace("$", q) + rng.choice([";", ";", " { static int v = 1; return %s; }" %
                                                                          ("&v" if "*" in sig else "v")]) + " ", "virtual" in pre


def setter(rng, prop, name, virtual_ok=True):
    props = prop if rng.random() < 0.7 else '"%s"' % prop
    pre = rng.choice(["", "", "inline ", "virtual " if virtual_ok else ""])
    q = rng.choice(["", "", " const", " noexcept"])
    sig = rng.choice(["void @(int a)", "void @(int)", "int @(const int &a)", "void @(int a = 3)", "void @(int a, int b = 2)",
                      "bool @(unsigned long a)", "auto @(bool a)$ -> void"])
    if "$" not in sig:
        sig += "$"
    return "GENPYBIND(setter_for(%s)) " % props + pre + sig.replace("@", name).replace("$", q) + "; ", "virtual" in pre


def properties(rng):
    vo = rng.random() < 0.5
    kind = rng.choice(["getters", "setters", "nogetter"])
    g = [getter(rng, "p", "g%d" % i, vo) for i in range(2)]
    s = [setter(rng, "p", "s%d" % i, vo) for i in range(2)]
    parts = {"getters": g, "setters": g[:1] + s, "nogetter": s[:1]}[kind]
    if kind == "getters" and rng.random() < 0.4:
        parts = parts + s[:1]
    filler = [("int m%d() const; " % i, False) for i in range(rng.choice([0, 1, 2]))]
    if rng.random() < 0.3:
        filler += [("GENPYBIND(getter_for(fine)) int gf() const; ", False), ("GENPYBIND(setter_for(fine)) void sf(int); ", False)]
    parts = parts + filler
    rng.shuffle(parts)
    return host(rng, "".join(p for p, _ in parts), virtual=any(v for _, v in parts))


def kwargs(rng):
    kw = rng.choice(["const pybind11::kwargs &", "pybind11::kwargs", "pybind11::kwargs &", "::pybind11::kwargs", "pybind11::kwargs &&",
                     "const pybind11::kwargs"])
    if rng.random() < 0.5:
        kw += " kw"
    pre = rng.choice(["", "int a, ", "const pybind11::args &, ", "int a, const pybind11::args &ar, ", "const char *, "])
    post = rng.choice(["int", "int b", "int b = 2", "const char *s", "const pybind11::args &, int c", "int b, int c = 3", "bool b = true",
                       "int b = 1, int c = 2", "double &d"])
    params = pre + kw + ", " + post
    k = rng.choice(["free", "free", "ns", "template", "method", "method", "static", "ctor", "ctor", "call", "virtual", "deduced"])
    if k == "free":
        return PB + "inline int rm%d(" + params + ") GENPYBIND(visible);\n", False
    if k == "ns":
        return PB + "namespace rmn%d GENPYBIND(visible) { void rm%d(" + params + "); }\n", False
    if k == "deduced":
        return PB + "GENPYBIND(visible) auto rm%d(" + params + ") -> int;\n", False
    if k == "template":
        return PB + "template <typename T> GENPYBIND(visible) int rm%d(" + params + ") { return 1; }\ntemplate int rm%d<int>(" + params.replace(" = 2", "").replace(
            " = 3", "").replace(" = true", "").replace(" = 1", "") + ");\n", False
    m = {"method": "int m(%s) const; ", "static": "static int m(%s); ", "ctor": "Rm%%d(%s); ", "call": "int operator()(%s); ",
         "virtual": "virtual int m(%s); "}[k] % params
    if rng.random() < 0.3 and k != "ctor":
        m = "GENPYBIND(visible) " + m
    if rng.random() < 0.3:
        m += "int fine() const; "
    text, _ = host(rng, m, ctor=k == "ctor", virtual=k == "virtual")
    return PB + text, False


def signature(rng):
    """Getters and setters with signatures they cannot have."""
    if rng.random() < 0.5:
        m = "GENPYBIND(getter_for(p)) " + rng.choice(["void g() const; ", "void g(); ", "int g(int a) const; ", "int g(int a, int b = 1); ",
                                                      "static void g(); ", "auto g() const -> void; "])
    else:
        m = "GENPYBIND(getter_for(p)) int g() const; GENPYBIND(setter_for(p)) " + rng.choice(
            ["void s(); ", "void s(int a, int b); ", "int s() const; ", "static void s(); ", "void s(int a, int b, int c = 1) const; "])
    return host(rng, m)


def parameter(rng):
    """Annotations that name a parameter that does not exist."""
    bad = rng.choice(["zz", "b", "A", "aa"])
    ann = rng.choice(["noconvert(%s)", "required(%s)", "noconvert(a, %s)", "required(%s, a)", "keep_alive(return, %s)", "keep_alive(%s, return)",
                      "keep_alive(a, %s)", "keep_alive(%s, a)"]) % bad
    if rng.random() < 0.3:
        ann = "return_value_policy(copy), " + ann
    k = rng.choice(["free", "ns", "method", "static", "ctor", "call", "virtual", "this", "thisstatic"])
    if k == "free":
        return "inline int *rm%d(int *a) GENPYBIND(" + ann + ");\n", True
    if k == "ns":
        return "namespace rmn%d { GENPYBIND(" + ann + ") int rm%d(int *a, int c = 1); }\n", False
    if k == "this":
        return "inline int *rm%d(int *a) GENPYBIND(" + rng.choice(["keep_alive(this, a)", "keep_alive(a, this)", "keep_alive(return, this)"]) + ");\n", False
    if k == "thisstatic":
        return host(rng, "GENPYBIND(" + rng.choice(["keep_alive(this, a)", "keep_alive(return, this)"]) + ") static int *m(int *a); ")
    m = {"method": "int *m(int *a) const; ", "static": "static int *m(int *a); ", "ctor": "Rm%d(int *a); ", "call": "int *operator()(int *a); ",
         "virtual": "virtual int *m(int *a, int c = 2); "}[k]
    return host(rng, "GENPYBIND(" + ann + ") " + m, ctor=k == "ctor", virtual=k == "virtual")


def namespaces(rng):
    """Reopened with other annotations."""
    anns = ["", "GENPYBIND(visible) ", "GENPYBIND(hidden) ", "GENPYBIND(module) ", "GENPYBIND(only_expose_in(\"rma\")) ",
            "GENPYBIND(expose_as(rmb)) ", "GENPYBIND(module(\"rmc\")) "]
    a, b = rng.sample(anns, 2)
    seq = [a] * rng.choice([1, 1, 2, 3]) + [b] * rng.choice([1, 1, 2])
    pre = rng.choice(["", "", "inline "])
    sep = rng.choice(["", "struct RmS%d {};\n", "namespace rmo%d { struct Q {}; }\n"])
    body = rng.choice(["struct GENPYBIND(visible) R@ {};", "struct R@ {}; GENPYBIND(visible) int g@();", "enum class GENPYBIND(visible) E@ { a };",
                       "namespace in@ { struct GENPYBIND(visible) Q {}; }", "GENPYBIND(visible) extern int v@;"])
    text = ""
    for i, x in enumerate(seq):
        piece = pre + "namespace rmn%d " + x + "{ " + body.replace("@", str(i)) + " }\n"
        how = rng.random()
        if how < 0.15:
            piece = "extern \"C++\" { " + piece + "}\n"
        text += piece + (sep if i == 0 else "")
    if rng.random() < 0.3:
        text = "".join("namespace rmp%d { " + x + " }\n" for x in [text])
    return text, False


def moved(rng):
    """One type exposed in two places."""
    decl, ref = rng.choice([("struct RmT%d { int x = 0; };", "RmT%d"), ("class RmT%d {};", "RmT%d"), ("union RmT%d { int a; float b; };", "RmT%d"),
                            ("enum RmT%d { rme%d };", "RmT%d"), ("enum class RmT%d : char { a };", "RmT%d"),
                            ("template <typename T> struct RmT%d { T x; };", "RmT%d<int>"),
                            ("template <typename T, int N = 3> struct RmT%d { T x; };", "RmT%d<int, 3>"),
                            ("struct RmU%d { struct In { int y; }; };", "RmU%d::In"), ("struct RmU%d { enum class In { a }; };", "RmU%d::In"),
                            ("namespace rmu%d { struct In {}; }", "rmu%d::In"),
                            ("struct RmU%d {}; using RmT%d = RmU%d;", "RmT%d"), ("typedef struct { int x; } RmT%d;", "RmT%d")])
    ann = lambda: rng.choice(["expose_here", "expose_here", "expose_here, visible", "expose_here, expose_as(moved%d)"])
    def alias(i):
        r = ref
        if rng.random() < 0.2:
            r = rng.choice(["const %s", "::%s", "volatile %s"]).replace("%s", ref)
        n = "RmA%d_" + str(i)
        if rng.random() < 0.5:
            return "using %s GENPYBIND(%s) = %s;" % (n.replace("%", "%%"), ann().replace("%", "%%"), r.replace("%", "%%")) % ()
        return "typedef %s %s GENPYBIND(%s);" % (r.replace("%", "%%"), n.replace("%", "%%"), ann().replace("%", "%%")) % ()
    text = decl + "\n"
    places = ["@\n", "namespace rmp%d_& { @ }\n", "namespace rmp%d_& GENPYBIND(module) { @ }\n", "struct GENPYBIND(visible) RmP%d_& { @ };\n",
              "namespace rmp%d_& GENPYBIND(visible) { struct H { @ }; }\n", "struct GENPYBIND(visible) RmP%d_& { struct H { @ }; };\n"]
    for i in range(rng.choice([2, 2, 2, 3])):
        text += rng.choice(places).replace("@", alias(i)).replace("&", str(i))
    return text, False


def spelling(rng):
    bad = rng.choice(["a b", "1x", "", "x-y", "a.b", "q!", "+"])
    k = rng.choice(["class", "method", "free", "getter", "enum", "value", "field", "var", "alias", "ns", "setter"])
    e = "GENPYBIND(expose_as(\"%s\"))" % bad
    return {
        "class": ("struct " + e + " Rm%d {};\n", True),
        "free": ("inline int rm%d(int a) " + e + ";\n", True),
        "enum": ("enum class " + e + " Rm%d { a };\n", True),
        "value": ("enum class GENPYBIND(visible) Rm%d { a " + e + ", b };\n", True),
        "var": ("extern int rm%d " + e + ";\n", False),
        "alias": ("struct RmT%d {}; using RmA%d GENPYBIND(encourage, expose_as(\"" + bad + "\")) = RmT%d;\n", True),
        "ns": ("namespace rmn%d GENPYBIND(module(\"" + bad + "\")) { struct GENPYBIND(visible) Q {}; }\n", False),
        "method": None, "getter": None, "setter": None, "field": None,
    }[k] or host(rng, {"method": e + " int m(int a) const; ", "field": e + " int f; ",
                       "getter": "GENPYBIND(getter_for(\"" + bad + "\")) int g() const; ",
                       "setter": "GENPYBIND(getter_for(p)) int g() const; GENPYBIND(setter_for(p, \"" + bad + "\")) void s(int); "}[k])


KINDS = [properties, properties, properties, kwargs, kwargs, signature, parameter, namespaces, namespaces, moved, moved, spelling]


def compose(seed):
    rng = random.Random("composed/%s" % seed)
    return rng.choice(KINDS)(rng)
