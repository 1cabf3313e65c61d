"""Generated APIs with object-lifetime annotations, and the model of what they promise."""
import copy, random, re

PRELUDE = """#pragma once
#include <genpybind/genpybind.h>
#include <memory>
#include <set>
#include <vector>
namespace track {
struct State { std::set<int> live; int next = 0; int errors = 0; std::shared_ptr<void> vault[4]; };
inline State &st() { static State *s = new State; return *s; }
struct Base {
  int id; unsigned canary = 0xC0FFEE;
  Base() { id = ++st().next; st().live.insert(id); }
  Base(const Base &) : Base() {}
  Base &operator=(const Base &) { return *this; }
  ~Base() { if (canary != 0xC0FFEE || !st().live.erase(id)) st().errors++; canary = 0xDEAD; }
  int check() const { if (canary != 0xC0FFEE || !st().live.count(id)) { st().errors++; return -1; } return id; }
};
struct Keep { template <typename Z> void operator()(Z *) const {} };
} // namespace track
GENPYBIND(visible) inline int live_count() { return (int)track::st().live.size(); }
GENPYBIND(visible) inline int live_at(int n) { auto it = track::st().live.begin(); while (n-- > 0) ++it; return *it; }
GENPYBIND(visible) inline int errors() { return track::st().errors; }
"""

TYPES = ["P", "Q", "N", "D", "X", "T", "R", "S", "V", "W", "M"]
CPP = {"T": "Tp<int>", "R": "Outer::R"}  # C++ spelling
PY = {"R": "Outer.R"}
SHARED = {"Q", "R", "M"}      # held by std::shared_ptr
IMMORTAL = {"S"}         # its holder never destroys the object
# classes accepted where a parameter of that type is expected
ACCEPTS = {"P": ["P", "D"], "Q": ["Q", "M"], "V": ["V", "W"], "W": ["W"], "M": ["M"], "N": ["N"], "D": ["D"], "X": ["X"], "T": ["T"], "R": ["R"], "S": ["S"]}
DERIVED = {"P": ["D"], "Q": ["M"], "V": ["W"]}
HAS_MEMBER = {"N"}      # owns a sub-object of class P


def spec(rng):
    """A random API as a JSON value."""
    fns = []
    n = rng.randrange(16, 27)
    kinds = ["ctor", "method", "static", "free", "call", "mixin", "nsfree", "tfree", "used", "conv", "virt", "virt", "copy"]
    for i in range(n):
        kind = kinds[i] if i < len(kinds) else rng.choice(kinds)
        f = {"kind": kind, "cls": None, "rvp": None}
        if kind in ("ctor", "method", "static", "call", "conv"):
            f["cls"] = rng.choice(["P", "N", "N", "Q", "D", "X", "T", "T", "R", "R", "S", "V", "W", "M", "M"])
        if kind == "copy":
            f["cls"] = rng.choice(TYPES)
        if kind == "virt":
            f["cls"] = "V"
        if kind in ("mixin", "used"):
            f["cls"] = "X"
        np_ = rng.choice([0, 1, 1, 2, 3, 4]) if kind not in ("ctor", "free", "nsfree", "tfree") else rng.choice([1, 1, 2, 3, 4, 6])
        if kind in ("conv", "copy"):
            f["kind"], np_ = "ctor", 1
        names = rng.sample(["alpha", "beta", "gamma", "delta", "eps", "zeta"], np_)
        params = []
        for a in names:
            t = rng.choice(["P", "P", "N", "Q", "X", "D", "T", "int", "R", "S", "V", "W", "M"] if kind != "conv" else [x for x in TYPES if x != f["cls"] and {x, f["cls"]} not in ({"P", "D"}, {"Q", "M"}, {"V", "W"})])
            form = rng.choice(["*", "*", "&", "c&"]) if t not in ("int",) else "v"
            if t in SHARED and rng.random() < 0.4:
                form = "sp"
            if kind == "copy":
                t, form = f["cls"], "c&"
            params.append({"name": a, "type": t, "form": form})
        # trailing default: may be left out
        if params and params[-1]["form"] == "*" and rng.random() < 0.3:
            params[-1]["default"] = True
        f["params"] = params
        ret = ["void"]
        if kind not in ("ctor", "conv", "copy"):
            c = rng.random()
            same = [p["name"] for p in params if p["form"] == "*" and p["type"] not in DERIVED]
            if c < 0.34:
                ret = ["new", rng.choice(TYPES)]
            elif c < 0.4:
                ret = ["newref", rng.choice(TYPES)]
                f["rvp"] = "take_ownership"
            elif c < 0.5:
                ret = ["byval", rng.choice(["P", "N", "D"])]
            elif c < 0.6 and same:
                ret = ["param", rng.choice(same)]
            elif c < 0.75 and kind in ("method", "call") and f["cls"] == "N":
                ret = ["member"]
                f["rvp"] = rng.choice(["reference_internal", "reference_internal", "copy", "move", None])
                f["byptr"] = f["rvp"] is not None and rng.random() < 0.5
            elif c < 0.85:
                ret = ["global", rng.choice(["P", "N"])]
                f["byptr"] = rng.random() < 0.5
                f["rvp"] = rng.choice(["reference", "reference", "copy", "move", "automatic_reference", "automatic_reference" if f["byptr"] else "automatic"]
                                      + (["reference_internal"] * 2 if kind in ("method", "call", "mixin", "used", "virt") else []))
        if ret[0] == "new" and rng.random() < 0.3:
            f["rvp"] = rng.choice(["take_ownership", "automatic"] + (["reference", "automatic_reference"] if ret[1] not in SHARED else []))
        f["ret"] = ret
        objs = [p["name"] for p in params if p["type"] != "int"]
        ends = list(objs)
        if kind in ("ctor", "conv", "copy", "method", "call", "mixin", "used", "virt"):
            ends.append("this")
        if ret[0] != "void":
            ends.append("return")
        ka = []
        if len(ends) >= 2:
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                a, b = rng.sample(ends, 2)
                if [a, b] not in ka and [b, a] not in ka:
                    ka.append([a, b])
        f["ka"] = ka
        f["name"] = f["uid"] = f["cpp"] = "f%d" % i
        if kind == "call":
            f["name"] = "__call__"
        elif kind not in ("ctor", "conv", "copy") and rng.random() < 0.2:
            f["name"] = "py_f%d" % i
        f["extra"] = []
        some = [p for p in params if not p.get("default") and rng.random() < 0.5]
        if some and rng.random() < 0.3:
            f["extra"].append("noconvert(%s)" % ", ".join(p["name"] for p in some))
            for p in some:
                p["nonone"] = True        # pybind11 takes None for a pointer only when it may convert
        if kind == "conv":
            f["extra"].append("implicit_conversion")
            if rng.random() < 0.7:
                f["ka"] = [["this", params[0]["name"]]]
        if kind == "copy":
            f["copy"] = True
            if rng.random() < 0.7:
                f["ka"] = [rng.choice([["this", params[0]["name"]], [params[0]["name"], "this"]])]
        refs = [p["name"] for p in params if p["form"] in ("&", "c&")]
        if refs and rng.random() < 0.2:
            f["extra"].append("required(%s)" % rng.choice(refs))
        f["mix"] = rng.random()
        f["rename"] = rng.random() < 0.4          # the definition names its parameters otherwise
        fns.append(f)
        if kind == "virt" and rng.random() < 0.75:
            # overridden in W, with annotations of its own
            g = copy.deepcopy(f)
            g.update({"kind": "over", "cls": "W", "uid": "o%d" % i, "mix": rng.random(), "rename": rng.random() < 0.4, "extra": []})
            for p in g["params"]:
                p.pop("nonone", None)
            g["ka"] = [list(rng.sample(ends, 2))] if len(ends) > 1 and rng.random() < 0.8 else []
            if ret[0] == "global":
                g["rvp"] = rng.choice(["reference", "copy", "move", "reference_internal"])
            f["overridden"] = True
            fns.append(g)
    # only one call operator and one constructor per class and number of parameters
    seen, res = set(), []
    for f in fns:
        if f["kind"] in ("ctor", "call"):
            lo = len(f["params"]) - (1 if f["params"] and f["params"][-1].get("default") else 0)
            keys = {(f["kind"], f["cls"], k) for k in range(lo, len(f["params"]) + 1)}
            # the copy constructor takes one argument, the default constructor none
            if keys & seen or (f["kind"] == "ctor" and not f.get("copy") and any(k[2] in (0, 1) and f["params"] and f["params"][0]["type"] != "int"
                                                          and (f["cls"] in ACCEPTS[f["params"][0]["type"]] or f["params"][0]["type"] in ACCEPTS[f["cls"]]) or k[2] == 0 for k in keys)):
                continue
            if f["kind"] == "ctor" and len(f["params"]) == 1 and f["params"][0]["form"] == "*" and f["cls"] == f["params"][0]["type"] and not f.get("copy"):
                continue
            seen |= keys
        # overloads of one name by the number of parameters
        if f["kind"] in ("method", "static", "free") and f["name"] == f["cpp"] and rng.random() < 0.5:
            lo = len(f["params"]) - (1 if f["params"] and f["params"][-1].get("default") else 0)
            for g in res:
                glo = len(g["params"]) - (1 if g["params"] and g["params"][-1].get("default") else 0)
                if g["kind"] == f["kind"] and g["cls"] == f["cls"] and g["name"] == g["uid"] and not g.get("overloaded") \
                        and (lo > len(g["params"]) or len(f["params"]) < glo) and not (set(x["name"] for x in g["params"]) & set(x["name"] for x in f["params"])):
                    f["name"] = f["cpp"] = g["name"]
                    f["overloaded"] = g["overloaded"] = True
                    break
        res.append(f)
    return {"fns": res, "dyn": sorted(rng.sample(TYPES, 2)), "order": rng.random() < 0.5}


def _ptext(p):
    t = CPP.get(p["type"], p["type"])
    if t == "int":
        return "int " + p["name"]
    base = {"*": "%s *%s", "&": "%s &%s", "c&": "const %s &%s", "sp": "std::shared_ptr<%s> %s"}[p["form"]] % (t, p["name"])
    return base + (" = nullptr" if p.get("default") else "")


def _ann(f):
    a = ["keep_alive(%s, %s)" % tuple(('"return"' if x == "return" and len(f["name"]) % 2 else x) for x in k) for k in f["ka"]]
    if f["rvp"]:
        a.append("return_value_policy(%s)" % f["rvp"])
    a += f["extra"]
    if f["name"] not in (f["cpp"], "__call__"):
        a.append("expose_as(%s)" % f["name"])
    random.Random(repr(f["mix"])).shuffle(a)
    if not a or f["kind"] in ("free", "nsfree", "tfree"):
        a.insert(0, "visible")
    return "GENPYBIND(%s)" % ", ".join(a)


def _ret(f):
    r = f["ret"]
    types = {p["name"]: CPP.get(p["type"], p["type"]) for p in f["params"]}
    t = CPP.get(r[-1], r[-1])
    if r[0] == "void":
        return "void", ""
    if r[0] == "new":
        return t + " *", "return new %s();" % t
    if r[0] == "newref":
        return t + " &", "return *new %s();" % t
    if r[0] == "byval":
        return t, "return %s();" % t
    if r[0] == "param":
        return types[r[1]] + " *", "return %s;" % r[1]
    if r[0] == "member":
        return ("P *", "return &member;") if f.get("byptr") else ("P &", "return member;")
    return (t + " *", "return &global_%s();" % r[1]) if f.get("byptr") else (t + " &", "return global_%s();" % r[1])


def _decl(f):
    rt, body = _ret(f)
    ps = ", ".join(_ptext(p) for p in f["params"])
    touch = "".join(" %s.check();" % p["name"] if p["form"] in ("&", "c&") else
                    " if (%s) %s->check();" % (p["name"], p["name"]) for p in f["params"] if p["type"] != "int")
    if f["kind"] == "tfree":
        text = "template <int I> %s %s %s(%s) {%s %s }\n" % (_ann(f), rt, f["cpp"], ps, touch, body)
        return text + "template %s %s<3>(%s);\n" % (rt, f["cpp"], ps.replace(" = nullptr", "")), ""
    # as written in the definition
    dps, dtouch, dbody = ps.replace(" = nullptr", ""), touch, body
    if f["rename"]:
        # (a name used by an annotation has to be the same in all declarations)
        used = {x for k in f["ka"] for x in k} | set(re.findall(r"\w+", " ".join(f["extra"])))
        for p in f["params"]:
            if p["name"] in used:
                continue
            dps, dtouch, dbody = [re.sub(r"\b%s\b" % p["name"], "d_" + p["name"], x) for x in (dps, dtouch, dbody)]
    if f["kind"] in ("free", "nsfree"):
        if f["rename"]:
            text = "%s %s %s(%s);\ninline %s %s(%s) {%s %s }\n" % (_ann(f), rt, f["cpp"], ps, rt, f["cpp"], dps, dtouch, dbody)
        else:
            text = "%s inline %s %s(%s) {%s %s }\n" % (_ann(f), rt, f["cpp"], ps, touch, body)
        if f["kind"] == "nsfree":
            text = "namespace sub GENPYBIND(visible) {\n%s}\n" % text
        return text, ""
    owner = {"mixin": "Mix", "used": "Low"}.get(f["kind"], f["cls"])
    tpl = "template <typename Z> " if owner == "T" else ""
    name = "operator()" if f["kind"] == "call" else f["cpp"]
    inner = owner
    if owner == "T":
        owner, inner = "Tp<Z>", "Tp"
    if owner == "R":
        owner = "Outer::R"
    if f["kind"] == "ctor":
        return "%s %s(%s);\n" % (_ann(f), inner, ps), "%sinline %s::%s(%s) {%s }\n" % (tpl, owner, inner, dps, dtouch)
    return "%s %s%s %s(%s)%s;\n" % (_ann(f), {"static": "static ", "virt": "virtual "}.get(f["kind"], ""), rt, name, ps, " override" if f["kind"] == "over" else ""), \
        "%sinline %s %s::%s(%s) {%s %s }\n" % (tpl, rt, owner, name, dps, dtouch, dbody)


def header(sp):
    out = PRELUDE
    decl = {t: "" for t in TYPES + ["Mix", "Low"]}
    defs, free = "", ""
    for f in sp["fns"]:
        d, b = _decl(f)
        if f["kind"] in ("free", "nsfree", "tfree"):
            free += d
        else:
            decl[{"mixin": "Mix", "used": "Low"}.get(f["kind"], f["cls"])] += "  " + d
            defs += b
    out += "struct P; struct Q; struct N; struct D; struct X; template <typename Z> struct Tp; struct S; struct V; struct W; struct M; struct GENPYBIND(visible) Outer { struct R; };\n"
    out += "P &global_P();\nN &global_N();\n"
    dyn = lambda t: ", dynamic_attr" if t in sp["dyn"] else ""
    oid = "  int oid() const { return check(); }\n"
    out += "struct GENPYBIND(visible%s) P : public track::Base {\n  P() = default;\n%s%s};\n" % (dyn("P"), oid, decl["P"])
    out += "struct GENPYBIND(visible, holder_type(\"std::shared_ptr<Q>\")%s) Q : public track::Base {\n  Q() = default;\n%s%s};\n" % (dyn("Q"), oid, decl["Q"])
    out += "struct GENPYBIND(visible, holder_type(\"std::shared_ptr<Outer::R>\")%s) Outer::R : public track::Base {\n  R() = default;\n%s%s};\n" % (dyn("R"), oid, decl["R"])
    out += "struct GENPYBIND(visible, holder_type(\"std::unique_ptr<S, track::Keep>\")%s) S : public track::Base {\n  S() = default;\n%s%s};\n" % (dyn("S"), oid, decl["S"])
    out += "struct GENPYBIND(visible%s) D : public P {\n  D() = default;\n%s};\n" % (dyn("D"), decl["D"])
    out += "struct GENPYBIND(visible%s) V : public track::Base {\n  V() = default;\n%s  virtual ~V() = default;\n%s};\n" % (dyn("V"), oid, decl["V"])
    out += "struct GENPYBIND(visible%s) W : public V {\n  W() = default;\n%s};\n" % (dyn("W"), decl["W"])
    out += "struct GENPYBIND(visible, holder_type(\"std::shared_ptr<Z>\")) Z { Z() = default; int z = 0; };\n"
    out += "struct GENPYBIND(visible, holder_type(\"std::shared_ptr<M>\")%s) M : public %s {\n  M() = default;\n%s};\n" % (
        dyn("M"), "Q, public Z" if sp["order"] else "Z, public Q", decl["M"])
    out += "struct GENPYBIND(visible%s) N : public track::Base {\n  N() = default;\n  GENPYBIND(readonly) P member;\n  int moid() const { return member.check(); }\n%s%s};\n" % (dyn("N"), oid, decl["N"])
    out += "struct Mix {\n%s};\nstruct Low {\n%s};\n" % (decl["Mix"], decl["Low"])
    out += "struct GENPYBIND(visible, inline_base(\"Mix\")%s) X : public track::Base, public Mix, public Low {\n  X() = default;\n%s%s%s};\n" % (
        dyn("X"), oid, decl["X"], "".join("  using Low::%s;\n" % f["cpp"] for f in sp["fns"] if f["kind"] == "used"))
    out += "template <typename Z> struct GENPYBIND(visible%s) Tp : public track::Base {\n  Tp() = default;\n%s%s};\n" % (dyn("T"), oid, decl["T"])
    out += "using T GENPYBIND(expose_here) = Tp<int>;\n"
    out += "inline P &global_P() { static P *p = new P; return *p; }\ninline N &global_N() { static N *p = new N; return *p; }\n"
    out += "GENPYBIND(visible) inline void init_globals() { global_P(); global_N(); }\n"
    out += "GENPYBIND(visible) inline void vault_put(int k, std::shared_ptr<Q> q) { track::st().vault[k] = q; }\n"
    out += "GENPYBIND(visible) inline std::shared_ptr<Q> vault_get(int k) { return std::static_pointer_cast<Q>(track::st().vault[k]); }\n"
    out += "GENPYBIND(visible) inline void vault_clear(int k) { track::st().vault[k].reset(); }\n"
    if sp["order"]:
        return out + free + defs
    return out + defs + free


# ------------------------------------------------------------------ the model
class Cpp:
    def __init__(self, cls, owner, parent=None):
        self.cls, self.owner = cls, owner      # owner: "py", "shared", "global", "member"
        self.parent = parent
        self.member = Cpp("P", "member", self) if cls in HAS_MEMBER else None
        self.oid = None


class Wrapper:
    def __init__(self, cpp):
        self.cpp = cpp
        self.edges = []          # wrappers this one keeps alive
        self.attr = None


class Model:
    def __init__(self):
        self.slots = {}
        self.vault = {}
        self.wrappers = []       # live ones
        self.cpps = []           # candidates, live ones kept by sweep()
        self.globals = {}
        self.immortal = []       # never destroyed

    def add_global(self, cls):
        self.globals[cls] = Cpp(cls, "global")

    def fresh(self, cls):
        return Wrapper(Cpp(cls, "shared" if cls in SHARED else "py"))
