"""Seeded generator of annotated headers (the workload).

A header is a list of independent text blocks, so that a failing scenario can be
minimised by dropping blocks.  Everything generated is valid C++17, accepted by
the tool, and compiles against pybind11 (blocks are self-contained enough that
dropping one usually leaves a valid header; where it does not, the minimiser
simply rejects that candidate).
"""
import random
import mistakes
import re

PROLOGUE = """#pragma once
#include <genpybind/genpybind.h>
"""

SCALARS = ["int", "bool", "char", "double", "float", "long", "short", "unsigned",
           "unsigned long", "signed char", "long long", "unsigned char"]


class Cls:
    def __init__(self, name, ancestors, default_ctor=True, final=False, visible=True):
        self.name = name              # fully qualified, with leading ::
        self.ancestors = ancestors    # set of names including itself
        self.default_ctor = default_ctor
        self.visible = visible


class Gen:
    def __init__(self, rng, size=None, features=None, marks=False, safe=False):
        self.r = rng
        self.safe = safe         # the generated code also has to compile and import
        self.n = 0
        self.classes = []        # Cls
        self.enums = []          # (qualified name, first enumerator expr)
        self.blocks = []
        self.mark_count = 0
        self.marks = marks
        self.namespaces = []     # (name, annotation) at top level, for reopening
        self.pragmas = []
        self.size = size or rng.choice([3, 5, 8, 12, 20])
        all_features = ["struct", "template", "enum", "function", "variable", "namespace",
                        "manual", "inline", "expose_here", "adl", "unreachable",
                        "latebase", "function_template", "explicit_inst", "reopen",
                        "manyprops", "nested_out_of_line", "aliases", "macro",
                        "using_decl", "multi_inline_template", "fields", "pragma", "hierarchy", "defaults", "graph"]
        if features is None:
            k = rng.randrange(4, len(all_features) + 1)
            features = rng.sample(all_features, k)
            if "struct" not in features:
                features.append("struct")
        self.features = [f for f in features]

    # ------------------------------------------------------------- helpers
    def uid(self, prefix):
        self.n += 1
        return "%s%d" % (prefix, self.n)

    def chance(self, p):
        return self.r.random() < p

    def doc(self):
        if self.chance(0.3):
            return "/// Text %d about \"something\".\n" % self.r.randrange(100)
        return ""

    def mark(self, postamble=False):
        self.mark_count += 1
        m = "GENPYBIND_MANUAL({ ::simlog::mark(%d); })\n" % self.mark_count
        return ("GENPYBIND(postamble)\n" if postamble else "") + m

    def annot(self, *extra, visible=True):
        items = list(extra)
        if visible and (not items or self.chance(0.5)):
            items.insert(0, "visible")
        return "GENPYBIND(%s)" % ", ".join(items)

    def ptype(self):
        """parameter type and default argument expression (or None)"""
        c = self.r.random()
        if c < 0.55 or not (self.classes or self.enums):
            t = self.r.choice(SCALARS)
            return t, self.r.choice(["1", "0"]) if t != "bool" else "true"
        if c < 0.7 and self.enums:
            t, e = self.r.choice(self.enums)
            return t, e
        if self.classes:
            k = self.r.choice(self.classes)
            form = self.r.choice(["const %s &", "%s *", "%s"])
            d = None
            if k.default_ctor and form != "%s *" and k.visible:
                d = k.name + "()"
            elif form == "%s *":
                d = "nullptr"
            return form % k.name, d
        return "int", "3"

    def params(self, maxn=4):
        n = self.r.randrange(0, maxn + 1)
        out, names = [], []
        defaults = self.chance(0.5)
        cut = self.r.randrange(0, n + 1) if defaults else n
        for i in range(n):
            t, d = self.ptype()
            name = "p%d" % i
            if i >= cut:
                if d is None:
                    t, d = "int", str(i)
                out.append("%s %s = %s" % (t, name, d))
            else:
                out.append("%s %s" % (t, name))
            names.append(name)
        return ", ".join(out), names

    def fn_annot(self, names, member=False):
        ex = []
        if names and self.chance(0.15):
            ex.append("noconvert(%s)" % ", ".join(self.r.sample(names, self.r.randrange(1, len(names) + 1))))
        if names and self.chance(0.1):
            ex.append("required(%s)" % self.r.choice(names))
        if self.chance(0.1):
            ex.append("expose_as(%s)" % self.uid("renamed"))
        if self.chance(0.05):
            ex.append("return_value_policy(copy)")
        return ("GENPYBIND(%s) " % ", ".join(ex)) if ex else ""

    # ------------------------------------------------------------- members
    def method(self, name=None):
        name = name or self.uid("m")
        ps, names = self.params()
        static = self.chance(0.15)
        const = "" if static else (" const" if self.chance(0.5) else "")
        return "%s  %s%sint %s(%s)%s { return %d; }\n" % (
            self.doc(), self.fn_annot(names, True), "static " if static else "", name, ps,
            const, self.r.randrange(9))

    def members(self, cname, nested=True, n=None):
        out = []
        for _ in range(self.r.randrange(0, 5) if n is None else n):
            c = self.r.random()
            if c < 0.35:
                out.append(self.method())
            elif c < 0.5:
                out.append("  %sint %s = %d;\n" % (
                    "GENPYBIND(readonly) " if self.chance(0.3) else "", self.uid("f"), self.r.randrange(9)))
            elif c < 0.6:
                out.append("  static constexpr int %s = %d;\n" % (self.uid("s"), self.r.randrange(9)))
            elif c < 0.7:
                p = self.uid("prop")
                out.append("  GENPYBIND(getter_for(%s)) int get_%s() const { return 1; }\n" % (p, p))
                if self.chance(0.6):
                    out.append("  GENPYBIND(setter_for(%s)) void set_%s(int value) {}\n" % (p, p))
            elif c < 0.8:
                op = self.r.choice(["==", "!=", "<", ">", "<=", ">="])
                out.append("  bool operator%s(const %s &) const { return true; }\n" % (op, cname))
            elif c < 0.87:
                out.append("  %s(%s) {}\n" % (cname, "int a, %s b" % self.r.choice(SCALARS)))
                if not any(cname + "() = default" in x for x in out):
                    out.append("  %s() = default;\n" % cname)
            elif c < 0.93 and nested:
                out.append(self.nested(cname))
            elif self.marks:
                out.append("  " + self.mark())
        # operators of the same kind must not be declared twice
        seen, res = set(), []
        for m in out:
            key = m.split("(const")[0].strip() if "operator" in m else None
            if " b) {}" in m or "() = default" in m:
                key = m.strip()
            if key and key in seen:
                continue
            seen.add(key)
            res.append(m)
        return "".join(res)

    def nested(self, cname):
        k = self.r.random()
        name = self.uid("N")
        if k < 0.4:
            return "  struct %s { int x = 1; %s };\n" % (name, self.members(name, nested=False, n=1).strip())
        if k < 0.6:
            return "  enum class %s { a, b, c };\n" % name
        if k < 0.8:
            return "  enum %s { %s_a, %s_b };\n" % (name, name, name)
        return "  struct GENPYBIND(hidden) %s { int x = 1; };\n" % name

    def pick_bases(self, maxn=3, pool=None):
        pool = [c for c in (pool or self.classes) if c.default_ctor]
        self.r.shuffle(pool)
        chosen, used = [], set()
        want = self.r.choice([0, 0, 1, 1, 2, 3][:maxn + 3])
        for c in pool:
            if len(chosen) >= want:
                break
            if c.ancestors & used:
                continue
            chosen.append(c)
            used |= c.ancestors
        return chosen, used

    # -------------------------------------------------------------- blocks
    def b_struct(self, scope=""):
        name = self.uid("C")
        q = scope + "::" + name
        bases, used = self.pick_bases()
        ex = []
        if self.chance(0.1):
            ex.append("dynamic_attr")
        if self.chance(0.15):
            ex.append("expose_as(%s)" % self.uid("Renamed"))
        hidden = self.chance(0.1)
        body = self.members(name)
        text = "%sstruct %s %s%s {\n%s};\n" % (
            self.doc(), "" if hidden else self.annot(*ex), name,
            (" : " + ", ".join("public " + b.name for b in bases)) if bases else "", body)
        self.classes.append(Cls(q, used | {q}, visible=not hidden))
        return text

    def b_fields(self, scope=""):
        """Many members in one class: large containers iterate differently."""
        name = self.uid("C")
        n = self.r.choice([10, 20, 45])
        body = "".join(self.method() if self.chance(0.6) else
                       "  int %s = 0;\n" % self.uid("f") for _ in range(n))
        self.classes.append(Cls(scope + "::" + name, {scope + "::" + name}))
        return "struct %s %s {\n%s};\n" % (self.annot(), name, body)

    def b_manyprops(self, scope=""):
        name = self.uid("C")
        n = self.r.choice([4, 9, 20])
        names = [self.uid("prop") for _ in range(n)]
        body, order = [], names[:]
        self.r.shuffle(order)
        for p in order:
            body.append("  GENPYBIND(getter_for(%s)) int get_%s() const { return 1; }\n" % (p, p))
        self.r.shuffle(order)
        for p in order:
            if self.chance(0.6):
                body.append("  GENPYBIND(setter_for(%s)) void set_%s(int v) {}\n" % (p, p))
        multi = ", ".join(self.uid("prop") for _ in range(self.r.choice([2, 3, 6])))
        body.append("  GENPYBIND(getter_for(%s)) int get_multi() const { return 1; }\n" % multi)
        self.classes.append(Cls(scope + "::" + name, {scope + "::" + name}))
        return "struct %s %s {\n%s};\n" % (self.annot(), name, "".join(body))

    def targs(self, n):
        if self.safe:
            pool = list(SCALARS) + ["const int"] + [c.name for c in self.classes if "::A" not in c.name]
        else:
            pool = list(SCALARS) + [c.name for c in self.classes] + \
                ["int *", "char *", "const int", "double &", "int[2]", "int()", "char(*)(int)"]
        self.r.shuffle(pool)
        return pool[:n]

    def b_template(self, scope=""):
        """Several implicit instantiations of one template, exposed by aliases.
        They all share the location of the template."""
        name = self.uid("T")
        annotated = self.chance(0.5)
        inner = self.r.choice([
            "", "  struct Inner { int y = 0; int g() const { return 0; } };\n",
            "  enum class Kind { p, q };\n",
            "  struct Inner { struct Deep { int z = 0; }; };\n  enum Flat { fa, fb };\n"])
        text = "template <typename T> struct %s%s {\n  int x = 0;\n  int f(int a = 3) const { return a; }\n%s};\n" % (
            "GENPYBIND(visible) " if annotated else "", name, inner)
        n = self.r.choice([2, 4, 7, 12])
        kinds = ["encourage"] if self.chance(0.5) else ["encourage", "expose_here"]
        for t in self.targs(n):
            k = self.r.choice(kinds)
            a = self.uid("A")
            text += "using %s GENPYBIND(%s) = %s<%s>;\n" % (a, k, name, t)
            q = scope + "::" + a
            self.classes.append(Cls(q, {q}))
        return text

    def b_explicit_inst(self, scope=""):
        name = self.uid("T")
        text = "template <typename T, int N = 0> struct %s { int x = 0; T *f() const { return nullptr; } struct In { int q = 0; }; };\n" % name
        for t in self.targs(self.r.choice([2, 4, 8])):
            if any(ch in t for ch in "&([") :
                t = "int, %s" % self.uid("")
            ex = "expose_as(%s)" % self.uid("Inst") if self.chance(0.5) else "visible"
            text += "template struct GENPYBIND(%s) %s<%s>;\n" % (ex, name, t)
        return text

    def b_derived_templates(self, scope=""):
        base, der = self.uid("T"), self.uid("T")
        text = "template <typename T> struct %s { int bx = 0; };\n" % base
        text += "template <typename T> struct %s : public %s<T> { int dx = 0; };\n" % (der, base)
        for t in self.targs(self.r.choice([2, 4, 6])):
            if any(ch in t for ch in "&(["):
                continue
            seq = [(base, t), (der, t)]
            self.r.shuffle(seq)
            for k, a in seq:
                text += "using %s GENPYBIND(encourage) = %s<%s>;\n" % (self.uid("A"), k, a)
        return text

    def b_latebase(self, scope=""):
        """Derived template located before its base classes."""
        d = self.uid("T")
        how = self.r.choice(["plain", "two", "inline", "inlinehidden"])
        bs = [self.uid("B") for _ in range(self.r.choice([1, 2, 3]))]
        if how in ("plain", "two"):
            text = "template <typename T> struct %s : public T { int dx = 0; };\n" % d
        else:
            m = self.uid("T")
            text = "template <typename T> struct %s%s : public T { int mx = 0; };\n" % (
                "" if how == "inlinehidden" else "GENPYBIND(visible) ", m)
            text += "template <typename T> struct GENPYBIND(visible, inline_base(\"%s\")) %s : public %s<T> { int dx = 0; };\n" % (m, d, m)
        for b in bs:
            text += "struct %s %s { int bx = 0; };\n" % (self.annot(), b)
            q = scope + "::" + b
            self.classes.append(Cls(q, {q}))
        for b in bs:
            text += "using %s GENPYBIND(encourage) = %s<%s>;\n" % (self.uid("A"), d, b)
        return text

    def b_graph(self, scope=""):
        """Classes of several kinds deriving from each other, some of them relocated into
        contexts that are defined later."""
        r = self.r
        items = []                       # (C++ name, bases)
        anc, deps, text, homes = {}, {}, "", []

        mro = {}

        def merge(bs):
            """Python's method resolution order, or None."""
            todo, res = [list(mro[b]) for b in bs] + [list(bs)], []
            while any(todo):
                head = next((l[0] for l in todo if l and not any(l[0] in x[1:] for x in todo)), None)
                if head is None:
                    return None
                res.append(head)
                todo = [[y for y in x if y != head] for x in todo]
            return res

        def bases_for():
            res = []
            for c in r.sample(items, min(len(items), r.choice([0, 1, 1, 2, 3, 4]))):
                if not any(c in anc[b] or b in anc[c] for b in res) \
                        and merge(sorted(res + [c], key=items.index, reverse=True)) is not None:
                    res.append(c)
            return sorted(res, key=items.index, reverse=True)

        def clause(bs):
            return (" : " + ", ".join("public %s%s" % ("virtual " if self.chance(0.12) else "", b) for b in bs)) if bs else ""

        def add(q, bs, parent=None):
            anc[q] = set(bs).union(*[anc[b] for b in bs])
            mro[q] = [q] + merge(bs)
            deps[q] = set(bs) | ({parent} if parent else set())
            items.append(q)

        moved = []
        for _ in range(r.choice([3, 5, 8, 12])):
            kind = r.choice(["plain", "plain", "plain", "template", "nested", "specialization"])
            if kind == "plain":
                n, bs = self.uid("G"), bases_for()
                move = self.chance(0.35)
                text += "struct %s%s%s { int %s = 0; };\n" % ("" if move else self.annot() + " ", n, clause(bs), self.uid("m"))
                add(n, bs)
                if move:
                    moved.append(n)
            elif kind in ("template", "specialization"):
                n, bs = self.uid("T"), bases_for()
                text += "template <int I> struct %s%s { int %s = I; };\n" % (n, clause(bs) if kind == "template" else "", self.uid("m"))
                for i in r.sample(range(9), r.choice([1, 1, 2])):
                    q = "%s<%d>" % (n, i)
                    if kind == "specialization":
                        text += "template <> struct %s%s { int %s = 0; };\n" % (q, clause(bs), self.uid("m"))
                    add(q, bs)
                    moved.append(q)
            else:
                o, obs = self.uid("O"), bases_for()
                text += "struct %s %s%s {\n" % (self.annot(), o, clause(obs))
                inner = []
                for _ in range(r.choice([1, 2, 3])):
                    n = self.uid("I")
                    bs = bases_for() if not inner or self.chance(0.4) else [r.choice(inner)]
                    move = self.chance(0.4)
                    text += "  struct %s%s { int %s = 0; };\n" % (n, clause(bs), self.uid("m"))
                    q = o + "::" + n
                    add(n, bs, None if move else o)
                    inner.append(n)
                    if move:
                        moved.append(n)
                text += "};\n"
                for n in inner:          # known by its full name from here on
                    q = o + "::" + n
                    mro[q] = mro.pop(n)
                    for k in mro:
                        mro[k] = [q if x == n else x for x in mro[k]]
                    for d in (anc, deps):
                        d[q] = d.pop(n)
                        for k in d:
                            if n in d[k]:
                                d[k].remove(n)
                                d[k].add(q)
                    items[items.index(n)] = q
                    if n in moved:
                        moved[moved.index(n)] = q
                add(o, obs)
        groups = []
        r.shuffle(moved)
        while moved:
            k = r.choice([1, 1, 2, 3])
            groups.append(moved[:k])
            del moved[:k]

        def closure(c):
            todo, seen = [c], set()
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += sorted(deps.get(x, ()))
            return seen

        for g in groups:
            uses = "".join("using %s GENPYBIND(expose_here) = %s;\n" % (self.uid("A"), q) for q in g)
            how = r.choice(["here", "namespace", "class", "class", "derived", "deep"])
            if how == "here":
                text += uses
                continue
            h, bs = self.uid("H"), []
            for q in g:
                deps[q].add(h)
            deps[h] = set()
            if how == "derived":
                for c in r.sample(items, min(4, len(items))):
                    if h not in closure(c) and not bs:
                        bs = [c]
                deps[h] |= set(bs)
            if how == "namespace":
                text += "namespace %s GENPYBIND(module) {\n%s}\n" % (h, uses)
            elif how == "deep":
                text += "namespace %s GENPYBIND(module) {\nstruct GENPYBIND(visible) %s {\n%s};\n}\n" % (h, self.uid("H"), uses)
            else:
                text += "struct GENPYBIND(visible) %s%s {\n%s};\n" % (h, clause(bs), uses)
        return text

    def b_multi_inline_template(self, scope=""):
        """Two instantiations inlined into one class: members share locations."""
        m, name = self.uid("T"), self.uid("C")
        n = self.r.choice([1, 3, 9])
        text = "template <int N> struct %s {\n%s};\n" % (
            m, "".join("  int %s() const { return N; }\n" % self.uid("im") for _ in range(n)))
        text += "struct GENPYBIND(inline_base(\"%s\")) %s : public %s<%d> {\n%s};\n" % (
            m, name, m, self.r.randrange(99), self.members(name))
        return text

    def b_enum(self, scope=""):
        name = self.uid("E")
        vals = [self.uid("v") for _ in range(self.r.choice([1, 3, 5, 20]))]
        scoped = self.chance(0.5)
        ex = []
        if self.chance(0.3):
            ex.append("arithmetic")
        if self.chance(0.3):
            ex.append("export_values")
        q = scope + "::" + name
        first = "%s::%s" % (q, vals[0])
        text = "%senum %s%s %s { %s };\n" % (self.doc(), "class " if scoped else "", self.annot(*ex), name,
                                              ", ".join(vals))
        self.enums.append((q, first))
        return text

    def b_function(self, scope=""):
        name = self.uid("fn")
        out = ""
        for i in range(self.r.choice([1, 1, 2, 4])):
            ps, names = self.params(3)
            ex = []
            if names and self.chance(0.15):
                ex.append("noconvert(%s)" % self.r.choice(names))
            # distinct overloads: leading tag parameter
            tag = ["", "int * t1", "double * t2", "char * t3"][i]
            ps = ", ".join(x for x in ([tag] if tag else []) + ([ps] if ps else []))
            out += "%s%s inline int %s(%s) { return %d; }\n" % (
                self.doc(), self.annot(*ex), name, ps, i)
        return out

    def b_defaults(self, scope=""):
        """Default arguments of every syntactic form."""
        a, p, c, t, f = (self.uid(x) for x in ("Da", "Dp", "Dc", "Dt", "df"))
        q = scope + "::"
        text = "struct GENPYBIND(visible) %s { int x = 1; int y = 2; static int make(int v = 3) { return v; } };\n" % a
        text += "struct GENPYBIND(visible) %s { %s a; %s b; };\n" % (p, a, a)
        text += "struct GENPYBIND(visible) %s { %s(int, int v = 4) : v(v) {} %s(%s a = {}) : v(a.x) {} int v; static constexpr int k = 5; enum In { i0, i1 }; };\n" % (c, c, c, a)
        text += "template <typename T, int N = 1> struct %s { T v = T(); int n = N; };\n" % t
        text += "using %s_alias GENPYBIND(expose_here) = %s<int>;\nusing %s_alias2 GENPYBIND(expose_here) = %s<%s, 2>;\n" % (t, t, t, t, a)
        forms = [
            (a, "{}"), (a, "{1, 2}"), (a, "%s{}" % a), (a, "%s{3}" % a), ("const %s &" % a, "{}"), (a, "%s()" % a),
            (p, "{{1, 2}, {3}}"), (p, "{}"), (p, "{%s{1}, {}}" % a), (p, "%s{{}, %s{2, 3}}" % (p, a)),
            (c, "{1, 2}"), (c, "{1}"), (c, "{}"), (c, "%s(1)" % c), (c, "%s(%s{2, 3})" % (c, a)),
            ("%s<int>" % t, "{}"), ("%s<%s, 2>" % (t, a), "{}"), ("%s<int>" % t, "%s<int>{}" % t),
            ("%s<int>" % t, "%s_alias()" % t), ("int", "%s::make()" % a), ("int", "%s::make(%s::k)" % (a, c)),
            ("int", "sizeof(%s)" % a), ("int", "static_cast<int>(%s::i1)" % c), ("int", "{}"), ("int", "{7}"),
            ("%s::In" % c, "%s::i1" % c), ("%s::In" % c, "static_cast<%s::In>(1)" % c), ("int", "%s::k + 1" % c),
            ("int", "true ? %s::k : -1" % c), ("double", "1.5e3"), ("const char *", "\"t\\n\\\"x\""), ("char", "'c'"),
            ("bool", "!false"), ("%s *" % a, "nullptr"), ("const %s *" % a, "0"), ("unsigned long", "~0ul"),
            ("int", "int()"), ("int", "(int)2.5"), ("int", "int(%s{4}.x)" % a)]
        if self.safe:       # forms whose generated text compiles (see DESIGN.md)
            forms = [(ty, d) for ty, d in forms if not ("{" in d and (d[0] != "{" or ty.startswith("const")))
                     or ty == p and d[0] == "{"]
        for i in range(self.r.choice([1, 2, 5])):
            ps = self.r.sample(forms, self.r.randrange(1, 6))
            text += "GENPYBIND(visible) inline int %s_%d(%s) { return %d; }\n" % (
                f, i, ", ".join("%s p%d = %s" % (ty, n, d) for n, (ty, d) in enumerate(ps)), i)
        return text

    def b_function_template(self, scope=""):
        name = self.uid("ft")
        text = "template <typename T> int %s(T *value) GENPYBIND(visible);\n" % name
        text += "template <typename T> int %s(T *value) { return 1; }\n" % name
        for t in self.targs(self.r.choice([2, 4, 7])):
            if any(ch in t for ch in "&([") or t.startswith("const"):
                continue
            text += "template int %s<%s>(%s *);\n" % (name, t, t)
        return text

    def b_variable(self, scope=""):
        return "".join("inline %sint %s %s = %d;\n" % (
            "const " if self.chance(0.4) else "", self.uid("var"), self.annot(), self.r.randrange(99))
            for _ in range(self.r.choice([1, 3, 12])))

    def b_manual(self, scope=""):
        if not self.marks:
            v = self.uid("man")
            return "GENPYBIND_MANUAL({ parent.attr(\"%s\") = %d; })\n" % (v, self.r.randrange(99))
        return "".join(self.mark(postamble=(scope == "" and self.chance(0.4)))
                       for _ in range(self.r.choice([1, 2, 4])))

    def b_inline(self, scope=""):
        pool = [c for c in self.classes if c.default_ctor]
        bases, used = self.pick_bases(3, pool)
        if not bases:
            return self.b_struct(scope)
        name = self.uid("C")
        q = scope + "::" + name
        which = self.r.choice(["inline_base", "hide_base", "both"])
        names = ["\"%s\"" % b.name for b in bases if "::A" not in b.name]
        if not names:
            return self.b_struct(scope)
        if which == "both" and len(names) > 1:
            k = self.r.randrange(1, len(names))
            ann = "inline_base(%s), hide_base(%s)" % (", ".join(names[:k]), ", ".join(names[k:]))
        else:
            w = "hide_base" if which == "hide_base" else "inline_base"
            ann = "%s(%s)" % (w, ", ".join(self.r.sample(names, self.r.randrange(1, len(names) + 1)))) \
                if self.chance(0.7) else w
        body = self.members(name)
        self.classes.append(Cls(q, used | {q}))
        return "struct GENPYBIND(%s) %s : %s {\n%s};\n" % (
            ann, name, ", ".join("public " + b.name for b in bases), body)

    def b_expose_here(self, scope=""):
        """Relocate types from hidden scopes into other contexts."""
        hid = self.uid("hid")
        k = self.r.choice([1, 2, 4])
        names = [self.uid("X") for _ in range(k)]
        text = "namespace %s {\n" % hid
        for x in names:
            if self.chance(0.3):
                text += "enum class %s { xa, xb };\n" % x
            else:
                text += "struct %s { int x = 0; struct In { int i = 0; }; enum Fl { fl_%s }; };\n" % (x, x)
        text += "} // namespace\n"
        where = self.r.choice(["here", "struct", "module"])
        if where == "struct":
            o = self.uid("C")
            text += "struct %s %s {\n" % (self.annot(), o)
        elif where == "module":
            o = self.uid("mod")
            text += "namespace %s GENPYBIND(module) {\n" % o
        for x in names:
            text += "using %s GENPYBIND(expose_here) = %s::%s::%s;\n" % (self.uid("Moved"), scope, hid, x)
        text += {"struct": "};\n", "module": "}\n"}.get(where, "")
        return text

    def b_adl(self, scope=""):
        name = self.uid("C")
        q = scope + "::" + name
        text = "struct %s %s { int v = 0; };\n" % (self.annot(), name)
        ops = ["+", "-", "*", "/", "%", "<", ">", "==", "!=", "<=", ">=", "+=", "-=", "^", "&", "|"]
        for op in self.r.sample(ops, self.r.choice([2, 5, 10])):
            ret = "bool" if op in ("<", ">", "==", "!=", "<=", ">=") else "int"
            text += "inline %s operator%s(const %s &l, const %s &r) { return 1; }\n" % (ret, op, name, name)
            if self.chance(0.4):
                text += "inline %s operator%s(const %s &l, int r) { return 1; }\n" % (ret, op, name)
            if self.chance(0.3) and "=" not in op[-1:]:
                text += "inline %s operator%s(int l, const %s &r) { return 1; }\n" % (ret, op, name)
        # free operators are exposed only when visible
        text = text.replace("inline ", "GENPYBIND(visible) inline ") if self.chance(0.8) else text
        self.classes.append(Cls(q, {q}))
        return text

    def b_hierarchy(self, scope=""):
        """A class graph whose members are defined in one order, nested in another and
        derive from each other in a third: everything below needs the right parent
        and all of its bases first."""
        hid, tag = self.uid("hid"), self.uid("H")
        n = self.r.choice([3, 5, 8, 12])
        ctx = [self.uid("Ctx") for _ in range(self.r.choice([1, 2, 3, 4]))]
        names = ["%s_%d" % (tag, i) for i in range(n)]
        deps = {}                       # node -> nodes that have to come first
        place, bases, text = {}, {}, {}
        virt = self.chance(0.3)

        def reaches(a, b):
            todo, seen = [a], set()
            while todo:
                x = todo.pop()
                if x == b:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo += deps.get(x, [])
            return False
        kinds = {c: self.r.choice(["struct", "struct", "module"]) for c in ctx}
        anc = {}
        for i, x in enumerate(names):
            own, used = [], set()
            for y in self.r.sample(names[:i], min(i, self.r.choice([0, 1, 1, 2, 3]))):
                if virt or not (anc[y] & used):
                    own.append((y, self.r.choices(["public", "protected", "private"], [8, 1, 1])[0]))
                    used |= anc[y]
            if virt:                    # Python wants a consistent order of bases
                own.sort(key=lambda b: -names.index(b[0]))
            bases[x], anc[x] = own, used | {x}
            deps[x] = [y for y, a in own if a == "public"]
            place[x] = None
            k = self.r.random()
            if k < 0.75:
                c = self.r.choice(ctx)
                if not reaches(c, x):
                    place[x] = c
                    deps[x].append(c)
        ctxbase = {}
        for c in ctx:                   # contexts may derive from relocated classes
            if kinds[c] == "struct" and self.chance(0.4):
                for y in self.r.sample(names, len(names)):
                    if place[y] and not reaches(y, c):
                        ctxbase[c] = y
                        deps.setdefault(c, []).append(y)
                        break
        inl = {}
        for x in names:
            pub = [y for y, a in bases[x] if a == "public"]
            if pub and self.chance(0.25) and not virt:
                inl[x] = self.r.choice(pub)
        how = self.r.choice(["inline_base", "inline_base", "hide_base"])
        order = list(names)
        out = "namespace %s {\n%s}\n" % (hid, "".join("struct %s;\n" % x for x in names))
        defs = ""
        for x in order:
            ann = "GENPYBIND(%s(\"%s\")) " % (how, inl[x]) if x in inl else ""
            b = ", ".join("%s %s%s::%s::%s" % (a, "virtual " if virt else "", scope, hid, y) for y, a in bases[x])
            inner = ""
            if self.chance(0.3):
                y = self.r.choice([y for y in names[:names.index(x)]] or [None])
                inner = " struct In%s { int i = 0; };" % ("" if not y or not place[y] or self.chance(0.5) or reaches(y, x) else " : public %s::%s::%s" % (scope, hid, y))
                if ": public" in inner:
                    deps[x + ".In"] = [x, y]
            defs += "struct %s%s%s { int v_%s = 0;%s };\n" % (ann, x, " : " + b if b else "", x, inner)
        defs = "namespace %s {\n%s}\n" % (hid, defs)
        early = [c for c in ctx if c not in ctxbase and self.chance(0.5)]

        def ctx_text(c):
            t = ("struct GENPYBIND(visible) %s%s {\n  int c = 0;\n" % (c, " : public %s::%s" % (hid, ctxbase[c]) if c in ctxbase else "")
                 if kinds[c] == "struct" else "namespace %s GENPYBIND(module) {\n" % c)
            members = [x for x in names if place[x] == c]
            self.r.shuffle(members)
            for x in members:
                t += "using Mv_%s GENPYBIND(expose_here) = %s::%s;\n" % (x, hid, x)
                if self.marks and self.chance(0.3):
                    t += self.mark()
            return t + ("};\n" if kinds[c] == "struct" else "}\n")
        late = [c for c in ctx if c not in early]
        self.r.shuffle(late)
        return out + "".join(map(ctx_text, early)) + defs + "".join(map(ctx_text, late))

    def b_unreachable(self, scope=""):
        k = self.r.choice(["plain", "template", "moved"])
        h = self.uid("Hid")
        if k == "plain":
            return "struct %s { struct GENPYBIND(visible) %s {}; enum GENPYBIND(visible) %s { %s }; };\n" % (
                h, self.uid("V"), self.uid("V"), self.uid("v"))
        text = "template <typename T> struct %s { struct GENPYBIND(visible) Something {}; struct Mid { struct GENPYBIND(visible) Low {}; }; };\n" % h
        for t in self.targs(self.r.choice([2, 4, 8])):
            if any(ch in t for ch in "&(["):
                continue
            if k == "template":
                text += "template struct %s<%s>;\n" % (h, t)
            else:
                text += "inline %s<%s> *%s() { return new %s<%s>; }\n" % (h, t, self.uid("mk"), h, t)
        return text

    def b_nested_out_of_line(self, scope=""):
        o, i = self.uid("C"), self.uid("N")
        text = "struct %s %s { struct %s; struct %sb; enum class %sc : int; int z = 0; };\n" % (self.annot(), o, i, i, i)
        text += self.r.choice(["", "struct %s { int pad = 0; };\n" % (self.annot() + " " + self.uid("C"))])
        parts = ["struct %s::%s { int deep = 1; };\n" % (o, i),
                 "struct %s::%sb : public %s { int deep2 = 1; };\n" % (o, i, o),
                 "enum class %s::%sc : int { k1, k2 };\n" % (o, i)]
        self.r.shuffle(parts)
        return text + "".join(parts)

    def b_aliases(self, scope=""):
        pool = [c for c in self.classes if c.visible and "::A" not in c.name]
        if not pool:
            return self.b_struct(scope)
        out = ""
        for _ in range(self.r.choice([1, 3, 8])):
            out += "using %s GENPYBIND(visible) = %s;\n" % (self.uid("Al"), self.r.choice(pool).name)
        return out

    def b_macro(self, scope=""):
        """Declarations from one macro expansion: locations inside macros."""
        m = self.uid("MAC")
        a, b = self.uid("C"), self.uid("C")
        for x in (a, b):
            self.classes.append(Cls(scope + "::" + x, {scope + "::" + x}))
        return ("#define %s(X, Y) struct GENPYBIND(visible) X { int g1() const { return 1; } int g2() const { return 2; } int h = 0; }; "
                "struct GENPYBIND(visible) Y { int a1 = 0, a2 = 0; enum class Z { u, w }; };\n%s(%s, %s)\n" % (m, m, a, b))

    def b_using_decl(self, scope=""):
        b, d = self.uid("C"), self.uid("C")
        self.classes.append(Cls(scope + "::" + b, {scope + "::" + b}))
        text = "struct %s %s {\n  int u1() const { return 1; }\n  int u1(int) const { return 2; }\n  int u2() const { return 3; }\n  int u1(double) const { return 2; }\n};\n" % (self.annot(), b)
        text += "struct %s %s : public %s {\n  using %s::u2;\n  using %s::u1;\n%s};\n" % (
            self.annot(), d, b, b, b, self.members(d))
        return text

    def b_pragma(self, scope=""):
        return None  # handled by build()

    def b_namespace(self, scope="", depth=0):
        name = self.uid("ns")
        k = self.r.random()
        ann = "GENPYBIND(visible)" if k < 0.4 else ("GENPYBIND(module)" if k < 0.6 else
              ("GENPYBIND(visible, module(%s))" % self.uid("sub") if k < 0.75 else ""))
        if scope == "":
            self.namespaces.append((name, ann))
        return self.ns_text(name, ann, scope, depth)

    def ns_text(self, name, ann, scope, depth):
        body = ""
        for _ in range(self.r.choice([1, 2, 4])):
            f = self.r.choice(self.features)
            if f in ("namespace", "reopen"):
                if depth < 2:
                    body += self.b_namespace(scope + "::" + name, depth + 1)
                continue
            body += self.block(f, scope + "::" + name) or ""
        return "namespace %s %s {\n%s} // namespace %s\n" % (name, ann, body, name)

    def b_reopen(self, scope=""):
        if scope or not self.namespaces:
            return self.b_namespace(scope) if not scope else self.b_struct(scope)
        name, ann = self.r.choice(self.namespaces)
        return self.ns_text(name, ann, "", 0)

    def block(self, f, scope=""):
        if f == "template" and self.chance(0.35):
            return self.b_derived_templates(scope)
        return getattr(self, "b_" + f)(scope)

    # --------------------------------------------------------------- result
    def build(self):
        for _ in range(self.size):
            f = self.r.choice(self.features)
            t = self.block(f)
            if t:
                self.blocks.append(t)
        if "pragma" in self.features:
            incs = ["<pybind11/%s.h>" % x for x in ("operators", "stl", "eval", "iostream", "functional")]
            self.pragmas = []  # these would need pybind11 to parse; see extra headers
        return self.blocks


PART_BEGIN, PART_END = "//<<", "//>>"

MARK_DEFS = """namespace simlog {
int mark(int id);
} // namespace simlog
"""


MARK_DEFS_SAFE = """namespace simlog {
struct Log { int n = 0; int ids[2000]; };
inline Log &log() { static Log l; return l; }
inline int mark(int id) { log().ids[log().n++] = id; return id; }
} // namespace simlog
GENPYBIND(visible) inline int simlog_count() { return simlog::log().n; }
GENPYBIND(visible) inline int simlog_at(int i) { return simlog::log().ids[i]; }
"""


def header(rng, size=None, features=None, marks=False, safe=False):
    """-> JSON-able header description."""
    g = Gen(rng, size, features, marks, safe)
    blocks = g.build()
    extra = {}
    pragmas = []
    if "pragma" in g.features and rng.random() < 0.8:
        for i in range(rng.choice([1, 2, 5])):
            n = "extra_%s%d.h" % (rng.choice("zyxabc"), i)
            extra[n] = "#pragma once\ninline int extra_value_%d_%s = %d;\n" % (i, n[6], i)
            pragmas.append("\"%s\"" % n)
        rng.shuffle(pragmas)
    includes = {}
    if rng.random() < 0.3:
        sub = Gen(random.Random(rng.getrandbits(32)), 2, ["struct", "enum", "function"])
        sub.n = 100000
        includes["dep.h"] = PROLOGUE + "".join(sub.build())
    if len(blocks) > 1 and rng.random() < 0.35:
        # some of it lives in files that are included in the middle (possibly nested)
        for k in range(rng.choice([1, 1, 2, 3])):
            a = rng.randrange(len(blocks))
            b = rng.randrange(a + 1, len(blocks) + 1)
            blocks.insert(b, PART_END + "\n")
            blocks.insert(a, PART_BEGIN + "part%d.h\n" % k)
    if rng.random() < 0.3:
        how = [x for x in SPELLINGS if rng.random() < 0.6]
        blocks = [respell(b, how) for b in blocks]
    h = {"blocks": blocks, "pragmas": pragmas, "extra": extra, "includes": includes,
         "marks": marks}
    if pragmas and rng.random() < 0.5:
        h["pragma_form"] = rng.randrange(len(PRAGMA_FORMS))
    if safe:
        h["safe"] = True
    return h


def _split_commas(text):
    out, cur, depth, quote = [], "", 0, False
    for ch in text:
        if ch == '"':
            quote = not quote
        if not quote:
            depth += (ch in "([{") - (ch in ")]}")
            if ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    out.append(cur.strip())
    return out


def respell(text, how):
    """The same declarations in other words."""
    if "typedef" in how:
        text = re.sub(r"(?<!> )\busing (\w+) (GENPYBIND\((?:[^()=;]|\([^()]*\))*\)) = ([^;{}\[]+);",
                      lambda m: "typedef %s %s %s;" % (m.group(3), m.group(1), m.group(2)), text)
    if "split" in how:
        text = re.sub(r"\bGENPYBIND\(((?:[^()]|\([^()]*\))*)\)",
                      lambda m: m.group(0) if "" in _split_commas(m.group(1)) else
                      " ".join("GENPYBIND(%s)" % x for x in _split_commas(m.group(1))), text)
    if "class" in how:
        text = re.sub(r"\bstruct ((?:GENPYBIND\((?:[^()]|\([^()]*\))*\) )*)(\w+(?:<[\w, ]*>)?)( : (?:public|virtual public|public virtual)[^{};]*)? \{",
                      lambda m: "class %s%s%s { public:" % (m.group(1), m.group(2), m.group(3) or ""), text)
    return text


SPELLINGS = ["typedef", "split", "class"]


PRAGMA_FORMS = [
    lambda i, p: "#pragma genpybind include %s\n" % p,
    lambda i, p: "#pragma  genpybind \\\n  include /* here */ %s // %d\n" % (p, i),
    lambda i, p: "_Pragma(\"genpybind include %s\")\n" % p.replace("\"", "\\\""),
    lambda i, p: "#define PRG%d(x) _Pragma(#x)\nPRG%d(genpybind include %s) struct PrgS%d;\n" % (i, i, p, i),
    lambda i, p: "#define GPB_PRAGMA%d _Pragma(\"genpybind include %s\")\n" % (i, p.replace("\"", "\\\"")) + "GPB_PRAGMA%d\n" % i,
]


def render(h):
    out = PROLOGUE
    if h.get("marks"):
        out += MARK_DEFS_SAFE if h.get("safe") else MARK_DEFS
    if h.get("pragmas"):
        form = PRAGMA_FORMS[h.get("pragma_form", 0)]
        out += "#ifdef __GENPYBIND__\n" + "".join(form(i, p) for i, p in enumerate(h["pragmas"])) + "#endif\n"
    for i in h.get("includes", {}):
        out += "#include \"%s\"\n" % i
    return out + "\n" + "\n".join(h["blocks"])


def relayout(rng, h):
    """The same declarations at other source positions: all on one line, or each in
    a file of its own (so that line numbers coincide)."""
    how = rng.choice(["lines", "lines", "line", "files", "files", "both"])
    if how == "lines":
        return h
    blocks = [b for b in h["blocks"] if not b.startswith((PART_BEGIN, PART_END))]
    if how in ("line", "both"):
        res, run = [], []
        for b in blocks + ["#"]:
            b = "\n".join(l for l in b.split("\n") if not l.lstrip().startswith("///"))
            if b.startswith("// MISTAKE\n"):
                b = b[len("// MISTAKE\n"):] + "/* MISTAKE */"
            if "#" in b or "//" in b or len(b) > 900:
                if run:
                    res.append(" ".join(run) + "\n")
                run = []
                if b != "#":
                    res.append(b)
            else:
                run.append(b.replace("\n", " "))
                if len(run) >= 6 or sum(map(len, run)) > 500:
                    res.append(" ".join(run) + "\n")
                    run = []
        blocks = res
    if how in ("files", "both"):
        res = []
        for i, b in enumerate(blocks):
            res += [PART_BEGIN + "file%d.h\n" % i, b, PART_END + "\n"]
        blocks = res
    h["blocks"] = blocks
    return h


def split(text):
    """What lies between the marks goes to files of its own."""
    files, stack = {}, [("", [])]
    for line in text.split("\n"):
        if line.startswith(PART_BEGIN):
            stack.append((line[len(PART_BEGIN):], []))
        elif line.startswith(PART_END):
            if len(stack) > 1:
                n, lines = stack.pop()
                files[n] = "#pragma once\n" + "\n".join(lines) + "\n"
                stack[-1][1].append("#include \"%s\"" % n)
        else:
            stack[-1][1].append(line)
    while len(stack) > 1:
        n, lines = stack.pop()
        stack[-1][1].extend(lines)
    return "\n".join(stack[0][1]), files


def install(world, h, name="src/header.h"):
    main, parts = split(render(h))
    world.write(name, main)
    d = name.rsplit("/", 1)[0]
    for n, t in list(parts.items()) + list(h.get("includes", {}).items()) + list(h.get("extra", {}).items()):
        world.write(d + "/" + n, t)
    return world.path(name)


# --------------------------------------------------------------- rejected input

MISTAKES = {
    # name: (text, where) -- every diagnostic kind with error severity, at every
    # phase: preprocessing, parsing, semantic analysis, annotation collection,
    # graph building, emission.
    "pp_include": "#include \"does_not_exist_%d.h\"\n",
    "pp_error": "#error mistake %d\n",
    "pp_unterminated": "#if 1\nstruct Unterm%d {};\n",
    "parse": "struct Broken%d { int x = ; };\n",
    "parse_eof": "struct Eof%d { int x;\n",
    "sema_type": "inline UnknownType%d fn_bad() { return 1; }\n",
    "sema_redef": "struct Redef%d { int x; int x; };\n",
    "sema_template": "template <typename T> struct Tp%d { typename T::missing f; };\nusing Al%d GENPYBIND(encourage) = Tp%d<int>;\n",
    "sema_static_assert": "static_assert(sizeof(int) == %d99, \"no\");\n",
    "ann_unknown": "struct GENPYBIND(no_such_thing) Ann%d {};\n",
    "ann_syntax": "struct GENPYBIND(visible visible) Ann%d {};\n",
    "ann_syntax2": "struct GENPYBIND(expose_as() Ann%d {};\n",
    "ann_syntax3": "struct GENPYBIND(expose_as(\"abc\") Ann%d {};\n",
    "ann_kind": "struct GENPYBIND(arithmetic) Ann%d {};\n",
    "ann_kind_ns": "namespace ann%d GENPYBIND(readonly) { struct GENPYBIND(visible) Q {}; }\n",
    "ann_kind_fn": "inline int ann%d() GENPYBIND(dynamic_attr);\n",
    "ann_kind_var": "inline int ann%d GENPYBIND(getter_for(x)) = 1;\n",
    "ann_kind_enum": "enum class GENPYBIND(inline_base) Ann%d { a };\n",
    "ann_kind_member": "struct GENPYBIND(visible) Ann%d { GENPYBIND(module) int m() const; };\n",
    "ann_kind_ctor": "struct GENPYBIND(visible) Ann%d { GENPYBIND(getter_for(x)) Ann%d(int); };\n",
    "ann_kind_alias": "struct Tg%d {}; using Ann%d GENPYBIND(dynamic_attr) = Tg%d;\n",
    "ann_type": "struct GENPYBIND(expose_as(42)) Ann%d {};\n",
    "ann_count": "struct GENPYBIND(hidden(1)) Ann%d {};\n",
    "ann_count2": "struct GENPYBIND(expose_as) Ann%d {};\n",
    "ann_count3": "struct GENPYBIND(expose_as(\"a\", \"b\")) Ann%d {};\n",
    "ann_count4": "inline int ann%d(int a) GENPYBIND(keep_alive(a));\n",
    "ann_count5": "namespace ann%d GENPYBIND(only_expose_in()) { struct GENPYBIND(visible) Q {}; }\n",
    "ann_spelling": "struct GENPYBIND(expose_as(\"not valid %d\")) Ann%d {};\n",
    "ann_spelling_mod": "namespace ann%d GENPYBIND(module(\"not valid\")) { struct GENPYBIND(visible) Q {}; }\n",
    "ann_spelling_prop": "struct GENPYBIND(visible) Ann%d { GENPYBIND(getter_for(\"a b\")) int g() const; };\n",
    "ann_argspec": "inline int ann%d(int a) GENPYBIND(noconvert(nope));\n",
    "ann_argspec2": "inline int ann%d(int a) GENPYBIND(required(nope));\n",
    "ann_argspec3": "inline int ann%d(int *a) GENPYBIND(keep_alive(this, a));\n",
    "ann_argspec4": "struct GENPYBIND(visible) Ann%d { GENPYBIND(keep_alive(this, nope)) void m(int *a); };\n",
    "ann_signature": "struct GENPYBIND(visible) Ann%d { GENPYBIND(getter_for(x)) void g() const; };\n",
    "ann_signature2": "struct GENPYBIND(visible) Ann%d { GENPYBIND(setter_for(x)) void g(); };\n",
    "ann_conversion": "struct GENPYBIND(visible) Ann%d { GENPYBIND(implicit_conversion) Ann%d(int, int); };\n",
    "ann_mismatch": "namespace ann%d GENPYBIND(visible) { struct Q {}; }\nnamespace ann%d { struct GENPYBIND(visible) R {}; }\n",
    "alias_target": "using Ann%d GENPYBIND(encourage) = int;\n",
    "alias_conflict": "struct Tg%d {}; using Ann%d GENPYBIND(encourage, expose_here) = Tg%d;\n",
    "moved_twice": "struct Tg%d {}; using AnnA%d GENPYBIND(expose_here) = Tg%d;\nstruct GENPYBIND(visible) Hold%d { using AnnB GENPYBIND(expose_here) = Tg%d; };\n",
    "moved_cycle": "struct Cy2%d; struct Cy1%d { using A GENPYBIND(expose_here) = Cy2%d; };\nstruct Cy2%d { using A GENPYBIND(expose_here) = Cy1%d; };\n",
    "moved_self": "struct Cy%d { using A GENPYBIND(expose_here) = Cy%d; };\n",
    "undef_template": "template <typename T> struct Und%d;\nusing UndA%d GENPYBIND(encourage) = Und%d<int>;\n",
    "undef_template2": "template <typename T> struct Und%d;\nusing UndA%d GENPYBIND(expose_here) = Und%d<int>;\n",
    "dup_inst": "template <typename T> struct Di%d {};\ntemplate struct GENPYBIND(visible) Di%d<int>;\ntemplate struct GENPYBIND(visible) Di%d<int>;\n",
    "undef_alias": "struct Unda%d;\nusing UndaA%d GENPYBIND(expose_here) = Unda%d;\n",
    "pragma_bad": "#ifdef __GENPYBIND__\n#pragma genpybind include\n#endif\n",
    "pragma_bad2": "#ifdef __GENPYBIND__\n#pragma genpybind nonsense%d\n#endif\n",
    "pragma_missing": "#ifdef __GENPYBIND__\n#pragma genpybind include \"missing_%d.h\"\n#endif\n",
    "pragma_trail": "#ifdef __GENPYBIND__\n#pragma genpybind include \"genpybind/genpybind.h\" junk%d\n#endif\n",
    "pragma_trail2": "#ifdef __GENPYBIND__\n#pragma genpybind include <genpybind/genpybind.h> , <memory%d>\n#endif\n",
    "pragma_none": "#ifdef __GENPYBIND__\n#pragma genpybind\n#endif\n",
    "pragma_num": "#ifdef __GENPYBIND__\n#pragma genpybind 4\n#endif\n",
    "pragma_macro": "#ifdef __GENPYBIND__\n#define GPB_H%d <genpybind/genpybind.h>\n#pragma genpybind include GPB_H%d\n#endif\n",
    "pragma_define": "#ifdef __GENPYBIND__\n#pragma genpybind define GPB_X%d 1\n#endif\n",
    "pragma_empty": "#ifdef __GENPYBIND__\n#pragma genpybind include \"\"\n#endif\n",
    "pragma_angle": "#ifdef __GENPYBIND__\n#pragma genpybind include <missing_%d.h>\n#endif\n",
    "pragma_open": "#ifdef __GENPYBIND__\n#pragma genpybind include \"genpybind/genpybind.h\n#endif\n",
    "pragma_next": "#ifdef __GENPYBIND__\n#pragma genpybind include_next <genpybind/genpybind.h>\n#endif\n",
    "pragma_error": "#ifdef __GENPYBIND__\n#pragma genpybind error text %d\n#endif\n",
    "pragma_if": "#ifdef __GENPYBIND__\n#pragma genpybind if 1\n#endif\n",
    "pragma_op": "#ifdef __GENPYBIND__\n_Pragma(\"genpybind nonsense%d\")\n#endif\n",
    "dflt_tpl": "template <typename T> struct Dft%d { int f(int x = T::nope) { return x; } };\nusing Dfa%d GENPYBIND(expose_here) = Dft%d<int>;\n",
    "dflt_tpl2": "template <typename T> struct Dft%d { int f(T x = \"text\") { return 1; } };\nusing Dfa%d GENPYBIND(expose_here) = Dft%d<int>;\n",
    "dflt_tpl3": "template <typename T> struct Dft%d { static int f(T *x = T::make()) { return 1; } };\nstruct Dfx%d {};\ntemplate struct GENPYBIND(visible) Dft%d<Dfx%d>;\n",
    "dflt_fn": "template <typename T> GENPYBIND(visible) int dff%d(T v, int x = T::nope) { return x; }\ntemplate int dff%d<int>(int, int);\n",
    "dflt_ctor": "template <typename T> struct Dft%d { Dft%d(int x = T::nope) {} };\nusing Dfa%d GENPYBIND(expose_here) = Dft%d<int>;\n",
    "dflt_priv": "class Dfp%d { static int secret(); public: template <typename T> friend struct Dfq%d; };\ntemplate <typename T> struct Dfr%d { int f(int x = T::secret()) { return x; } };\nusing Dfa%d GENPYBIND(expose_here) = Dfr%d<Dfp%d>;\n",
    "pragma_op2": "#ifdef __GENPYBIND__\n_Pragma(\"genpybind include <genpybind/genpybind.h> junk%d\")\n#endif\n",
    "pragma_op3": "#ifdef __GENPYBIND__\n#define PGM%d(x) _Pragma(#x)\nPGM%d(genpybind include <missing_%d.h>)\n#endif\n",
    "pragma_op4": "#ifdef __GENPYBIND__\n_Pragma(\"genpybind include\")\n#endif\n",
    "postamble_scope": "namespace ann%d { GENPYBIND(postamble) GENPYBIND_MANUAL({ (void)parent; }) }\n",
    # found only while bindings are emitted
    "emit_two_getters": "struct GENPYBIND(visible) Em%d { GENPYBIND(getter_for(p)) int g1() const; GENPYBIND(getter_for(p)) int g2() const; };\n",
    "emit_two_setters": "struct GENPYBIND(visible) Em%d { GENPYBIND(getter_for(p)) int g1() const; GENPYBIND(setter_for(p)) void s1(int); GENPYBIND(setter_for(p)) void s2(int); };\n",
    "emit_no_getter": "struct GENPYBIND(visible) Em%d { GENPYBIND(setter_for(p)) void s1(int); };\n",
    "emit_kwargs": "namespace pybind11 { class args; class kwargs; }\ninline int em%d(const pybind11::kwargs &, int) GENPYBIND(visible);\n",
    "emit_base_cycle": "struct BcBase%d { int x = 0; };\nstruct GENPYBIND(visible) Bc%d : public BcBase%d { using B GENPYBIND(expose_here) = BcBase%d; };\n",
    "undef_template3": "template <typename T> struct Und%d;\nusing UndA%d GENPYBIND(encourage) = Und%d<int>;\nusing UndB%d GENPYBIND(encourage) = Und%d<int>;\n",
    "undef_template4": "template <typename T> struct Und%d;\nusing UndA%d GENPYBIND(expose_here) = Und%d<int>;\nusing UndB%d GENPYBIND(encourage) = Und%d<int>;\nusing UndC%d GENPYBIND(encourage) = Und%d<char>;\n",
    "undef_template5": "template <typename V> struct UndW%d { template <typename T> struct Und; using A GENPYBIND(encourage) = Und<int>; };\ntemplate struct GENPYBIND(visible) UndW%d<int>;\n",
    "emit_two_getters2": "struct EmB%d { GENPYBIND(getter_for(p)) int g1() const; };\nstruct GENPYBIND(visible, inline_base) Em%d : public EmB%d { GENPYBIND(getter_for(p)) int g2() const; };\n",
    "emit_two_getters3": "struct EmB%d { GENPYBIND(getter_for(p)) int g1() const; };\nstruct EmC%d { GENPYBIND(getter_for(p)) int g2() const; };\nstruct GENPYBIND(visible, inline_base(\"EmB%d\", \"EmC%d\")) Em%d : public EmB%d, public EmC%d { };\n",
    "emit_two_getters4": "struct EmB%d { GENPYBIND(getter_for(p)) int g1() const; };\nstruct GENPYBIND(visible) Em%d : public EmB%d { using EmB%d::g1; GENPYBIND(getter_for(p)) int g2() const; };\n",
    "emit_two_getters5": "template <typename T> struct Em%d { GENPYBIND(getter_for(p)) T g1() const; GENPYBIND(getter_for(q, p)) T g2() const; };\ntemplate struct GENPYBIND(visible) Em%d<int>;\n",
    "emit_two_getters7": "struct GENPYBIND(visible) EmO%d { struct Mid { struct Em { GENPYBIND(getter_for(p)) int g1() const; GENPYBIND(getter_for(q)) int g3() const; GENPYBIND(getter_for(q)) int g2() const; }; }; };\n",
    "emit_two_setters2": "struct EmB%d { GENPYBIND(setter_for(p)) void s1(int); };\nstruct GENPYBIND(visible, inline_base) Em%d : public EmB%d { GENPYBIND(getter_for(p)) int g() const; GENPYBIND(setter_for(p)) void s2(int); };\n",
    "emit_two_setters3": "struct GENPYBIND(visible) Em%d { GENPYBIND(getter_for(p)) int g1() const; GENPYBIND(setter_for(p)) void s1(int); GENPYBIND(setter_for(q, p)) void s2(int); GENPYBIND(getter_for(q)) int g2() const; };\n",
    "emit_no_getter2": "struct EmB%d { GENPYBIND(setter_for(p)) void s1(int); };\nstruct GENPYBIND(visible, inline_base) Em%d : public EmB%d { };\n",
    "emit_no_getter3": "template <typename T> struct Em%d { GENPYBIND(setter_for(p)) void s1(T); };\nusing EmA%d GENPYBIND(expose_here) = Em%d<int>;\n",
    "emit_no_getter4": "struct GENPYBIND(visible) Em%d { GENPYBIND(getter_for(p)) int g1() const; GENPYBIND(setter_for(p, q)) void s1(int); };\n",
    "emit_no_getter5": "struct EmB%d { GENPYBIND(setter_for(p)) void s1(int); };\nstruct GENPYBIND(visible) Em%d : public EmB%d { using EmB%d::s1; };\n",
    "emit_no_getter6": "struct EmT%d { GENPYBIND(setter_for(p)) void s1(int); };\nstruct GENPYBIND(visible) Em%d { using T GENPYBIND(expose_here) = EmT%d; };\n",
    "emit_kwargs2": "namespace pybind11 { class args; class kwargs; }\nstruct GENPYBIND(visible) Em%d { int m(const pybind11::kwargs &, int); };\n",
    "emit_kwargs3": "namespace pybind11 { class args; class kwargs; }\nstruct GENPYBIND(visible) Em%d { Em%d(int, pybind11::kwargs, int); };\n",
    "emit_kwargs6": "namespace pybind11 { class args; class kwargs; }\nstruct GENPYBIND(visible) Em%d { int operator()(const pybind11::kwargs &, int); };\n",
    "emit_base_cycle3": "struct BcBase%d { int x = 0; };\nstruct GENPYBIND(visible) Bc%d : public BcBase%d { struct N { using B GENPYBIND(expose_here) = BcBase%d; }; };\n",
    "emit_base_cycle4": "struct BcX%d { int x = 0; };\nstruct GENPYBIND(visible) BcY%d : public BcX%d { int y = 0; };\nstruct GENPYBIND(visible) BcZ%d : public BcY%d { int z = 0; };\nstruct GENPYBIND(visible) BcW%d : public BcZ%d { struct N { using B GENPYBIND(expose_here) = BcX%d; }; };\nstruct GENPYBIND(visible) BcV%d : public BcW%d { enum E { v }; };\n",
    "moved_cycle3": "struct CyB%d; struct CyC%d; struct CyA%d { using A GENPYBIND(expose_here) = CyB%d; };\nstruct CyB%d { using A GENPYBIND(expose_here) = CyC%d; };\nstruct CyC%d { struct In { using A GENPYBIND(expose_here) = CyA%d; }; };\n",
    "moved_into_nested": "struct Cy%d { struct In { using A GENPYBIND(expose_here) = Cy%d; }; };\n",
    "moved_thrice": "struct Tg%d {}; struct GENPYBIND(visible) HoA%d { using A GENPYBIND(expose_here) = Tg%d; };\nstruct GENPYBIND(visible) HoB%d { using A GENPYBIND(encourage) = Tg%d; };\nnamespace hoc%d { using A GENPYBIND(expose_here) = Tg%d; }\n",
    "moved_twice_template": "template <typename T> struct Tg%d {}; using TgA%d GENPYBIND(expose_here) = Tg%d<int>;\nnamespace hoc%d { using A GENPYBIND(expose_here) = Tg%d<int>; }\n",
    "moved_twice_enum": "enum class Tg%d { a }; using TgA%d GENPYBIND(expose_here) = Tg%d;\nnamespace hoc%d { using A GENPYBIND(expose_here) = Tg%d; }\n",
    "moved_twice_same": "struct Tg%d {}; using TgA%d GENPYBIND(expose_here) = Tg%d;\nusing TgB%d GENPYBIND(expose_here) = Tg%d;\n",
    "ann_mismatch2": "namespace ann%d { struct GENPYBIND(visible) R {}; }\nnamespace ann%d GENPYBIND(visible) { struct Q {}; }\n",
    "ann_mismatch3": "namespace ann%d GENPYBIND(module) { struct GENPYBIND(visible) R {}; }\nnamespace ann%d GENPYBIND(module) { struct Q {}; }\nnamespace ann%d GENPYBIND(visible) { struct S {}; }\n",
    "ann_mismatch4": "namespace out%d { namespace ann GENPYBIND(visible) { struct R {}; } }\nnamespace out%d { namespace ann GENPYBIND(hidden) { struct S {}; } }\n",
    "ann_mismatch5": "namespace ann%d GENPYBIND(module(\"abc\")) { struct GENPYBIND(visible) R {}; }\nnamespace ann%d GENPYBIND(module(\"abd\")) { struct GENPYBIND(visible) S {}; }\n",
    "ann_friend": "struct GENPYBIND(visible) Fr%d { GENPYBIND(dynamic_attr) friend bool operator==(const Fr%d &, const Fr%d &); };\n",
    "ann_inherited": "struct Inh%d { Inh%d(int a); };\nstruct GENPYBIND(visible) Ind%d : Inh%d { GENPYBIND(dynamic_attr) using Inh%d::Inh%d; };\n",
    "ann_template_fn2": "template <typename T> GENPYBIND(dynamic_attr) int tfn%d(T a) { return 1; }\ntemplate int tfn%d<int>(int a);\n",
    "ann_template_member": "template <typename T> struct Tm%d { GENPYBIND(noconvert(nope)) int f(T a) { return 1; } };\ntemplate struct GENPYBIND(visible) Tm%d<int>;\n",
    "ann_template_member2": "template <typename T> struct Tm%d { GENPYBIND(module) int f(T a) { return 1; } };\nusing TmA%d GENPYBIND(encourage) = Tm%d<int>;\n",
    "ann_template_inst": "template <typename T> struct Tm%d { };\ntemplate struct GENPYBIND(module) Tm%d<int>;\n",
    "ann_template_spec": "template <typename T> struct Tm%d { };\ntemplate <> struct GENPYBIND(arithmetic) Tm%d<int> { };\n",
    "ann_template_nested": "template <typename T> struct Tm%d { struct N { GENPYBIND(getter_for(a)) void f() const; }; };\ntemplate struct GENPYBIND(visible) Tm%d<int>;\n",
    "ann_variable_manual": "namespace ann%d { GENPYBIND(manual, postamble) GENPYBIND_MANUAL({ (void)parent; }) }\n",
    "ann_two": "struct GENPYBIND(visible) GENPYBIND(nonsense) Tw%d {};\n",
    "ann_long": "struct GENPYBIND(visible, hidden, visible, expose_as(a), expose_as(b), hide_base, inline_base, dynamic_attr, arithmetic) Lo%d {};\n",
    "ann_empty2": "struct GENPYBIND(,) Lo%d {};\n",
    "ann_syntax4": "struct GENPYBIND(expose_as(\"a\")) GENPYBIND(visible)) Lo%d {};\n",
    "ann_syntax5": "struct GENPYBIND(visible;) Lo%d {};\n",
    "ann_syntax6": "struct GENPYBIND(123) Lo%d {};\n",
    "ann_syntax7": "struct GENPYBIND(hide_base(a b)) Lo%d {};\n",
    "ann_syntax9": "struct GENPYBIND(holder_type(std::shared_ptr<Lo>)) Lo%d {};\n",
    "ann_string": "struct __attribute__((annotate(\"◊\" \"expose_as(\\\"a\"))) Lo%d {};\n",
    "ann_visible_lambda": "inline auto la%d GENPYBIND(dynamic_attr) = [](int a) { return a; };\n",
    "sema_default": "template <typename T> struct Sd%d { int f(T a = T::nope) const { return 1; } };\ntemplate struct GENPYBIND(visible) Sd%d<int>;\n",
    "sema_body": "template <typename T> struct Sd%d { int f(T a) const { return a.nope; } };\nusing SdA%d GENPYBIND(encourage) = Sd%d<int>;\n",
    "sema_noexcept": "template <typename T> struct Sd%d { int f(T a) const noexcept(T::nope) { return 1; } };\nusing SdA%d GENPYBIND(encourage) = Sd%d<int>;\n",
    "sema_chain": "template <typename T> struct Sc%d { using B GENPYBIND(encourage) = typename T::nope; };\nusing SdA%d GENPYBIND(encourage) = Sc%d<int>;\n",
    "sema_nested": "template <typename T> struct SnI%d { T *f() { return T::nope; } };\ntemplate <typename T> struct Sn%d { using B GENPYBIND(encourage) = SnI%d<T>; };\nusing SdA%d GENPYBIND(encourage) = Sn%d<int>;\n",
    "sema_const": "inline int sc%d() { const int x = 0; x = 1; return x; }\n",
    "sema_recursion": "template <int N> struct Sr%d { static constexpr int v = Sr%d<N + 1>::v; };\nusing SrA%d GENPYBIND(encourage) = Sr%d<0>;\n",
    "pp_unbalanced": "#endif\n",
    "pp_macro": "#define PPM%d(x) #y\n",
    "alias_fn": "using Ann%d GENPYBIND(expose_here) = int(int);\n",
    "alias_ptr": "struct Tg%d {}; using Ann%d GENPYBIND(encourage) = Tg%d *;\n",
    "alias_ref": "struct Tg%d {}; using Ann%d GENPYBIND(expose_here) = Tg%d &;\n",
    "alias_dep": "template <typename T> struct Tg%d { using A GENPYBIND(encourage) = T; };\ntemplate struct GENPYBIND(visible) Tg%d<int>;\n",
    "alias_template": "template <typename T> using Ann%d GENPYBIND(dynamic_attr) = T;\n",
    "undef_alias2": "struct Unda%d;\nusing UndaA%d GENPYBIND(encourage) = Unda%d;\n",
    "undef_alias3": "enum class Unda%d : int;\nusing UndaA%d GENPYBIND(expose_here) = Unda%d;\n",
    "undef_alias4": "struct Und0%d; namespace undn%d { using UndaA%d GENPYBIND(expose_here) = Und0%d; }\nusing UndaB%d GENPYBIND(encourage) = Und0%d;\n",
    "alias_int": "using Ann%d GENPYBIND(dynamic_attr) = int;\n",
    "alias_int2": "using Ann%d GENPYBIND(expose_here, readonly) = int *;\n",
}


# Where a mistake may stand.
WRAPPERS = {
    "plain": "namespace wrp@ {\n%s}\n",
    "visible": "namespace wrp@ GENPYBIND(visible) {\n%s}\n",
    "module": "namespace wrp@ GENPYBIND(module) {\n%s}\n",
    "deep": "namespace wrp@ { namespace deep GENPYBIND(visible) { namespace deeper {\n%s} } }\n",
    "inline": "inline namespace wrp@ GENPYBIND(visible) {\n%s}\n",
    "extern": "extern \"C++\" {\n%s}\n",
    "reopened": "namespace wrp@ GENPYBIND(visible) { struct Fine@ { int x = 0; }; }\nnamespace wrp@ GENPYBIND(visible) {\n%s}\n",
    "struct": "struct GENPYBIND(visible) Wrp@ {\n%s};\n",
    "deepstruct": "namespace wrp@ GENPYBIND(visible) { struct Wrp { struct In {\n%s}; }; }\n",
    "template": "template <typename T@> struct Wrp@ {\n%s};\ntemplate struct GENPYBIND(visible) Wrp@<int>;\n",
    "aliastemplate": "template <typename T@> struct Wrp@ {\n%s};\nusing WrpA@ GENPYBIND(encourage) = Wrp@<int>;\n",
    "moved": "struct Wrp@ {\n%s};\nstruct GENPYBIND(visible) WrpO@ { using M GENPYBIND(expose_here) = Wrp@; };\n",
    "macro": "#define WRAP@(...) __VA_ARGS__\nWRAP@(\n%s)\n",
}
_IN_CLASS = ("struct", "deepstruct", "template", "aliastemplate", "moved")


def wrappers(name):
    """Wrappers in which the mistake stays one (and the rest is well-formed)."""
    text = mistake_text(name)
    if name.startswith("@") and not mistakes.compose(name[1:])[1]:
        return [w for w in WRAPPERS if w not in _IN_CLASS] if "pybind11" not in text and "::" not in text else []
    if "#" in text or "pybind11" in text or name.startswith(("pp_", "parse", "pragma", "sema_static")):
        return []
    if name in ("ann_empty2", "ann_string", "ann_syntax4"):
        return []
    if "namespace" in text or "GENPYBIND_MANUAL" in text or "inline_base(" in text or "extern " in text \
            or "friend" in text or "template <>" in text or "template struct" in text or "template int" in text \
            or name == "ann_argspec3" or "inline auto" in text:
        return [w for w in WRAPPERS if w not in _IN_CLASS]
    return list(WRAPPERS)


def wrap(text, wrapper, k):
    return WRAPPERS[wrapper].replace("@", str(k)).replace("%s", text)


def mistake_text(name):
    return mistakes.compose(name[1:])[0] if name.startswith("@") else MISTAKES_ALL[name]


def mistake(name, k):
    """A listed mistake, or a composed one ("@seed")."""
    t = mistake_text(name)
    return "// MISTAKE\n" + t.replace("%d", str(k))


# Every annotation on every kind of declaration: wrong kind of declaration, wrong
# number of arguments, wrong kind of argument (from the documented signatures).
CARRIERS = {
    "namespace": "namespace mx%d GENPYBIND(@) { struct GENPYBIND(visible) Q {}; }\n",
    "struct": "struct GENPYBIND(@) Mx%d {};\n",
    "enum": "enum GENPYBIND(@) Mx%d { mx_v%d };\n",
    "enum_class": "enum class GENPYBIND(@) Mx%d { v };\n",
    "alias": "struct MxT%d {}; using Mx%d GENPYBIND(@) = MxT%d;\n",
    "typedef": "struct MxT%d {}; typedef MxT%d Mx%d GENPYBIND(@);\n",
    "function": "inline int mx%d(int a) GENPYBIND(@);\n",
    "method": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) int m(int a = 1) const; };\n",
    "static_method": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) static int m(int a = 1); };\n",
    "constructor": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) Mx%d(int a); };\n",
    "operator": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) bool operator==(const Mx%d &a) const; };\n",
    "conversion": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) operator int() const; };\n",
    "field": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) int f = 0; };\n",
    "static_field": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) static int f; };\n",
    "variable": "extern int mx%d GENPYBIND(@);\n",
    "nested": "struct GENPYBIND(visible) MxO%d { struct GENPYBIND(@) Mx%d {}; };\n",
    "union": "union GENPYBIND(@) Mx%d { int a; float b; };\n",
    "instance": "template <typename T> struct Mx%d { T f; Mx%d(T a) {} };\ntemplate struct GENPYBIND(@) Mx%d<int>;\n",
    "specialization": "template <typename T> struct Mx%d { T f; };\ntemplate <> struct GENPYBIND(@) Mx%d<int> {};\n",
    "bitfield": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) int f : 3; };\n",
    "constant": "constexpr int mx%d GENPYBIND(@) = 1;\n",
    "alias_instance": "template <typename T> struct MxT%d { T x; };\nusing Mx%d GENPYBIND(@) = MxT%d<int>;\n",
    "alias_enum": "enum class MxT%d { a }; using Mx%d GENPYBIND(@) = MxT%d;\n",
    "alias_int": "using Mx%d GENPYBIND(@) = int;\n",
    "alias_template": "template <typename T> using Mx%d GENPYBIND(@) = T;\n",
    "template_method": "template <typename T> struct Mx%d { GENPYBIND(@) int m(T a) const { return 1; } };\nusing MxA%d GENPYBIND(encourage) = Mx%d<int>;\n",
    "virtual_method": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) virtual int m(int a) = 0; };\n",
    "copy_constructor": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) Mx%d(const Mx%d &a); };\n",
    "call": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) int operator()(int a); };\n",
    "free_operator": "struct GENPYBIND(visible) Mx%d { }; GENPYBIND(@) inline Mx%d operator+(const Mx%d &a, int b);\n",
    "friend_operator": "struct GENPYBIND(visible) Mx%d { GENPYBIND(@) friend bool operator==(const Mx%d &a, const Mx%d &b) { return true; } };\n",
    "nested_in_instance": "template <typename T> struct MxO%d { struct GENPYBIND(@) In { T x; }; };\ntemplate struct GENPYBIND(visible) MxO%d<int>;\n",
}
# behaves like this carrier
_LIKE = {"union": "struct", "instance": "struct", "specialization": "struct", "bitfield": "field",
         "constant": "variable", "alias_instance": "alias", "alias_enum": "alias", "alias_int": "",
         "alias_template": "", "template_method": "method", "virtual_method": "method",
         "copy_constructor": "constructor", "call": "operator", "free_operator": "operator",
         "friend_operator": "operator", "nested_in_instance": "nested"}
_FN = ("function", "method", "static_method", "constructor", "operator", "conversion")
# annotation -> (carriers, valid argument forms)
SIGNATURES = {
    "hidden": (tuple(CARRIERS), [""]),
    "visible": (tuple(CARRIERS), ["", "true", "false", "default"]),
    "expose_as": (tuple(CARRIERS), ["default", "name"]),
    "module": (("namespace",), ["", "name"]),
    "only_expose_in": (("namespace",), ["name", "name, name"]),
    "arithmetic": (("enum", "enum_class"), ["", "true", "false"]),
    "export_values": (("enum", "enum_class"), ["", "true", "false"]),
    "dynamic_attr": (("struct", "nested"), ["", "true", "false"]),
    "hide_base": (("struct", "nested"), ["", "name", "name, name"]),
    "inline_base": (("struct", "nested"), ["", "name", "name, name"]),
    "holder_type": (("struct", "nested"), ["name"]),
    "encourage": (("alias", "typedef"), [""]),
    "expose_here": (("alias", "typedef"), [""]),
    "return_value_policy": (_FN, ["name"]),
    "keep_alive": (_FN, None),
    "noconvert": (_FN, None),
    "required": (_FN, None),
    "getter_for": (("method", "static_method"), ["name", "name, name"]),
    "setter_for": (("method", "static_method"), ["name", "name, name"]),
    "implicit_conversion": (("constructor",), ["", "true", "false"]),
    "readonly": (("field", "static_field", "variable"), ["", "true", "false"]),
    "postamble": ((), []),
    "manual": ((), []),
}
ARG_FORMS = ["", "42", "true", "false", "default", "name", "\"two words\"", "name, 42", "name, true", "42, name",
             "name, name", "name, name, name", "true, false", "default, default", "\"\"", "\"1abc\""]
_IDENT = ("expose_as", "module", "getter_for", "setter_for")


def _matrix():
    out = {}
    for a, (carriers, valid) in SIGNATURES.items():
        for c in CARRIERS:
            for f in ARG_FORMS:
                text = a + ("(%s)" % f if f else "")
                if _LIKE.get(c, c) not in carriers:
                    if f in ("", "name", "true"):
                        out["mx:%s:%s" % (c, text)] = CARRIERS[c].replace("@", text)
                    continue
                if valid is None:
                    # "name" is no parameter of any carrier
                    out["mx:%s:%s" % (c, text)] = CARRIERS[c].replace("@", text)
                    continue
                norm = f
                if a not in _IDENT and f.startswith("\""):
                    norm = "name"
                if norm in valid or (norm == "name, name, name" and "name, name" in valid):
                    continue
                out["mx:%s:%s" % (c, text)] = CARRIERS[c].replace("@", text)
    return out


MATRIX = _matrix()
MISTAKES_ALL = dict(MISTAKES, **MATRIX)
NAMES = sorted(MISTAKES_ALL)


def mutate(rng, text):
    """Damage a header at the level of tokens and lines."""
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        toks = re.findall(r"\w+|\s+|[^\w\s]", text)
        if len(toks) < 2:
            break
        k, i = rng.randrange(9), rng.randrange(len(toks))
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, rng.choice(toks))
        elif k == 2:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k in (3, 4):
            ids = [x for x in range(len(toks)) if re.match(r"[A-Za-z_]\w{2,}$", toks[x])]
            if ids:
                a, b = rng.choice(ids), rng.choice(ids)
                toks[a] = toks[b]
        elif k in (5, 6):
            lines = text.split("\n")
            a = rng.randrange(len(lines))
            if k == 5:
                lines.insert(rng.randrange(len(lines)), lines[a])
            else:
                del lines[a]
            text = "\n".join(lines)
            continue
        else:
            marks = [x for x in range(len(toks) - 1) if toks[x] == "GENPYBIND"]
            if marks:
                x = rng.choice(marks)
                toks.insert(x + 2, rng.choice(sorted(SIGNATURES)) + rng.choice(["", "", "(name)", "(true)"]) + ", ")
        text = "".join(toks)
    return text
