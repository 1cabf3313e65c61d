"""Reads generated files: declarations, module body, definitions."""
import re

DEF = re.compile(r"^void (expose_\w+)\((.*)\) \{$")
DECL = re.compile(r"^void (expose_\w+)\((.*)\);$")
INTRO = re.compile(r"^auto (\w+) = (.*);$")
CALL = re.compile(r"^(expose_\w+)\((\w+)\);$")
MODULE = re.compile(r"^PYBIND11_MODULE\((\w+), (\w+)\) \{$")


class Parsed:
    def __init__(self):
        self.includes = []
        self.items = []        # ("decl", name, params) / ("def", name, params, body) / ("module", name, body lines)
        self.other = []        # lines that belong to nothing

    def of(self, kind):
        return [i for i in self.items if i[0] == kind]


def parse(text):
    if isinstance(text, bytes):
        text = text.decode("utf-8", "surrogateescape")
    out = Parsed()
    cur = None
    for line in text.split("\n"):
        m = DEF.match(line)
        if m:
            cur = ["def", m.group(1), m.group(2), []]
            out.items.append(cur)
            continue
        m = DECL.match(line)
        if m:
            out.items.append(["decl", m.group(1), m.group(2)])
            cur = None
            continue
        m = MODULE.match(line)
        if m:
            cur = ["module", m.group(1), m.group(2), []]
            out.items.append(cur)
            continue
        if cur is not None:
            cur[3].append(line)
        elif line.startswith("#include"):
            out.includes.append(line)
        elif line.strip():
            out.other.append(line)
    for i in out.items:
        if i[0] in ("def", "module"):
            while i[3] and not i[3][-1].strip():
                i[3].pop()
    return out


def template_args(text):
    """Top-level arguments of the first <...> in text."""
    i = text.index("<")
    depth, cur, res = 0, "", []
    for ch in text[i:]:
        if ch in "<([":
            depth += 1
            if depth == 1:
                continue
        elif ch in ">)]":
            depth -= 1
            if depth == 0:
                break
        if ch == "," and depth == 1:
            res.append(cur.strip())
            cur = ""
        else:
            cur += ch
    res.append(cur.strip())
    return res


def squeeze(t):
    return t.replace(" ", "")


def introducers(body):
    """[(identifier, kind, type, bases and holder, parent, name)] of a module body."""
    res = []
    for line in body:
        m = INTRO.match(line)
        if not m:
            continue
        ident, expr = m.group(1), m.group(2)
        kind = typ = parent = name = None
        bases = []
        if expr.startswith(("::pybind11::class_<", "::pybind11::enum_<")):
            kind = "class" if "class_<" in expr[:20] else "enum"
            args = template_args(expr)
            typ, bases = squeeze(args[0]), [squeeze(a) for a in args[1:]]
            # constructor call: the text after the matching >
            depth = 0
            for k, ch in enumerate(expr):
                if ch == "<":
                    depth += 1
                elif ch == ">":
                    depth -= 1
                    if depth == 0:
                        break
            m2 = re.match(r"\((\w+), \"([^\"]*)\"", expr[k + 1:])
            if m2:
                parent, name = m2.group(1), m2.group(2)
        else:
            m2 = re.match(r"^(\w+)\.def_submodule\(\"([^\"]*)\"", expr)
            if m2:
                kind, parent, name = "module", m2.group(1), m2.group(2)
            else:
                kind, parent = "alias", expr
        res.append((ident, kind, typ, bases, parent, name))
    return res
