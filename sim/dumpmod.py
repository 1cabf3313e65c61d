"""Imports a module and prints everything it offers (runs inside the simulated interpreter)."""
import importlib, json, re, sys, types

sys.path.insert(0, sys.argv[1])
mod = importlib.import_module(sys.argv[2])
seen = {}


def norm(s):
    return None if s is None else re.sub(r"0x[0-9a-f]+", "0x", str(s))


def dump(o, path):
    if id(o) in seen:
        return "see " + seen[id(o)]
    if isinstance(o, types.ModuleType):
        seen[id(o)] = path
        if o is not mod and not o.__name__.startswith(mod.__name__ + "."):
            return "module " + o.__name__
        return [[k, dump(v, path + "." + k)] for k, v in vars(o).items()
                if k not in ("__file__", "__loader__", "__spec__", "__cached__", "__builtins__")]
    if isinstance(o, type):
        seen[id(o)] = path
        if not (o.__module__ or "").startswith(mod.__name__):
            return "type " + o.__module__ + "." + o.__qualname__
        return {"bases": [b.__module__ + "." + b.__qualname__ for b in o.__bases__], "doc": norm(o.__doc__),
                "dict": [[k, dump(v, path + "." + k)] for k, v in vars(o).items()]}
    if isinstance(o, (int, float, str, bool, type(None))):
        return repr(o)
    if isinstance(o, property):
        return ["property", norm(o.__doc__), o.fget and norm(o.fget.__doc__), o.fset and norm(o.fset.__doc__)]
    doc = getattr(o, "__doc__", None)
    return [type(o).__name__, norm(doc)]


res = {"module": dump(mod, mod.__name__)}
if hasattr(mod, "simlog_count"):
    res["marks"] = [mod.simlog_at(i) for i in range(mod.simlog_count())]
json.dump(res, sys.stdout)
