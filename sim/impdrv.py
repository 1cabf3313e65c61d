"""Performs imports and calls and reports what happened (runs inside the simulated interpreter)."""
import gc, importlib, json, os, sys, warnings

sys.path.insert(0, sys.argv[1])
ops = json.load(open(sys.argv[2]))
out = open(sys.argv[3], "w")
mods = {}


def chain(e):
    res, seen = [], []
    while e is not None and e not in seen:
        seen.append(e)
        res.append([type(e).__name__, str(e)])
        e = e.__cause__ or e.__context__
    return res


def lookup(m, path):
    o = mods[m]
    for p in path:
        o = getattr(o, p)
    return o


def step(op):
    doc = {}
    k = op[0]
    if k == "import":
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter(op[2])
            try:
                mods[op[1]] = importlib.import_module(op[1])
            except Exception as e:
                doc["exc"] = chain(e)
                e = None
        doc["warnings"] = [[w.category.__name__, str(w.message)] for w in rec]
    elif k == "forget":
        sys.modules.pop(op[1], None)
    elif k in ("hide", "unhide"):
        here, away = [os.path.join(d, op[1] + sys.argv[5]) for d in (sys.argv[1], sys.argv[4])]
        src, dst = (here, away) if k == "hide" else (away, here)
        if os.path.exists(src):
            os.rename(src, dst)
        importlib.invalidate_caches()
    elif k == "gc":
        gc.collect()
    elif k == "alias":
        _, m, path, m2, path2 = op
        try:
            v = lookup(m, path)
            doc["none"] = v is None
            if m2 is not None:
                doc["same"] = v is lookup(m2, path2)
        except Exception as e:
            doc["exc"] = chain(e)
            e = None
    elif k == "call":
        _, m, path, args = op
        try:
            a = []
            for x in args:
                if x is None:
                    a.append(None)
                else:
                    t = lookup(x[0], x[1])
                    a.append(t(x[2]) if x[2] is not None else t())
            f = lookup(m, path)
            r = f(*a)
            doc["value"] = r if isinstance(r, int) and type(r) is int else (r.get() if hasattr(r, "get") else int(r))
        except Exception as e:
            doc["exc"] = chain(e)
            e = None
    elif k == "var":
        try:
            r = lookup(op[1], op[2])
            doc["value"] = r.get() if hasattr(r, "get") else int(r)
        except Exception as e:
            doc["exc"] = chain(e)
            e = None
    out.write(json.dumps(doc) + "\n")
    out.flush()


for op in ops:
    step(op)
out.write("done\n")
out.close()
