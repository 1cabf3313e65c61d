"""Executes a list of operations on a generated module and reports, after each of
them, what is alive (runs inside the simulated interpreter)."""
import gc, importlib, json, sys

gc.disable()
sys.path.insert(0, sys.argv[1])
mod = importlib.import_module(sys.argv[2])
ops = json.load(open(sys.argv[3]))
out = open(sys.argv[4], "w")
slots = {}


def value(a):
    if a is None or isinstance(a, (int, str)):
        return a
    return slots[a[0]]


def lookup(name):
    x = mod
    for part in name.split("."):
        x = getattr(x, part)
    return x


def report(r, err):
    bad = 0
    doc = {"live": [mod.live_at(i) for i in range(mod.live_count())]}
    if r is not None and hasattr(r, "oid"):
        doc["oid"] = r.oid()
        if hasattr(r, "moid"):
            doc["moid"] = r.moid()
    doc["none"] = r is None
    doc["same"] = sorted(k for k, v in slots.items() if v is r) if r is not None else []
    doc["slots"] = {k: v.oid() for k, v in slots.items()}
    doc["errors"] = mod.errors()
    doc["err"] = err
    out.write(json.dumps(doc) + "\n")
    out.flush()


def step(op):
    r = err = None
    k = op[0]
    try:
        if k in ("call", "bad"):
            _, target, name, args, kwargs, dest = op
            if target is None:
                f = getattr(mod, name)
            elif isinstance(target, str):
                f = lookup(target) if name is None else getattr(lookup(target), name)
            else:
                f = getattr(slots[target[0]], name)
            r = f(*[value(a) for a in args], **{n: value(a) for n, a in kwargs.items()})
            del f
        elif k == "drop":
            del slots[op[1]]
        elif k == "ref":
            slots[op[2]] = slots[op[1]]
        elif k == "attr":
            slots[op[1]].extra = slots[op[2]]
        elif k == "delattr":
            del slots[op[1]].extra
        elif k == "getattr":
            r = slots[op[1]].extra
        elif k == "field":
            r = slots[op[1]].member
        elif k == "gc":
            for _ in range(50):
                if not gc.collect():
                    break
        elif k == "put":
            mod.vault_put(op[1], slots[op[2]])
        elif k == "get":
            r = mod.vault_get(op[1])
        elif k == "clear":
            mod.vault_clear(op[1])
    except Exception as e:
        err = type(e).__name__
        if k != "bad":
            err += ": " + str(e)
        e = None
    report(r, err)
    if op[-1] is not None and k in ("call", "get", "getattr", "field") and r is not None:
        slots[op[-1]] = r


mod.init_globals()
report(None, None)
for op in ops:
    step(op)
    # what the operation itself held on to is gone now
    report(None, None)
out.write("done\n")
out.close()
