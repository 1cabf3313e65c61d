#!/usr/bin/env python3
"""Compiler launcher: objects keyed by the preprocessed source (a mini ccache).
Only makes rebuilding unchanged files cheap; a changed file is compiled."""
import hashlib, os, subprocess, sys

def main():
    cmd = sys.argv[1:]
    cache = os.environ.get("VERIF_OBJCACHE")
    if not cache or "-c" not in cmd or "-o" not in cmd:
        os.execvp(cmd[0], cmd)
    out = cmd[cmd.index("-o") + 1]
    pp, skip = [], False
    mf = None
    i = 0
    while i < len(cmd):
        a = cmd[i]
        if a in ("-o", "-MF", "-MT"):
            if a == "-MF":
                mf = cmd[i + 1]
            i += 2
            continue
        if a in ("-c", "-MD"):
            i += 1
            continue
        pp.append(a)
        i += 1
    # -MF/-MT must still be produced for ninja: let the preprocessor do it.
    extra = ["-MD", "-MT", out, "-MF", mf] if mf else []
    r = subprocess.run(pp + ["-E"] + extra, stdout=subprocess.PIPE)
    if r.returncode:
        os.execvp(cmd[0], cmd)
    h = hashlib.sha256()
    h.update("\0".join(x for x in pp).encode())
    h.update(os.getcwd().encode())
    h.update(r.stdout)
    st = os.stat(os.path.realpath(cmd[0])) if os.path.exists(cmd[0]) else None
    h.update(repr(st and (st.st_size, cmd[0])).encode())
    os.makedirs(cache, exist_ok=True)
    obj = os.path.join(cache, h.hexdigest()[:32] + ".o")
    if os.path.exists(obj):
        with open(obj, "rb") as f, open(out, "wb") as g:
            g.write(f.read())
        os.utime(obj)
        return 0
    rc = subprocess.call(cmd)
    if rc == 0:
        tmp = obj + ".%d" % os.getpid()
        with open(out, "rb") as f, open(tmp, "wb") as g:
            g.write(f.read())
        os.rename(tmp, obj)
    return rc

sys.exit(main())
