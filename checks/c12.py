"""C12: the installed launcher is indistinguishable from running the tool."""
import copy, shutil, subprocess
from common import *
import pymod
import checks.c01 as c01

PROPERTY = "C12"
LEVEL = "exploration"
PLAN = {"quick": (900, 90), "thorough": (60000, 3600)}
RULE = ("A scenario is a history of 2-6 launches of the packaged entry point in one installation, with upgrades, removals, damage and "
        "repairs of the tool in between. Every launch has its own argument vector (bytes, not text), working directory, environment and "
        "locale, standard streams (files, closed), ignored signals, plan of the tool (exit status 0-255, death by signal, output, reading "
        "standard input), decoys of the same name on PATH and in the working directory, memory layout, and faults of fork and waitpid. "
        "The tool is a recording stand-in (now and then the real one); what it saw and how the launcher ended is compared with starting it "
        "directly. One launch is one evaluation; distinct by (state of the installation, launch).")
REAL = ["python/genpybind from /repo", "CPython 3.12", "genpybind-tool in a part of the launches"]
STUB = ["the tool (recording stand-in) in most launches", "fork and waitpid failures", "memory allocator, clock, pid of the interpreter"]
ASSUMPTIONS = ["LC_CTYPE as set by the interpreter itself (PEP 538) in the C locale is not counted as a difference",
               "the disposition of SIGCHLD in the tool is not compared"]

SCRIPT = """#!%s
# -*- coding: utf-8 -*-
import re
import sys
from genpybind import tool
if __name__ == '__main__':
    sys.argv[0] = re.sub(r'(-script\\.pyw|\\.exe)?$', '', sys.argv[0])
    sys.exit(tool())
"""

SPECIAL = [b"", b" ", b"--", b"-", b"-o", b"--help", b"a b", b"\"q\"", b"'", b"$HOME", b"*.h", b"`x`", b";", b"&", b"|", b"\\", b"\n", b"\t",
           b"@resp", b"-c", b"-m", b"\xff\xfe", b"\xc3\xa4", b"\xed\xb2\x80", b"=x", b"%s", b"{}", b"#", b"~", b"!", b"-h", b"--version", b"0"]


# names somebody may have reasons to treat specially
ENV_NAMES = ["CPATH", "C_INCLUDE_PATH", "CPLUS_INCLUDE_PATH", "LIBRARY_PATH", "CC", "CXX", "CFLAGS", "CXXFLAGS", "LDFLAGS",
             "MAKEFLAGS", "VIRTUAL_ENV", "CONDA_PREFIX", "TMP", "TEMP", "USER", "LOGNAME", "SHELL", "TERM", "COLUMNS",
             "NO_COLOR", "CLICOLOR_FORCE", "EDITOR", "DISPLAY", "OLDPWD", "PWD", "SHLVL", "_", "TZ", "SOURCE_DATE_EPOCH",
             "CCC_OVERRIDE_OPTIONS", "CCC_ADD_ARGS", "GENPYBIND", "GENPYBIND_TOOL", "GENPYBIND_FLAGS", "CMAKE_PREFIX_PATH",
             "DESTDIR", "XDG_CACHE_HOME", "LLVM_SYMBOLIZER_PATH", "SDKROOT", "CCACHE_DIR", "http_proxy"]


def argument(rng):
    k = rng.random()
    if k < 0.5:
        return rng.choice(SPECIAL)
    if k < 0.9:
        return bytes(rng.randrange(1, 256) for _ in range(rng.randrange(1, 12)))
    return bytes(rng.randrange(32, 127) for _ in range(rng.choice([100, 5000])))


def launch(rng):
    n = rng.choice([0, 1, 2, 3, 3, 5, 8, 60, 400]) if rng.random() < 0.9 else 2000
    args = [argument(rng) if n < 100 else b"a%d" % i for i in range(n)]
    l = {"do": "launch", "args": [a.decode("latin-1") for a in args], "out": rng.choice([0, 0, 1, 200, 5000]), "err": rng.choice([0, 0, 1, 200]),
         "stdin": rng.choice([None, None, 0, 10, 70000]), "cwd": rng.choice(["cwd", "cwd", "tmp", "out", "odd\udcff dir", "site", "site/bin"])}
    if rng.random() < 0.25:
        l["signal"] = int(rng.choice([signal.SIGKILL, signal.SIGSEGV, signal.SIGABRT, signal.SIGTERM, signal.SIGINT, signal.SIGPIPE, signal.SIGBUS,
                                      signal.SIGFPE, signal.SIGXCPU, signal.SIGHUP, signal.SIGUSR1, signal.SIGALRM]))
    else:
        l["exit"] = rng.choice([0, 0, 1, 1, 2, 3, 64, 126, 127, 128, 129, 130, 137, 200, 254, 255, rng.randrange(256)])
    env = {}
    if rng.random() < 0.5:
        env["LANG"] = rng.choice(["C", "POSIX", "C.UTF-8", "en_US.ISO-8859-1", "nonsense", ""])
    if rng.random() < 0.2:
        env["LC_ALL"] = rng.choice(["C", "C.UTF-8", "xx"])
    for _ in range(rng.choice([0, 0, 1, 3])):
        env["V%d" % rng.randrange(99)] = argument(rng).decode("latin-1")
    if rng.random() < 0.2:
        env[rng.choice(["PYTHONUTF8", "PYTHONOPTIMIZE", "PYTHONIOENCODING", "PYTHONUNBUFFERED", "PYTHONWARNINGS", "PYTHONSAFEPATH"])] = rng.choice(["1", "0", "ascii", "error"])
        if env.get("PYTHONUTF8") not in (None, "0", "1"):
            env.pop("PYTHONUTF8")
        if env.get("PYTHONIOENCODING") in ("error", "0", "1"):
            env["PYTHONIOENCODING"] = "ascii"
        if env.get("PYTHONWARNINGS") in ("0", "1", "ascii"):
            env["PYTHONWARNINGS"] = "error"
    if rng.random() < 0.5:
        for n in rng.sample(ENV_NAMES, rng.randrange(1, 12)):
            env[n] = rng.choice(["", "x", "/nowhere", "1", "a:b", "/usr/include"])
    l["env"] = env
    l["via"] = rng.choice(["script", "script", "script", "code", "relative"])
    if rng.random() < 0.15:
        l["ignored"] = sorted(int(s) for s in rng.sample([signal.SIGHUP, signal.SIGCHLD, signal.SIGINT, signal.SIGPIPE, signal.SIGTERM], rng.randrange(1, 3)))
    if rng.random() < 0.08:
        l["closed"] = [rng.choice([0, 0, 2])]
    l["decoys"] = rng.sample(["path", "cwd", "home", "pkg"], rng.choice([0, 1, 2]))
    l["sim"] = engine.random_sim(rng) if rng.random() < 0.5 else {}
    l["umask"] = rng.choice([0o22, 0o77, 0])
    if rng.random() < 0.2:
        l["faults"] = [rng.choice([{"sel": "fork:*", "nth": 0, "code": ERRNO, "arg": rng.choice([errno.EAGAIN, errno.ENOMEM]), "sticky": rng.random() < 0.7},
                                   {"sel": "waitpid:*", "nth": rng.choice([0, 0, 1]), "code": ERRNO, "arg": errno.EINTR}])]
    return l


STATES = ["missing", "notexec", "badformat", "empty", "directory", "dangling", "badshebang", "loop"]


def scenario(rng, i, tier):
    acts = []
    for k in range(rng.randrange(2, 6)):
        r = rng.random()
        if r < 0.28:
            acts.append({"do": "state", "state": rng.choice(STATES)})
        elif r < 0.5:
            acts.append({"do": "state", "state": rng.choice(["stub", "upgrade", "symlink", "real"])})
        acts.append(launch(rng))
    return {"acts": acts, "pkglink": rng.random() < 0.1}


def prepare(ctx):
    src = build.VERIF / "sim/stubtool.c"
    exe = build.BUILD / ("stubtool-" + digest(src.read_bytes()))
    if not exe.exists():
        tmp = str(exe) + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-static", "-o", tmp, str(src)], check=True)
        os.rename(tmp, exe)
    ctx.extra["stub"] = str(exe)


def parse_report(b):
    """-> list of runs; a run is a dict of lists."""
    runs, i = [], 0
    while i < len(b):
        j = b.index(b"\n", i)
        line = b[i:j]
        tag = line.split(b" ", 1)[0]
        if tag in (b"arg", b"env", b"cwd"):
            _, n, _rest = line.split(b" ", 2) if line.count(b" ") >= 2 else (tag, line.split(b" ")[1], b"")
            start = i + len(tag) + 1 + len(n) + 1
            runs[-1].setdefault(tag.decode(), []).append(b[start:start + int(n)])
            i = start + int(n) + 1
            continue
        if tag == b"run":
            runs.append({})
        else:
            runs[-1].setdefault("misc", []).append(line)
        i = j + 1
    return runs


def set_state(ctx, w, state):
    p = w.path("site/bin/genpybind-tool")
    if os.path.islink(p) or os.path.isfile(p):
        os.unlink(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)
    body = {"badformat": b"\x7fELFnot really", "empty": b"", "badshebang": b"#!/nowhere/interp\n", "notexec": None}
    if state in ("stub", "upgrade"):
        tmp = w.path("site/bin/.new")
        shutil.copy2(ctx.extra["stub"], tmp)
        os.rename(tmp, p)
    elif state == "symlink":
        shutil.copy2(ctx.extra["stub"], w.path("site/bin/tool-impl"))
        os.symlink("tool-impl", p)
    elif state == "real":
        shutil.copy2(ctx.built.tool, p)
    elif state == "notexec":
        shutil.copy2(ctx.extra["stub"], p)
        os.chmod(p, 0o644)
    elif state == "directory":
        os.makedirs(p)
    elif state == "dangling":
        os.symlink("gone", p)
    elif state == "loop":
        os.symlink("genpybind-tool", p)
    elif state != "missing":
        with open(p, "wb") as f:
            f.write(body[state])
        os.chmod(p, 0o755)


def raw(s):
    return s.encode("latin-1")


def run(ctx, sc):
    import core
    out = core.Outcome()
    w = World(sc["id"])
    try:
        os.makedirs(w.path("site/bin"))
        pkg = os.path.join(REPO, "python/genpybind")
        if sc["pkglink"]:
            shutil.copytree(pkg, w.path("elsewhere"), ignore=shutil.ignore_patterns("__pycache__"))
            os.symlink(w.path("elsewhere"), w.path("site/genpybind"))
        else:
            shutil.copytree(pkg, w.path("site/genpybind"), ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(w.path("scripts"))
        os.makedirs(w.path("pathdir"))
        os.makedirs(os.fsencode(w.path("odd")) + b"\xff dir")
        w.write("scripts/genpybind-tool", SCRIPT % pymod.PYTHON)
        state = "stub"
        set_state(ctx, w, state)
        hist = []
        for n, a in enumerate(sc["acts"]):
            if a["do"] == "state":
                state = a["state"]
                set_state(ctx, w, state)
                out.stats["probe:installation " + state] += 1
            else:
                one_launch(ctx, out, w, n, a, state, hist)
            hist.append(a if a["do"] == "state" else "launch")
            if out.violation:
                break
        out.sample = {"acts": [{k: (v if k != "args" else v[:5]) for k, v in a.items()} for a in sc["acts"]][:4]}
    finally:
        w.close()
    return out


def one_launch(ctx, out, w, n, a, state, hist):
    cwd = os.fsencode(w.path(*a["cwd"].split("/")))
    bind = os.path.dirname(w.path("site/bin/x"))
    for d, p in (("path", "pathdir"), ("cwd", None), ("home", "home"), ("pkg", "site/genpybind")):
        q = (cwd if p is None else os.fsencode(w.path(p))) + b"/genpybind-tool"
        if p is None and a["cwd"] == "site/bin":
            continue
        if os.path.lexists(q):
            os.unlink(q)
        if d in a["decoys"]:
            shutil.copy2(ctx.extra["stub"], q)
    plan = "out %d\nerr %d\nstdin %d\n" % (a["out"], a["err"], a["stdin"] is not None)
    plan += "signal %d\n" % a["signal"] if "signal" in a else "exit %d\n" % a["exit"]
    target = "site/bin/" + ("tool-impl" if state == "symlink" else "genpybind-tool")
    if state in ("stub", "upgrade", "symlink", "notexec"):
        w.write(target + ".plan", plan)
    env = {k: raw(v) for k, v in a["env"].items() if "\0" not in v}
    env = {k: os.fsdecode(v) for k, v in env.items()}
    env["PATH"] = w.path("pathdir") + ":/usr/local/bin:/usr/bin:/bin"
    env["PYTHONPATH"] = w.path("site")
    args = [os.fsdecode(raw(x)) for x in a["args"]]
    if state == "real":
        args = real_args(w, a)
    pre = {"script": [w.path("scripts/genpybind-tool")],
           "relative": [os.path.relpath(w.path("scripts/genpybind-tool"), os.fsdecode(cwd))],
           "code": ["-c", "import genpybind; genpybind.tool()"]}[a["via"]]
    if a["via"] == "relative":
        env["PYTHONPATH"] = os.path.relpath(w.path("site"), os.fsdecode(cwd))
    stdin = None
    if a["stdin"] is not None:
        w.write("io/stdin", bytes(i % 251 for i in range(a["stdin"])))
        stdin = os.open(w.path("io/stdin"), os.O_RDONLY)
    drop = ["LANG"] if "LANG" not in a["env"] and n % 2 else []
    old = os.umask(a["umask"])
    try:
        kw = dict(env=dict(env, PYTHONHASHSEED="0", PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1"), cwd=os.fsdecode(cwd),
                  stdin=stdin, closed=a.get("closed", ()), ignored=a.get("ignored", ()), drop_env=drop, umask=a["umask"])
        # the tool, started directly
        want = None
        if state in ("stub", "upgrade", "symlink", "real"):
            want = direct(ctx, w, "d%d" % n, args, kw, target, stdin)
        if stdin is not None:
            os.lseek(stdin, 0, os.SEEK_SET)
        w_report(w, target)
        p = Process(ctx.built, w, "l%d" % n, pre + args, sim=a["sim"], exe=pymod.PYTHON, **kw)
        fp = Plan(w, a.get("faults", []), [], out)
        run_to_end(p, fp)
        record(out, w, p)
    finally:
        os.umask(old)
        if stdin is not None:
            os.close(stdin)
    out.marks.add(digest(state, {k: v for k, v in a.items() if k != "sim"}))
    out.stats["probe:launch via " + a["via"]] += 1
    where = "launch %d (%s, %s)" % (n, state, a["via"])
    got = parse_report(w.read(target + ".report") or b"") if state != "real" else None
    for q in ("pathdir", None, "home", "site/genpybind"):
        d = (cwd if q is None else os.fsencode(w.path(q))) + b"/genpybind-tool.report"
        if q is None and a["cwd"] == "site/bin":
            continue
        if os.path.exists(d):
            out.fail("wrong-tool", "%s: ran %r instead of the tool next to the package" % (where, d))
            os.unlink(d)
    # CPython retries a failing vfork with fork
    forkfail = any(f[0] == "fork" for f in fp.fired) and \
        sum(f[0] == "fork" for f in fp.fired) >= sum(e.op == "fork" for e in p.events)
    if want is None or forkfail:
        if p.status == 0:
            out.fail("success-without-tool", "%s: exit 0 although the tool could not be run" % where)
        if got and not forkfail:
            out.fail("ran-anyway", where)
        return
    if want["status"] >= 0 and p.status != want["status"]:
        out.fail("status-differs", "%s: launcher exit %d, tool exit %d; %r" % (where, p.status, want["status"], p.stderr()[-300:]))
    if want["status"] < 0 and p.status == 0:
        out.fail("status-differs", "%s: launcher exit 0, tool killed by signal %d" % (where, -want["status"]))
    if 1 not in a.get("closed", ()) and p.stdout() != want["stdout"]:
        out.fail("stdout-differs", "%s: %s / %s" % (where, short(p.stdout()), short(want["stdout"])))
    if 2 not in a.get("closed", ()) and p.stderr() != want["stderr"]:
        out.fail("stderr-differs", "%s: %r / %r" % (where, p.stderr()[-200:], want["stderr"][-200:]))
    if state == "real":
        if w.snapshot(skip=("io", "site"))!= want["snap"]:
            out.fail("files-differ", where)
        return
    if len(got) != 1:
        out.fail("run-count", "%s: the tool ran %d times" % (where, len(got)))
        return
    g, x = got[0], want["report"]
    for key in ("arg", "cwd"):
        if g.get(key, []) != x.get(key, []):
            out.fail(key + "-differs", "%s: %r / %r" % (where, g.get(key, [])[:8], x.get(key, [])[:8]))
    ge, xe = envmap(g), envmap(x)
    if b"LC_CTYPE" not in xe:
        ge.pop(b"LC_CTYPE", None)
    if ge != xe:
        out.fail("env-differs", "%s: %r / %r" % (where, sorted(set(ge.items()) - set(xe.items()))[:4], sorted(set(xe.items()) - set(ge.items()))[:4]))
    # the interpreter gives the tool the default action for these two
    pipe = [b"ignored %d" % signal.SIGPIPE, b"ignored %d" % signal.SIGXFSZ]
    gm = g["misc"]
    xm = [l for l in x["misc"] if l not in pipe or l in gm]
    if gm != xm:
        out.fail("process-state-differs", "%s: %r / %r" % (where, [l for l in gm if l not in xm], [l for l in xm if l not in gm]))


def envmap(r):
    m = {}
    for e in r.get("env", []):
        k, _, v = e.partition(b"=")
        if not k.startswith((b"SIM_", b"LD_PRELOAD")):
            m[k] = v
    return m


def w_report(w, target):
    p = w.path(target + ".report")
    if os.path.exists(p):
        os.unlink(p)


def real_args(w, a):
    src = gen.install(w, {"blocks": ["struct GENPYBIND(visible) S%d { int x = 0;%s };\n" % (len(a["args"]), " int x;" if a.get("exit", 1) else "")]})
    return ["-o", w.path("out/m.cpp"), src] + FLAGS


def direct(ctx, w, name, args, kw, target, stdin):
    w_report(w, target)
    clear_odd(w)
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": w.path("home"), "TMPDIR": w.path("tmp"), "PYTHONDONTWRITEBYTECODE": "1"}
    env.update(kw["env"])
    for k in kw["drop_env"]:
        env.pop(k, None)
    # the very files the launched process will have
    so, se = w.path("io", "l" + name[1:] + ".stdout"), w.path("io", "l" + name[1:] + ".stderr")
    fo = os.open(so, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
    fe = os.open(se, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)

    def pre():
        os.umask(kw["umask"])
        for s in (signal.SIGPIPE, signal.SIGINT, signal.SIGTERM, signal.SIGHUP):
            signal.signal(s, signal.SIG_DFL)
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        for s in kw["ignored"]:
            signal.signal(s, signal.SIG_IGN)
        for fd in kw["closed"]:
            os.close(fd)
    p = subprocess.Popen([w.path("site/bin/genpybind-tool")] + args, env=env, cwd=kw["cwd"], stdin=stdin if stdin is not None else subprocess.DEVNULL,
                         stdout=fo, stderr=fe, preexec_fn=pre)
    os.close(fo)
    os.close(fe)
    status = p.wait(timeout=60)
    res = {"status": status, "stdout": open(so, "rb").read(), "stderr": open(se, "rb").read()}
    rep = w.read(target + ".report")
    if rep is not None:
        res["report"] = parse_report(rep)[0]
    res["snap"] = w.snapshot(skip=("io", "site"))
    clear_odd(w)
    return res


def clear_odd(w):
    shutil.rmtree(w.path("out"), ignore_errors=True)
    os.makedirs(w.path("out"))


def shrink(sc):
    yield from shrink_list(sc, "acts", 1)
    if sc["pkglink"]:
        yield with_(sc, pkglink=False)
    for i, a in enumerate(sc["acts"]):
        if a["do"] != "launch":
            continue
        for k, v in (("args", []), ("args", a["args"][:len(a["args"]) // 2]), ("args", a["args"][len(a["args"]) // 2:]), ("env", {}), ("decoys", []),
                     ("sim", {}), ("out", 0), ("err", 0), ("stdin", None), ("cwd", "cwd"), ("via", "script"), ("umask", 0o22)):
            if a[k] != v:
                c = copy.deepcopy(sc)
                c["acts"][i][k] = v
                yield c
        for k in ("ignored", "closed", "faults"):
            if k in a:
                c = copy.deepcopy(sc)
                del c["acts"][i][k]
                yield c
