"""Turns generated bindings into importable extension modules, and runs Python
inside the simulation."""
import fcntl, hashlib, json, os, pathlib, shutil, subprocess
import build, engine

CXX = "/usr/bin/clang++-18"
PYTHON = build.PYTHON
INCLUDES = ["-I/usr/include/python3.12"]
FLAGS = ["-std=c++17", "-fPIC", "-O0", "-g0", "-fvisibility=hidden", "-w"]
CACHE = build.BUILD / "pymods"


class CompileError(Exception):
    pass


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400,
                       env={"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "TMPDIR": "/tmp"})
    if r.returncode:
        raise CompileError("%s\n%s" % (" ".join(map(str, cmd)), r.stdout.decode("utf-8", "replace")[:3000]))


def pch():
    CACHE.mkdir(parents=True, exist_ok=True)
    out = CACHE / "pb.h.pch"
    with open(CACHE / ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not out.exists():
            (CACHE / "pb.h").write_text("#include <pybind11/pybind11.h>\n#include <pybind11/stl.h>\n")
            tmp = str(out) + ".tmp"
            _run([CXX] + FLAGS + INCLUDES + ["-x", "c++-header", str(CACHE / "pb.h"), "-o", tmp])
            os.rename(tmp, out)
    return out


SUFFIX = ".cpython-312-x86_64-linux-gnu.so"


def compile_module(name, files, incdir, dest, extra_key=""):
    """files: {name: text}; incdir: directory with the headers.  The shared object
    is cached by the text of everything that enters it."""
    h = hashlib.sha256()
    for root, dirs, fs in sorted(os.walk(str(build.REPO / "public"))):
        for f in sorted(fs):
            h.update(pathlib.Path(root, f).read_bytes())
    for f in sorted(os.listdir(incdir)):
        p = pathlib.Path(incdir, f)
        if p.is_file():
            h.update(f.encode() + b"\0" + p.read_bytes())
    for n in sorted(files):
        h.update(n.encode() + b"\0" + files[n].replace(str(incdir).encode(), b"@"))
    h.update(name.encode() + extra_key.encode() + repr(FLAGS).encode())
    cached = CACHE / (h.hexdigest()[:24] + ".so")
    dest = pathlib.Path(dest, name + SUFFIX)
    if not cached.exists():
        p = pch()
        work = pathlib.Path(str(dest) + ".work")
        shutil.rmtree(work, ignore_errors=True)
        work.mkdir(parents=True)
        try:
            objs = []
            for n, text in sorted(files.items()):
                src = work / n.replace(" ", "_")
                if src.suffix not in (".cpp", ".cc"):
                    src = src.with_suffix(".cpp")
                src.write_bytes(text)
                obj = src.with_suffix(".o")
                _run([CXX] + FLAGS + INCLUDES + ["-I", str(build.REPO / "public"), "-I", str(incdir), "-include-pch", str(p),
                                                  "-c", str(src), "-o", str(obj)])
                objs.append(str(obj))
            so = work / "m.so"
            _run([CXX, "-shared", "-o", str(so)] + objs)
            tmp = str(cached) + ".%d" % os.getpid()
            shutil.copy2(so, tmp)
            os.rename(tmp, cached)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    shutil.copy2(cached, dest)
    return dest


def python(ctx, world, name, script_args, sim=None, env=None, decide=None, flags=()):
    """The interpreter as a simulated process (seeded heap, virtual clock, no ASLR, fixed hash seed)."""
    e = {"PYTHONHASHSEED": "0", "PYTHONMALLOC": "malloc", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1"}
    e.update(env or {})
    p = engine.Process(ctx.built, world, name, list(flags) + list(script_args), sim=sim, env=e, exe=PYTHON)
    engine.run_to_end(p, decide)
    return p
