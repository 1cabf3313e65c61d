"""Builds what the simulation runs: the real tool from /repo's working tree and
the preload shim.  Everything lands in /verif/build (ignored by git)."""
import fcntl, hashlib, os, pathlib, shutil, subprocess, sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / "build"
LLVM = "/usr/lib/llvm-18"
PYTHON = "/opt/vp/pyenv/bin/python"


class BuildError(Exception):
    pass


def _env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("SIM_", "CPATH", "C_INCLUDE", "CPLUS_INCLUDE"))}
    env["PATH"] = ("/opt/vp/pyenv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:"
                   "/usr/bin:/sbin:/bin")
    env.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++", LANG="C.UTF-8",
               PYTHONDONTWRITEBYTECODE="1")
    env["VERIF_OBJCACHE"] = str(BUILD / "objcache")
    return env


def _run(cmd, cwd=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(map(str, cmd)),
                                     r.stdout.decode("utf-8", "replace")[-4000:]))
    return r.stdout


def source_files():
    tops = ["CMakeLists.txt", "src", "include", "public", "tools", "python"]
    out = []
    for t in tops:
        p = REPO / t
        if p.is_file():
            out.append(p)
        elif p.is_dir():
            out += [f for f in sorted(p.rglob("*"))
                    if f.is_file() and "__pycache__" not in f.parts]
    return out


def source_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(str(f.relative_to(REPO)).encode() + b"\0")
        h.update(hashlib.sha256(f.read_bytes()).digest())
    h.update((VERIF / "sim/shim.c").read_bytes())
    return h.hexdigest()[:20]


class Built:
    def __init__(self, tool, shim, key):
        self.tool, self.shim, self.key = str(tool), str(shim), key


def build():
    """Build (or reuse an identical earlier build of) tool and shim."""
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        shim_hash = hashlib.sha256((VERIF / "sim/shim.c").read_bytes()).hexdigest()[:16]
        shim = BUILD / ("libsim-%s.so" % shim_hash)
        if not shim.exists():
            tmp = shim.with_suffix(".tmp%d" % os.getpid())
            _run(["gcc", "-O2", "-fPIC", "-shared", "-fvisibility=hidden",
                  "-o", str(tmp), str(VERIF / "sim/shim.c"), "-ldl"])
            os.rename(tmp, shim)
        key = source_hash()
        alt = "" if str(REPO) == "/repo" else "alt%s-" % hashlib.sha256(str(REPO).encode()).hexdigest()[:8]
        dest = BUILD / (alt + "tool-" + key)
        tool = dest / "genpybind-tool"
        if not tool.exists():
            work = BUILD / (alt + "work")
            _run(["cmake", "-S", str(REPO), "-B", str(work), "-G", "Ninja",
                  "-DCMAKE_BUILD_TYPE=Debug",
                  "-DCMAKE_CXX_FLAGS_DEBUG=-O0 -g0",
                  "-DClang_DIR=%s/lib/cmake/clang" % LLVM,
                  "-DLLVM_DIR=%s/lib/cmake/llvm" % LLVM,
                  "-DPython_EXECUTABLE=" + PYTHON,
                  "-DLIT_COMMAND=/opt/vp/pyenv/bin/lit",
                  "-DFILECHECK_COMMAND=%s/bin/FileCheck" % LLVM,
                  "-DCMAKE_CXX_COMPILER_LAUNCHER=%s;%s" % (
                      sys.executable, VERIF / "sim/objcache.py")])
            _run(["ninja", "-C", str(work), "genpybind-tool"])
            for old in BUILD.glob(alt + "tool-*"):
                if old != dest:
                    shutil.rmtree(old, ignore_errors=True)
            dest.mkdir(exist_ok=True)
            tmp = dest / "tmp"
            shutil.copy2(work / "genpybind-tool", tmp)
            os.rename(tmp, tool)
        return Built(tool, shim, key)


if __name__ == "__main__":
    b = build()
    print(b.tool, b.shim)
