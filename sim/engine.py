"""The scheduler side of the simulator.

A *world* is a scratch directory with a reproducible name.  A *process* is the
real tool under the preload shim; it is parked at every event (a system call on
a path of the world, or on stdout/stderr) until the scheduler answers.  All
choices come from the scenario (a JSON value), so a scenario is one execution.
"""
import ctypes, hashlib, json, os, random, shutil, signal, socket, struct, subprocess, time

GO, ERRNO, SHORT, KILL, SIG, GO_KILL, GO_SIG, ALLOC, TORN_KILL, GO_ERRNO = range(10)
CODE_NAMES = ["go", "errno", "short", "kill", "signal", "go+kill", "go+signal",
              "alloc-fail", "torn-write+kill", "go+errno"]

SCRATCH_BASE = "/tmp/gpb-sim"
CTL_FD = 200
ADDR_NO_RANDOMIZE = 0x0040000
_libc = ctypes.CDLL(None)

RUN_TIMEOUT = 120.0      # of real time, only as a last resort
CPU_LIMIT = 20           # seconds of processor time; a run takes a fraction of one


class Hang(Exception):
    pass


class Event:
    __slots__ = ("seq", "op", "path", "path2", "a", "b", "allocs", "hash")

    def __init__(self, line):
        f = line.split("\t")
        self.seq = int(f[0])
        self.op, self.path, self.path2 = f[1], f[2], f[3]
        self.a, self.b, self.allocs = int(f[4]), int(f[5]), int(f[6])
        self.hash = f[7]

    def key(self, root):
        return (self.op, self.path.replace(root, "@"), self.path2.replace(root, "@"))

    def __repr__(self):
        return "%d %s %s %s %d" % (self.seq, self.op, self.path, self.path2, self.a)


def make_out(root):
    for d in ("out", "out/d1", "out/d1/deep", "out/d2"):
        os.makedirs(os.path.join(root, d), exist_ok=True)


class World:
    """Scratch directory whose name is a function of the run id only."""

    def __init__(self, run_id):
        self.id = run_id
        self.root = os.path.join(SCRATCH_BASE, run_id)
        shutil.rmtree(self.root, ignore_errors=True)
        for d in ("src", "out", "cwd", "io", "home", "tmp"):
            os.makedirs(os.path.join(self.root, d))
        make_out(self.root)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def write(self, rel, text, mtime=None):
        p = self.path(rel)
        data = text if isinstance(text, bytes) else text.encode()
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        if mtime is not None:
            os.utime(p, (mtime, mtime))
        return p

    def read(self, rel):
        try:
            with open(self.path(rel), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None
        except IsADirectoryError:
            return b"<dir>"

    def snapshot(self, skip=("io",)):
        """path -> (kind, mode, content) of everything in the world."""
        out = {}
        for base, dirs, files in os.walk(self.root):
            rel = os.path.relpath(base, self.root)
            if rel.split(os.sep)[0] in skip:
                continue
            for d in dirs:
                q = os.path.normpath(os.path.join(rel, d))
                if q.split(os.sep)[0] not in skip:
                    out[q] = ("d", None, None)
            for f in files:
                q = os.path.normpath(os.path.join(rel, f))
                full = os.path.join(base, f)
                if os.path.islink(full):
                    out[q] = ("l", None, os.readlink(full))
                else:
                    st = os.stat(full)
                    with open(full, "rb") as fh:
                        out[q] = ("f", st.st_mode & 0o7777, fh.read())
        return out

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


class Process:
    """One simulated run of the tool."""

    def __init__(self, built, world, name, argv, sim=None, env=None, cwd=None,
                 exe=None, extra_roots=(), stdout=None, stderr=None, stdin=None,
                 closed=(), ignored=(), drop_env=(), umask=0o022):
        sim = dict(sim or {})
        self.world, self.name = world, name
        self.exe = exe or built.tool
        self.event = None
        self.events = []
        self.decisions = []       # (event index, code, arg) other than GO
        self.status = None
        self.alloc_hash = None
        self.steps = 0
        parent, child = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock = parent
        self.buf = b""
        e = {
            "PATH": "/usr/local/bin:/usr/bin:/bin",
            "LANG": "C.UTF-8",
            "HOME": world.path("home"),
            "TMPDIR": world.path("tmp"),
            "PYTHONDONTWRITEBYTECODE": "1",
        }
        e.update(env or {})
        e.update({
            "LD_PRELOAD": built.shim,
            "SIM_FD": str(CTL_FD),
            "SIM_EXE": os.path.realpath(self.exe),
            "SIM_ROOTS": ":".join([world.root] + list(extra_roots)),
            "SIM_HEAP": str(sim.get("heap", 0)),
            "SIM_MISC": str(sim.get("misc", 1)),
            "SIM_INO": str(sim.get("ino", 0)),
            "SIM_ENV": str(sim.get("env", 0)),
            "SIM_CLOCK": str(sim.get("clock", 1700000000 * 10**9)),
            "SIM_CLOCK_STEP": str(sim.get("clock_step", 1000)),
            "SIM_PID": str(sim.get("pid", 4242)),
            "SIM_HOST": str(sim.get("host", "sim")),
            "SIM_ALLOC_FAIL": str(sim.get("alloc_fail", 0)),
        })
        for k in drop_env:
            e.pop(k, None)
        if sim.get("stack_pad"):
            e["SIM_PAD"] = "x" * int(sim["stack_pad"])
        self.stdout_path = stdout or world.path("io", name + ".stdout")
        self.stderr_path = stderr or world.path("io", name + ".stderr")
        so = os.open(self.stdout_path, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
        se = os.open(self.stderr_path, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
        cfd = child.fileno()

        def pre():
            os.dup2(cfd, CTL_FD)
            os.set_inheritable(CTL_FD, True)
            _libc.personality(ADDR_NO_RANDOMIZE)
            os.umask(umask)
            for s in (signal.SIGPIPE, signal.SIGINT, signal.SIGTERM, signal.SIGHUP):
                signal.signal(s, signal.SIG_DFL)
            # keep a runaway program from eating the machine
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            for s in ignored:
                signal.signal(s, signal.SIG_IGN)
            for fd in closed:
                os.close(fd)

        self.popen = subprocess.Popen(
            [self.exe] + list(argv), env=e, cwd=cwd or world.path("cwd"),
            stdin=stdin if stdin is not None else subprocess.DEVNULL, stdout=so, stderr=se, preexec_fn=pre,
            close_fds=False)
        os.close(so)
        os.close(se)
        child.close()
        self.sock.settimeout(RUN_TIMEOUT)
        self._next()

    # -- protocol
    def _next(self):
        while b"\n" not in self.buf:
            try:
                d = self.sock.recv(65536)
            except socket.timeout:
                self.abort()
                raise Hang(self.name)
            except ConnectionResetError:
                d = b""
            if not d:
                self._reap()
                return
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        self.event = Event(line.decode("utf-8", "surrogateescape"))
        self.alloc_hash = self.event.hash
        self.events.append(self.event)

    def _reap(self):
        self.event = None
        self.sock.close()
        try:
            rc = self.popen.wait(timeout=RUN_TIMEOUT)
        except subprocess.TimeoutExpired:
            self.abort()
            raise Hang(self.name)
        if rc == -signal.SIGXCPU:
            raise Hang("%s: does not end" % self.name)
        self.status = rc

    def abort(self):
        try:
            self.popen.kill()
            self.popen.wait()
        except Exception:
            pass
        self.sock.close()

    @property
    def done(self):
        return self.status is not None

    @property
    def index(self):
        """Index of the event the process is parked at."""
        return len(self.events) - 1

    def step(self, code=GO, arg=0):
        if code != GO:
            self.decisions.append((self.index, code, arg))
        self.steps += 1
        try:
            self.sock.sendall(b"%d %d\n" % (code, arg))
        except (BrokenPipeError, ConnectionResetError):
            pass
        self._next()

    def stdout(self):
        with open(self.stdout_path, "rb") as f:
            return f.read()

    def stderr(self):
        with open(self.stderr_path, "rb") as f:
            return f.read()


def run_to_end(proc, decide=None, observe=None, limit=200000):
    """Drive one process; decide(proc, event) -> (code, arg) or None."""
    while not proc.done:
        if observe:
            observe(proc)
        d = decide(proc, proc.event) if decide else None
        if d is None:
            proc.step()
        else:
            proc.step(*d)
        if proc.steps > limit:
            proc.abort()
            raise Hang("%s: more than %d events" % (proc.name, limit))
    if observe:
        observe(proc)
    return proc


def faults_decider(faults):
    """faults: list of [event index, code, arg] (or dict index -> ...)."""
    table = {int(f[0]): (int(f[1]), int(f[2])) for f in faults}

    def decide(proc, ev):
        return table.get(proc.index)
    return decide


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode("utf-8", "surrogateescape")
        elif not isinstance(p, (bytes, type(None))):
            p = json.dumps(p, sort_keys=True, default=repr).encode()
        h.update(b"\xff" if p is None else b"\x01" + struct.pack("<Q", len(p)) + p)
    return h.hexdigest()[:16]


SIM_ENV_KINDS = ("heap", "misc", "ino", "clock", "pid", "stack_pad", "host")


def random_sim(rng):
    return {
        "heap": rng.getrandbits(48) | 1,
        "misc": rng.getrandbits(48) | 1,
        "ino": rng.getrandbits(30),
        "clock": rng.choice([0, 1, 10**9, 86399 * 10**9, 1700000000 * 10**9,
                             2**31 * 10**9, 4102444800 * 10**9]) + rng.randrange(10**9),
        "clock_step": rng.choice([0, 1, 1000, 10**9, 3600 * 10**9]),
        "pid": rng.choice([2, 77, 4242, 32767, 99999, 4194303]),
        "stack_pad": rng.choice([0, 0, 7, 64, 1000, 9000]),
        "host": rng.choice(["sim", "builder-17", "x"]),
    }
