"""Simulated child processes: subprocess.Popen with programs that are functions, a simulated clock, and faults."""
import errno, os, resource, subprocess

SPAWN = ["ENOENT", "EACCES", "ENOMEM", "EAGAIN", "ENOEXEC", "preexec"]


class Hang(Exception):
    """Something waits without limit for a process that never ends."""


class Child:
    """What subprocess.Popen returns."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, *, text=None, encoding=None, errors=None, **kw):
        w = World.now
        self.args, self.world, self.returncode, self.killed = args, w, None, False
        self.text, self.encoding, self.errors = bool(universal_newlines or text or encoding or errors), encoding or "utf-8", errors or "strict"
        self.pid = 100000 + len(w.children)
        self.stdin = self.stdout = self.stderr = None
        argv = [os.fspath(a) for a in ([args] if isinstance(args, (str, bytes, os.PathLike)) else args)]
        self.argv, self.shell, self.start = argv, shell, w.time
        path = argv[0]
        kind, fault = w.fault(argv)
        if fault and fault[0] == "spawn" and fault[1] != "preexec":
            raise OSError(getattr(errno, fault[1]), os.strerror(getattr(errno, fault[1])), path)
        if os.sep not in path:
            import shutil
            path = shutil.which(path) or path
        if not os.path.exists(path): raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        self.limit = None
        if preexec_fn is not None:
            if fault and fault[0] == "spawn": raise subprocess.SubprocessError("Exception occurred in preexec_fn.")
            real = resource.setrlimit
            def record(what, lim): self.limit = lim[0]
            resource.setrlimit = record
            try: preexec_fn()
            except Exception: raise subprocess.SubprocessError("Exception occurred in preexec_fn.")
            finally: resource.setrlimit = real
        w.children.append(self)
        # the program runs to its end here; when the others see it end is a matter of simulated time
        rc, so, se, dur = w.program(kind, argv, self, fault[1:] if fault and fault[0] == kind else None)
        self.rc, self.so, self.se, self.end = rc, so, se, (None if dur is None else w.time + dur)
        self.pipe_out, self.pipe_err = stdout == subprocess.PIPE, stderr == subprocess.PIPE

    def _await(self, timeout):
        w = self.world
        if self.returncode is not None: return
        if self.killed:
            self.returncode = -9
            return
        if self.end is not None and (timeout is None or self.end <= w.time + timeout):
            w.time = max(w.time, self.end)
            self.returncode = self.rc
            return
        if timeout is None: raise Hang("waits forever for %s" % self.argv)
        w.time += timeout
        raise subprocess.TimeoutExpired(self.args, timeout)

    def _out(self, b):
        return b.decode(self.encoding, self.errors) if self.text else b

    def communicate(self, input=None, timeout=None):
        if self.returncode is None and not self.killed: self.waited = timeout
        self._await(timeout)
        so, se = (b"", b"") if self.killed else (self.so, self.se)
        return (self._out(so) if self.pipe_out else None, self._out(se) if self.pipe_err else None)

    def wait(self, timeout=None):
        self._await(timeout)
        return self.returncode

    def poll(self):
        if self.returncode is None and (self.killed or (self.end is not None and self.end <= self.world.time)):
            self.returncode = -9 if self.killed else self.rc
        return self.returncode

    def kill(self):
        if self.returncode is None: self.killed = True

    terminate = kill

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class World:
    """with World(program, kinds, faults): ...

    program(kind, argv, child, fault) -> (exit status, stdout, stderr, seconds or None for never); kinds(argv) -> name of the kind of call;
    faults: {(kind, number): ("spawn", how) or (kind, ...)}."""
    now = None

    def __init__(self, program, kinds, faults=()):
        self.program, self.kinds, self.faults = program, kinds, dict(faults)
        self.count, self.children, self.fired, self.time, self.hard = {}, [], [], 0.0, 0

    def fault(self, argv):
        k = self.kinds(argv)
        n = self.count.get(k, 0)
        self.count[k] = n + 1
        f = self.faults.get((k, n))
        if f:
            self.fired.append((k, n) + tuple(f))
            if f[0] == "spawn": self.hard += 1
        return k, f

    def __enter__(self):
        self.saved = subprocess.Popen
        World.now = self
        subprocess.Popen = Child
        return self

    def __exit__(self, *a):
        subprocess.Popen = self.saved
        World.now = None
        return False

    def left(self):
        """Processes that nobody ended or waited for."""
        return [c.argv for c in self.children if c.returncode is None]
