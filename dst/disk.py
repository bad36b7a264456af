"""A simulated disk under a directory: every open, read, write and close there goes through it and may meet a fault."""
import builtins, errno, io, os, tempfile

HARD = {"open": ["ENOSPC", "EACCES", "EMFILE", "EIO", "ENOENT"], "read": ["EIO", "CORRUPT"], "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"], "close": ["EIO", "ENOSPC"],
        "mkdir": ["ENOSPC", "EACCES"], "unlink": ["EACCES", "EBUSY"]}
SOFT = {"read": ["SHORT"], "write": ["SHORT"]}


class Crash(BaseException):
    """The process ends here."""


def oserror(name, path):
    e = getattr(errno, name)
    return OSError(e, os.strerror(e), str(path))


class Raw(io.FileIO):
    """File descriptor level of one file."""

    def __init__(self, disk, path, mode, opener=None):
        self.disk, self.mode_, self.pending, self.trouble = disk, mode, None, False
        super().__init__(path, mode, opener=opener)

    def _name(self):
        return self.name

    def write(self, b):
        d = self.disk
        if d.dead: return len(b)
        b = bytes(b)
        if self.pending:
            f, self.pending = self.pending, None
            raise oserror(f, self.name)
        f = d.next("write", self.name)
        if f is None: return super().write(b)
        kind, part = f
        n = int(part * len(b))
        if kind == "SHORT":
            return super().write(b[:max(1, n)])
        if n: super().write(b[:n])
        if kind == "CRASH": d.crash()
        if not n: raise oserror(kind, self.name)
        self.pending = kind
        return n

    def _read(self, n):
        d = self.disk
        f = d.next("read", self.name)
        if f is None: return super().read(n)
        kind, part = f
        if kind == "SHORT": return super().read(max(1, int(part * n)))
        if kind == "CRASH": d.crash()
        if kind == "CORRUPT":
            b = bytearray(super().read(n))
            if b:
                b[int(part * len(b))] = 0xFF  # never part of a text
                d.hard = True
            return bytes(b)
        raise oserror(kind, self.name)

    def readinto(self, buf):
        b = self._read(len(buf))
        buf[:len(b)] = b
        return len(b)

    def readall(self):
        out = []
        while True:
            b = self._read(4096)
            if not b: return b"".join(out)
            out.append(b)

    def read(self, n=-1):
        return self.readall() if n is None or n < 0 else self._read(n)

    def close(self):
        if self.closed: return
        d = self.disk
        f = None
        if not d.dead and any(c in self.mode_ for c in "wax+"): f = d.next("close", self.name)
        super().close()
        if f:
            if f[0] == "CRASH": d.crash()
            raise oserror(f[0], self.name)


class Disk:
    """with Disk(root, faults): ...   faults: [[operation, number, kind, part], ...], numbers count from 0 per operation."""

    def __init__(self, root, faults=()):
        self.root, self.faults = os.path.realpath(root), {(o, n): (k, p) for o, n, k, p in faults}
        self.count, self.fired, self.hard, self.wrote, self.dead = {}, [], False, set(), False

    def mine(self, path):
        try: return os.path.realpath(os.fspath(path)).startswith(self.root + os.sep)
        except (TypeError, ValueError): return False

    def next(self, op, path):
        n = self.count.get(op, 0)
        self.count[op] = n + 1
        f = self.faults.get((op, n))
        if f:
            self.fired.append((op, f[0], os.path.basename(str(path))))
            if f[0] not in ("SHORT", "CRASH", "CORRUPT"): self.hard = True
        return f

    def crash(self):
        self.dead = True
        raise Crash()

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(path, int) or not (self.mine(path) or opener) or self.dead:
            return self._open(path, mode, buffering, encoding, errors, newline, closefd, opener)
        if opener is None:
            f = self.next("open", path)
            if f:
                if f[0] == "CRASH": self.crash()
                raise oserror(f[0], path)
        raw = Raw(self, path, mode.replace("b", "").replace("t", ""), opener)
        w = any(c in mode for c in "wax+")
        if w: self.wrote.add(os.path.realpath(os.fspath(raw.name)) if isinstance(raw.name, str) else str(raw.name))
        if buffering == 0: return raw
        size = 4096
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size) if w else io.BufferedReader(raw, size)
        if "b" in mode: return buf
        t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        t.mode = mode
        return t

    def _os(self, op, real):
        def call(path, *a, **k):
            if self.mine(path) and not self.dead:
                f = self.next(op, path)
                if f:
                    if f[0] == "CRASH": self.crash()
                    raise oserror(f[0], path)
            return real(path, *a, **k)
        return call

    def __enter__(self):
        self._open, self._ioopen, self._mkdir, self._unlink, self._tmp = builtins.open, io.open, os.mkdir, os.unlink, tempfile.tempdir
        builtins.open = io.open = self.open
        os.mkdir, os.unlink = self._os("mkdir", self._mkdir), self._os("unlink", self._unlink)
        tempfile.tempdir = os.path.join(self.root, "tmp")
        return self

    def __exit__(self, *a):
        builtins.open, io.open, os.mkdir, os.unlink, tempfile.tempdir = self._open, self._ioopen, self._mkdir, self._unlink, self._tmp
        return False
