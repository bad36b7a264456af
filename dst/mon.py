"""Client of the C simulation driver: turns a run script into a parsed event history."""
import subprocess


class HarnessError(Exception):
    """The simulator itself failed (never a property violation)."""


class Driver:
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def _start(self):
        import os
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=88:allocator_may_return_null=1:symbolize=1:fast_unwind_on_malloc=1",
                   UBSAN_OPTIONS="print_stacktrace=1:exitcode=89:halt_on_error=1")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def run(self, lines, budget=20_000_000):
        """Execute one simulated run in a forked child; returns Run."""
        if self.p is None or self.p.poll() is not None:
            self._start()
        s = ("budget %d\n" % budget + "\n".join(lines) + "\n").encode()
        try:
            self.p.stdin.write(b"RUN %d\n" % len(s) + s)
            self.p.stdin.flush()
            h = self.p.stdout.readline().split()
            if len(h) != 3:
                raise HarnessError("driver died")
            n = int(h[2])
            out = self.p.stdout.read(n)
        except (BrokenPipeError, ValueError) as e:
            self.p = None
            raise HarnessError("driver: %r" % e)
        return Run(int(h[1]), out)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


class Run:
    """History of a run: .events is the list of (kind, ...) tuples in order; .fault is None or a
    (class, detail) describing memory error / hang / crash of the system under test."""

    def __init__(self, status, raw):
        self.raw = raw
        self.status = status
        self.events = []
        self.out = self.err = self.rc = self.fired = self.cov = None
        self.fault = None
        extra = []
        for line in raw.decode("utf-8", "backslashreplace").split("\n"):
            k = line.split(" ", 1)[0]
            if k == "V":
                _, m, f, t, v = line.split()
                self.events.append(("V", int(m), int(f), int(t), int(v)))
            elif k == "O":
                _, m, txt = line.split(" ", 2)
                self.events.append(("O", int(m), txt))
            elif k in ("R", "L", "C"):
                _, m, r, t = line.split()
                self.events.append((k, int(m), int(r), int(t)))
            elif k == "OUT":
                self.out = bytes.fromhex(line[4:])
            elif k == "ERR":
                self.err = bytes.fromhex(line[4:])
            elif k == "RC":
                self.rc = int(line.split()[1])
            elif k == "FIRED":
                self.fired = [int(x) for x in line.split()[1:]]
            elif k == "COV":
                a = line.split()
                self.cov = (int(a[1]), int(a[2]), a[3], int(a[4]))
            elif k == "HANG":
                self.fault = ("hang", "no progress within %s basic blocks" % line.split()[1])
            elif k == "BADOP":
                raise HarnessError("bad op " + line)
            elif line:
                extra.append(line)
        if self.status != 0 and self.fault is None:
            import os, re
            if os.WIFSIGNALED(status):
                self.fault = ("crash", "signal %d" % os.WTERMSIG(status))
            else:
                code = os.WEXITSTATUS(status)
                txt = "\n".join(extra)
                m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]+)", txt)
                frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/src/([\w/.]+:\d+)", txt)
                self.fault = ("memory" if code in (88, 89) else "exit%d" % code,
                              ((m.group(1) if m else txt[:300]) + " at " + " < ".join("%s %s" % f for f in frames[:3])))
        if self.fault is None and self.cov is None:
            raise HarnessError("run produced no summary: " + raw.decode("utf-8", "replace")[:500])
        self.extra = extra

    def verdicts(self, m=0):
        return [e[2:] for e in self.events if e[0] == "V" and e[1] == m]
