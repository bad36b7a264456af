"""In-process C2PO under simulated surroundings."""
import contextlib, io, os, shutil, sys, tempfile
from . import cbuild

_loaded = {}


def c2po():
    """Import the compiler from the current working tree of /repo (once per process)."""
    if not _loaded:
        sys.dont_write_bytecode = True
        sys.pycache_prefix = os.path.join(cbuild.CACHE, "no-pycache")  # never trust compiled files lying around
        p = os.path.join(cbuild.REPO, "compiler")
        if p not in sys.path:
            sys.path.insert(0, p)
        import c2po.main, c2po.log, c2po.cpt, c2po.command
        _loaded.update(main=c2po.main, log=c2po.log, cpt=c2po.cpt, command=c2po.command)
    return _loaded


class Scratch:
    """A private scratch directory, removed on exit."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="dstc-", dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def reset_globals():
    m = c2po()
    log = m["log"]
    log.log_level = 0
    log.suppress_warnings = False
    log.enable_quiet = False
    log.current_command_name = None


class Session:
    """A command session (REPL or script) against the real command console."""

    def __init__(self, d):
        m = c2po()
        reset_globals()
        self.d = d
        self.con = m["main"].CommandConsole()
        self.con.context.script_filename = os.path.join(d, "session")

    def cmd(self, line):
        """Run one command; returns (stdout, stderr, is_error) where is_error = this command set an error code."""
        C = c2po()["command"].ReturnCode
        saved = self.con.return_code
        self.con.return_code = C.SUCCESS
        o, e = io.StringIO(), io.StringIO()
        exited = None
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            try:
                self.con.runsource(line)
            except SystemExit as x:
                exited = x.code
        this = self.con.return_code
        if this == C.SUCCESS:
            self.con.return_code = saved
        self.last = this
        self.exited = exited
        return o.getvalue(), e.getvalue(), this != C.SUCCESS


class CompileError(Exception):
    def __init__(self, where, err):
        self.where, self.err = where, err
        super().__init__("%s: %s" % (where, err[:400]))


DEFAULT_OPTS = {"rewrite": True, "cse": True, "extops": False, "aux": False, "scq": 0}


def map_text(sigs, ids=None):
    return "".join("%s:%d\n" % (n, i if ids is None else ids[i]) for i, (n, t) in enumerate(sigs))


def compile_lines(src, mapf, out, opts, bz, suffix="c2po"):
    o = dict(DEFAULT_OPTS)
    o.update(opts or {})
    L = []
    if bz: L.append("enable_booleanizer")
    if o.get("mission") is not None: L.append("set_mission_time %d" % o["mission"])
    L.append("parse_%s %s" % (suffix, src))
    if mapf: L.append("parse_map %s" % mapf)
    L += ["type_check", "desugar"]
    if o["rewrite"]: L.append("optimize_rewrites")
    L += o.get("passes", [])
    if not o["extops"]: L.append("remove_extended_operators")
    if o["cse"]: L.append("optimize_cse")
    L += ["multi_operators_to_binary", "remove_extended_operators",
          "assemble %s --no-print %s %s" % ("--aux" if o["aux"] else "--no-aux", "--scq-constant %d" % o["scq"] if o["scq"] else "", out)]
    return L


def compile_text(d, text, sigs, opts=None, bz=False, ids=None, more=(), tag="s", suffix="c2po", usemap=True, session=None):
    """Compile with the CLI's command sequence; returns (binary, session). Raises CompileError."""
    src, mp, out = (os.path.join(d, tag + x) for x in ("." + suffix, ".map", ".bin"))
    with open(src, "w", encoding="utf-8", newline="") as f: f.write(text)
    with open(mp, "w") as f: f.write(map_text(sigs, ids))
    if os.path.exists(out): os.unlink(out)
    s = session or Session(d)
    for line in compile_lines(src, mp if usemap else None, out, opts, bz, suffix):
        o, e, bad = s.cmd(line)
        if bad:
            raise CompileError(line.split()[0], e or o)
    for line in more:
        o, e, bad = s.cmd(line)
        if bad:
            raise CompileError(line.split()[0], e or o)
    with open(out, "rb") as f:
        return f.read(), s
