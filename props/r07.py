"""R07: an input or output failure of the command line program is never mistaken for a shorter trace or a complete result."""
from dst import c2, gen, mon, msim, ref
from dst.core import Out, h16
from . import r03, r04

LEVEL = "fault_enumeration"
COUNTS = {"quick": 9000, "thorough": 120000}
RULE = ("one run = a random specification and trace through the real command line program twice: undisturbed, then with one or two injected failures "
        "(trace read fails at a random byte with a random errno, specification file cannot be accessed/opened/measured/mapped, is empty or missing, trace cannot be "
        "opened, an output write fails permanently or once at a random byte, the output close fails), under random read splitting and output buffering; "
        "the verdicts that did come out must be a prefix of the undisturbed output (before the first failed write), and unless the output is complete "
        "and everything was read, the program must exit non-zero with a message; non-trivial = a fault fired; distinct = by (faults, output, code edges)")
MEASURE = "hash of faults fired, output and code edges reached"
REAL = r03.REAL
STUB = r03.STUB
ASSUME = ["a failure to close the (fully read) specification file only needs a warning, as the program documents"]
cleanup = msim.cleanup
ERRNO = {"EIO": 5, "EAGAIN": 11, "ENOSPC": 28, "EPIPE": 32, "ENOMEM": 12, "EACCES": 13, "EMFILE": 24, "EINTR": 4, "ESTALE": 116, "EISDIR": 21}


def prepare(tier):
    msim.prepare("plain", "big")


def gen_run(r, i, tier):
    p = r04.gen_run(r, i, tier)
    p["wide"] = 0
    p["rows"] = p["rows"][:60]
    if p["header"]: p["header"] = p["header"][:600]
    L = len(r04.text_of(p))
    fl = []
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.choice(["read", "read", "read", "write", "write", "write", "wclose", "sys", "sys", "missing", "empty", "topen"])
        if k == "read": fl.append([k, r.randrange(0, L + 1), r.choice(["EIO", "EAGAIN", "EINTR", "ESTALE", "EISDIR"])])
        elif k == "write": fl.append([k, r.random(), r.choice([-1, -1, 1, 1, 2, 3]), r.choice(["ENOSPC", "EIO", "EPIPE", "EAGAIN"])])
        elif k == "wclose": fl.append([k, r.choice(["ENOSPC", "EIO"])])
        elif k == "sys": fl.append([k, r.choice(["access", "open", "fstat", "mmap", "close"]), r.choice(["EACCES", "EMFILE", "ENOMEM", "EIO"])])
        elif k == "topen": fl.append([k, r.choice(["access", "open"]), r.choice(["EACCES", "EMFILE", "EIO"])])
        else: fl.append([k])
    p["faults"] = fl
    return p


def execute(plan):
    o = Out()
    try: b, s = msim.compile_plan(plan)
    except msim.Skip:
        o.nontrivial = False; return o
    except c2.CompileError as e:
        return o.fail("spec-rejected", e)
    hx = r04.text_of(plan).encode().hex()
    d = msim.driver(msim.pick(b))
    quiet = d.run(["file s.bin " + b.hex(), "file t.csv " + hx, "arg s.bin", "arg t.csv", "cli"])
    if quiet.fault: return o.fail("monitor-" + quiet.fault[0], quiet.fault[1])
    if quiet.rc != 0: return o.fail("exit-status", "exit %d without any fault" % quiet.rc)
    name = "<stdin>" if plan["stdin"] else "t.csv"
    fl = plan["faults"]
    kinds = {f[0] for f in fl}
    L = [] if "missing" in kinds else ["file s.bin " + ("" if "empty" in kinds else b.hex())]
    L.append("file %s %s" % (name, hx))
    if plan["chunks"]: L.append("chunks %s %s" % (name, " ".join(map(str, plan["chunks"]))))
    sink = [-1, 0, 0, 0]
    fatal = []      # faults that make the result incomplete for certain
    wfail = None
    for f in fl:
        if f[0] == "read": L.append("rerr %s %d %d" % (name, f[1], ERRNO[f[2]]))
        elif f[0] == "write":
            wfail = int(f[1] * (len(quiet.out) + 1)); sink[0:3] = [wfail, f[2], ERRNO[f[3]]]
        elif f[0] == "wclose": sink[3] = ERRNO[f[1]]
        elif f[0] == "sys" and "missing" not in kinds:
            L.append("serr s.bin %s %d" % (f[1], ERRNO[f[2]]))
        elif f[0] == "topen" and not plan["stdin"]: L.append("serr t.csv %s %d" % (f[1], ERRNO[f[2]]))
    L += ["sink %d %d %d %d %d" % (*sink, plan["obuf"]), "arg s.bin"] + ([] if plan["stdin"] else ["arg t.csv"]) + ["cli"]
    run = d.run(L)
    o.stats["sim:trace_rows"] += 2 * len(plan["rows"])
    if run.fault: return o.fail("monitor-" + run.fault[0], run.fault[1])
    nread, nwrite, nchunk, nsys, nw = run.fired
    o.stats["fault:trace_read_error"] += nread
    o.stats["fault:output_write_or_close_error"] += nwrite
    o.stats["fault:specification_or_trace_open_error"] += nsys
    o.stats["fault:specification_missing_or_empty"] += bool(kinds & {"missing", "empty"})
    o.stats["fault:read_split"] += nchunk
    # what came out before the first failing write is a prefix of the undisturbed output
    n = len(run.out) if wfail is None or nwrite == 0 else min(wfail, len(run.out))
    if run.out[:n] != quiet.out[:n]:
        k = next(k for k in range(n) if k >= len(quiet.out) or run.out[k] != quiet.out[k])
        return o.fail("not-a-prefix", "output differs from the undisturbed run at byte %d: %r vs %r" % (k, run.out[max(0, k - 20):k + 20], quiet.out[max(0, k - 20):k + 20]))
    other = [f for f in fl if (f[0] == "sys" and f[1] != "close") or (f[0] == "topen" and not plan["stdin"])]
    hit = nread or nwrite or (nsys and other) or kinds & {"missing", "empty"}
    what = ", ".join(" ".join(map(str, f)) for f in fl)
    if hit and run.rc == 0:
        return o.fail("silent-failure", "exit 0 after %s; output %d of %d bytes" % (what, len(run.out), len(quiet.out)))
    if hit and not run.err.strip():
        return o.fail("no-message", "exit %d without any message after %s" % (run.rc, what))
    if not hit and (run.rc != 0 or run.out != quiet.out):
        return o.fail("spurious-failure", "exit %d, output %d of %d bytes although no fault fired (%s)" % (run.rc, len(run.out), len(quiet.out), what))
    o.sig = h16([fl, run.out.hex(), run.cov[2], run.rc])
    o.nontrivial = bool(hit)
    return o


def shrink(plan):
    if len(plan["faults"]) > 1:
        for k in range(len(plan["faults"])): yield dict(plan, faults=plan["faults"][:k] + plan["faults"][k + 1:])
    yield from r04.shrink(plan)
    for k, f in enumerate(plan["faults"]):
        if f[0] == "read":
            for v in (0, f[1] // 2, f[1] - 1):
                if 0 <= v < f[1]: yield dict(plan, faults=plan["faults"][:k] + [[f[0], v, f[2]]] + plan["faults"][k + 1:])
