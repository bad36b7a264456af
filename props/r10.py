"""R10: a specification that is incomplete, does not fit or is not implemented is refused or reported, never monitored in part."""
import os, struct
from dst import c2, gen, msim, ref
from dst.core import Out, h16
from . import r03

LEVEL = "fault_enumeration"
COUNTS = {"quick": 6000, "thorough": 90000}
RULE = ("one run = a random specification and history, and one of: the specification file torn at several random bytes and at each record boundary around them, run by the command line "
        "program (plain or with name records); a monitor whose limits are those of the bounds file, or smaller in one or two of them (separately guarded arrays, sanitizers), "
        "loading it through the library, then a specification that fits; the binary assembled with operators the monitor does not implement. Either everything is as with the whole "
        "specification (verdicts of the reference, byte-identical output), or it is refused or stopped with a non-success status (and a message from the program), and nothing of a refused "
        "specification is monitored; what fits is never refused; non-trivial = something was refused; distinct = by (faults, outcome, code edges)")
MEASURE = "hash of faults, outcomes and code edges reached"
REAL = r03.REAL
STUB = r03.STUB + ["array declarations (heap blocks of the chosen sizes) where limits are varied"]
ASSUME = ["a torn file is shorter than the whole one; blocks of a file overwritten with other contents are outside (the format has no checksum)"]
cleanup = msim.cleanup
UNIMPL = {0b11011, 0b11010, 0b01011, 0b01010, 0b10100, 0b10001}


def prepare(tier):
    msim.prepare("plain", "aux", "asan", "auxasan", "rt", "auxrt")


def gen_run(r, i, tier):
    mode = r.choice(["torn", "torn", "limits", "limits", "ext"])
    p = gen.spec(r, depth=r.choice([1, 2, 2, 3]), maxf=3)
    p["mode"] = mode
    p["opts"] = {"rewrite": r.random() < .7, "cse": r.random() < .7, "aux": r.random() < .5, "scq": r.choice([0, 0, 0, 1])}
    p["asan"] = r.random() < .3
    p["rows"] = gen.rows(r, p["sigs"], r.choice([1, 3, 8, 20]))
    if mode == "torn": p["cuts"] = [r.random() for _ in range(5)]
    if mode == "limits": p["cut"] = [[r.choice([k for k in msim.BOUNDS if k not in ("FORMULAS", "CONTRACTS")]), r.random()] for _ in range(r.choice([0, 1, 1, 1, 2]))]
    if mode == "ext": p["cli"] = r.random() < .5
    return p


def boundaries(b):
    """Offsets at which a record of the binary starts or a string of it ends."""
    at, L = 0, []
    while at < len(b) and (at == 0 or b[at]) and b[at]:
        at += b[at]; L.append(at)
    return L + [k for k in range(at, len(b))]


def execute(plan):
    o = Out()
    d0 = msim.scratch()
    bf = os.path.join(d0, "b.h")
    if os.path.exists(bf): os.unlink(bf)
    mode = plan["mode"]
    o.stats["mode:" + mode] += 1
    try:
        if mode == "ext": b = extended(plan, d0)
        else: b, s = c2.compile_text(d0, gen.spec_text(plan), plan["sigs"], plan["opts"], plan["bz"], more=["write_bounds_c " + bf])
    except c2.CompileError as e:
        if "found constant formula" in e.err:
            o.nontrivial = False; return o
        return o.fail("spec-rejected", e)
    F = msim.formulas(plan)
    R = ref.Ref(plan["rows"], len(plan["rows"]) + 1)
    try: vals = [R.val(f) for _, f in F]
    except ref.Undefined:
        o.nontrivial = False; return o
    o.stats["sim:monitor_steps"] += len(plan["rows"])
    o.nontrivial = False
    return {"torn": torn, "limits": limits, "ext": ext}[mode](plan, o, b, bf, F, vals)


def csv(plan):
    return "".join(",".join(gen.fl(v) if plan["sigs"][c][1] == "float" else str(v) for c, v in enumerate(row)) + "\n" for row in plan["rows"])


def torn(plan, o, b, bf, F, vals):
    if not msim.fits(b, msim._B["limits"]):
        return o
    aux = plan["opts"]["aux"]
    D = msim.driver(("aux" if aux else "") + ("asan" if plan["asan"] else "") or "plain")
    cli = lambda x: D.run(["file s.bin " + x.hex(), "file t.csv " + csv(plan).encode().hex(), "arg s.bin", "arg t.csv", "cli"])
    whole = cli(b)
    if whole.fault: return o.fail("monitor-" + whole.fault[0], whole.fault[1])
    if whole.rc: return o.fail("whole-refused", "exit %d: %r" % (whole.rc, whole.err[-200:]))
    if not aux:
        evs = r03.parse_out(whole.out, len(F), o)
        if evs is not None: msim.judge(F, vals, len(plan["rows"]), evs, o, late=False)
        if o.viol: return o
    bs = boundaries(b)
    cuts = set()
    for c in plan["cuts"]:
        k = int(c * len(b)); cuts.add(k)
        cuts.add(bs[int(c * len(bs))])
    sig = [whole.cov[2]]
    for k in sorted(c for c in cuts if 0 <= c < len(b)):
        run = cli(b[:k])
        o.stats["fault:specification_torn"] += 1
        if run.fault: return o.fail("monitor-" + run.fault[0], "torn at byte %d of %d: %s" % (k, len(b), run.fault[1]))
        if run.rc:
            if run.out: return o.fail("part-monitored", "torn at byte %d of %d: refused with exit %d, but reported %r" % (k, len(b), run.rc, run.out[:200]))
            if not run.err.strip(): return o.fail("no-message", "torn at byte %d of %d: exit %d without a message" % (k, len(b), run.rc))
            o.nontrivial = True
            o.stats["refused"] += 1
        elif run.out != whole.out:
            return o.fail("part-monitored", "torn at byte %d of %d: exit 0, but the output differs: %r instead of %r" % (k, len(b), run.out[:200], whole.out[:200]))
        sig.append([run.rc, run.cov[2]])
    o.sig = h16(sig)
    return o


def limits(plan, o, b, bf, F, vals):
    with open(bf) as f: bounds = msim.parse_bounds(f.read())
    small = dict(bounds)
    for k, x in plan["cut"]:
        n = msim.bound_name(k)
        small[n] = int(x * bounds[n])
    aux = plan["opts"]["aux"]
    width = small["R2U2_MAX_SIGNALS" if msim.binary_needs(b)["bz"] else "R2U2_MAX_ATOMICS"]
    one, s = c2.compile_text(msim.scratch(), "INPUT\n  z: bool;\nFTSPEC\n  z;\n", [["z", "bool"]], {"rewrite": False}, False, tag="one")
    L = [msim.alloc_line(0, small), "spec 0 " + b.hex(), "spec 1 " + one.hex(), "cb 0 1", "load 0 0"]
    feed = []
    for row in plan["rows"]:
        feed += [msim.deliver(0, plan["sigs"], c, v, typed=True) for c, v in enumerate(row) if c < width]
        feed.append("step 0")
    run = msim.driver("auxrt" if aux else "rt").run(L)
    if run.fault: return o.fail("monitor-" + run.fault[0], "limits %s: %s" % (plan["cut"], run.fault[1]))
    refused = run.events[-1][2] != 0
    o.stats["refused" if refused else "accepted"] += 1
    for k, _ in plan["cut"]: o.stats["fault:limit_" + k] += 1
    if refused and not plan["cut"]: return o.fail("whole-refused", "a specification that fits the bounds written for it was refused (status %d)" % run.events[-1][2])
    # a refused specification must leave nothing behind: no verdict, and what fits is monitored
    room = all(small[msim.bound_name(k)] >= n for k, n in (("TL_INSTRUCTIONS", 2), ("QUEUE_SLOTS", 4), ("ATOMICS", 1), ("SIGNALS", 1), ("AUX_BYTES", 1), ("FORMULAS", 1), ("CONTRACTS", 1)))
    L += feed if not refused else ["step 0", "step 0"]
    if refused and room: L += ["load 0 1", "b 0 0 1", "step 0", "b 0 0 0", "step 0"]
    run = msim.driver("auxrt" if aux else "rt").run(L)
    if run.fault: return o.fail("monitor-" + run.fault[0], "limits %s: %s" % (plan["cut"], run.fault[1]))
    o.sig = h16([plan["cut"], refused, run.cov[2]])
    if refused:  # the program built with these limits
        run2 = msim.driver("auxrt" if aux else "rt").run([L[0], "file s.bin " + b.hex(), "file t.csv " + csv(plan).encode().hex(), "arg s.bin", "arg t.csv", "cli"])
        if run2.fault: return o.fail("monitor-" + run2.fault[0], "limits %s: %s" % (plan["cut"], run2.fault[1]))
        if not run2.rc or run2.out or not run2.err.strip():
            return o.fail("part-monitored", "the library refuses it for limits %s, the program exits %d with output %r, message %r" % (plan["cut"], run2.rc, run2.out[:200], run2.err[-200:]))
    if not refused:
        if not plan["cut"] or len(plan["sigs"]) <= width:
            msim.judge(F, vals, len(plan["rows"]), [e for e in run.events if e[0] in "VR"], o)
        return o
    o.nontrivial = True
    loads = [k for k, e in enumerate(run.events) if e[0] == "L"]
    a = run.events[loads[0]:loads[1]] if room else run.events[loads[0]:]
    if any(e[0] == "V" for e in a): return o.fail("part-monitored", "refused for limits %s, yet verdicts: %s" % (plan["cut"], [e for e in a if e[0] == "V"][:5]))
    if room:
        if run.events[loads[1]][2]: return o.fail("whole-refused", "a fitting specification was refused after one that does not fit (limits %s)" % plan["cut"])
        got = [e[2:] for e in run.events[loads[1]:] if e[0] == "V"]
        if got != [(0, 0, 1), (0, 1, 0)]: return o.fail("wrong-verdict", "after a refused specification: %s" % got)
    return o


def extended(plan, d):
    """The binary with implication, xor, F, G, O and H left in."""
    src, mp, out = (os.path.join(d, "e" + x) for x in (".c2po", ".map", ".bin"))
    with open(src, "w") as f: f.write(gen.spec_text(plan))
    with open(mp, "w") as f: f.write(c2.map_text(plan["sigs"]))
    if os.path.exists(out): os.unlink(out)
    s = c2.Session(d)
    for line in (["enable_booleanizer"] if plan["bz"] else []) + ["parse_c2po " + src, "parse_map " + mp, "type_check", "desugar"] + \
            (["optimize_rewrites"] if plan["opts"]["rewrite"] else []) + (["optimize_cse"] if plan["opts"]["cse"] else []) + ["multi_operators_to_binary", "assemble --no-aux --no-print " + out]:
        e = s.cmd(line)
        if e[2]: raise c2.CompileError(line.split()[0], e[1] or e[0])
    with open(out, "rb") as f: return f.read()


def unimplemented(b):
    at, n = b[0], 0
    while b[at]:
        ins = b[at:at + b[at]]
        at += b[at]
        if ins[1] == msim.ENG_TL and (struct.unpack_from("<IIIBBB", ins, 2)[5] in UNIMPL): n += 1
    return n


def ext(plan, o, b, bf, F, vals):
    n = unimplemented(b)
    o.stats["fault:unimplemented_instruction"] += n
    if not msim.fits(b, msim._B["limits"]): return o
    D = msim.driver("asan" if plan["asan"] else "plain")
    if plan["cli"]:
        run = D.run(["file s.bin " + b.hex(), "file t.csv " + csv(plan).encode().hex(), "arg s.bin", "arg t.csv", "cli"])
        if run.fault: return o.fail("monitor-" + run.fault[0], run.fault[1])
        bad = run.rc != 0
        if bad and not run.err.strip(): return o.fail("no-message", "exit %d without a message" % run.rc)
        evs = r03.parse_out(run.out, len(F), o) or []
    else:
        L = ["spec 0 " + b.hex(), "cb 0 1", "load 0 0"]
        for row in plan["rows"]: L += [msim.deliver(0, plan["sigs"], c, v) for c, v in enumerate(row)] + ["step 0"]
        run = D.run(L)
        if run.fault: return o.fail("monitor-" + run.fault[0], run.fault[1])
        bad = any(e[0] in "LR" and e[2] for e in run.events)
        evs = [e for e in run.events if e[0] in "VR"]
    o.sig = h16([n, bad, run.cov[2]])
    if bad:
        if not n: return o.fail("whole-refused", "refused although every instruction is implemented")
        o.nontrivial = True
        o.stats["refused"] += 1
        return o
    o.stats["accepted"] += 1
    if n and plan["cli"] and not o.viol:
        return o.fail("part-monitored", "exit 0 although %d instructions are not implemented; output %r" % (n, run.out[:200]))
    return msim.judge(F, vals, len(plan["rows"]), evs, o, late=not plan["cli"])


def shrink(plan):
    for k in ("cuts", "cut"):
        for i in range(len(plan.get(k, []))):
            if len(plan[k]) > 1: yield dict(plan, **{k: plan[k][:i] + plan[k][i + 1:]})
    yield from msim.shrink_spec(plan)
    yield from msim.shrink_rows(plan)
    yield from msim.shrink_opts(dict(plan, opts={k: v for k, v in plan["opts"].items() if k != "aux"}))
