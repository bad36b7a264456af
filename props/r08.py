"""R08: the storage bounds the compiler writes are enough: no access outside them, whatever is fed in, and the verdicts stay right."""
import re, subprocess, os
from dst import c2, cbuild, gen, mon, msim, ref
from dst.core import Out, h16
from . import r03

LEVEL = "exploration"
COUNTS = {"quick": 7000, "thorough": 90000}
RULE = ("one run = a random specification (with or without contracts and name records, signal indices with gaps, duplicates and unused entries), compiled together with "
        "its bounds file; the monitor gets exactly that much storage (separately guarded arrays, address and undefined-behaviour sanitizers) and is fed a random "
        "history through the API or the CSV reader, some rows malformed (missing, surplus, empty or garbage columns, bad stamps, over-long lines), with reloads and "
        "resets; every 90th run instead builds the whole program with the generated header; no memory error, and on well-formed histories the reference "
        "verdicts in time; non-trivial = a verdict was reported; distinct = by (verdicts, code edges)")
MEASURE = "hash of the event history and of the set of code edges reached"
REAL = ["C2PO (compile, write_bounds_c)", "C monitor library and CSV reader under AddressSanitizer/UBSan"]
STUB = ["sensors, files (in-memory)", "array declarations (heap blocks of the generated sizes), except in the builds with the generated header"]
ASSUME = ["signed overflow and float-to-int casts are judged by their results, not as memory errors"]
cleanup = msim.cleanup


def prepare(tier):
    msim.prepare("rt", "auxrt")


def gen_run(r, i, tier):
    wild = r.random() < .25
    p = gen.spec(r, bz=True if wild else None, feats={"anydiv": True} if wild else {}, depth=r.choice([1, 2, 3, 3, 4]))
    p["opts"] = {"rewrite": r.random() < .7, "cse": r.random() < .7, "aux": r.random() < .5, "scq": r.choice([0, 0, 0, 1, 7])}
    n = len(p["sigs"])
    ids = list(range(n))
    if r.random() < .5:
        ids = r.sample(range(n + r.choice([0, 1, 3, 30])), n)
    p["ids"] = ids
    p["extra_map"] = [["unused%d" % k, r.randrange(0, 40)] for k in range(r.choice([0, 0, 1, 3]))]
    p["rows"] = gen.rows(r, p["sigs"], r.choice([1, 3, 8, 20, 40]))
    if wild:  # extreme sensor values, zero divisors
        for row in p["rows"]:
            for c, (nm, t) in enumerate(p["sigs"]):
                if t == "int" and r.random() < .4: row[c] = r.choice([0, -1, 1, 2**31 - 1, -2**31, 65536])
                if t == "float" and r.random() < .3: row[c] = r.choice([0.0, -0.0, 1e30, -1e30, 1e-30])
    p["path"] = r.choice(["api", "string", "csv"])
    p["again"] = r.choice(["", "", "", "load", "soft", "hard"])
    p["bad"] = []
    if p["path"] == "csv" and r.random() < .5:
        for _ in range(r.randrange(1, 4)):
            p["bad"].append([r.randrange(0, len(p["rows"]) + 1), r.choice(["empty", "blank", "few", "many", "garbage", "stamp", "stamponly", "at", "long", "commas", "nan", "hugeint", "nonl"])])
    p["build"] = i % 90 == 7
    return p


def bad_line(kind, n):
    return {"empty": "", "blank": "   ", "few": "1", "many": "1," * 300 + "1", "garbage": ",".join(["x.y"] * (n + 2)), "stamp": "@zz 1,1", "stamponly": "@3", "at": "@",
            "long": "1," * 6000, "commas": ",,,,", "nan": ",".join(["nan", ".", "-", "+.e"] * 3), "hugeint": ",".join(["99999999999999999999", "-99999999999.5", "1e999."] * 2), "nonl": "1\t\r,\r"}[kind]


def execute(plan):
    o = Out()
    d0 = msim.scratch()
    bf = os.path.join(d0, "b.h")
    if os.path.exists(bf): os.unlink(bf)
    plan_sigs = plan["sigs"] + [[n, "bool"] for n, k in plan["extra_map"]]
    ids = plan["ids"] + [k for n, k in plan["extra_map"]]
    try:
        b, s = c2.compile_text(d0, gen.spec_text(plan), plan_sigs, plan["opts"], plan["bz"], ids=ids, more=["write_bounds_c " + bf])
    except c2.CompileError as e:
        if "found constant formula" in e.err:
            o.nontrivial = False; return o
        return o.fail("spec-rejected", e)
    with open(bf) as f: text = f.read()
    bounds = msim.parse_bounds(text)
    miss = [k for k in msim.BOUNDS if msim.bound_name(k) not in bounds]
    if miss: return o.fail("bounds-missing", miss)
    F = msim.formulas(plan)
    R = ref.Ref(plan["rows"], len(plan["rows"]) + 1)
    try: vals = [R.val(f) for _, f in F]
    except ref.Undefined:  # no verdict to expect, but still nothing outside the storage and no crash
        vals = None
        o.stats["undefined_arithmetic"] += 1
    width = max(plan["ids"]) + 1
    cells = lambda row: [next(((gen.fl(row[c]) if plan["sigs"][c][1] == "float" else str(row[c])) for c in range(len(row)) if plan["ids"][c] == k), "0") for k in range(width)]
    dup = len(set(plan["ids"])) < len(plan["ids"])
    aux = plan["opts"]["aux"]
    lines, clean_until = [], len(plan["rows"])
    bad = sorted((tuple(x) for x in plan["bad"]), key=lambda x: x[0])
    for k, row in enumerate(plan["rows"]):
        for at, kind in bad:
            if at == k:
                lines.append(bad_line(kind, len(plan["sigs"]))); clean_until = min(clean_until, k)
        lines.append(",".join(cells(row)))
    o.stats["sim:monitor_steps"] += len(lines)
    for _, kind in bad: o.stats["fault:row_" + kind] += 1
    if plan["build"]:
        return execute_build(plan, o, text, b, lines, clean_until, F, vals)
    L = [msim.alloc_line(0, bounds), "spec 0 " + b.hex(), "cb 0 1", "of 0 1", "load 0 0"]
    def feed():
        if plan["path"] == "csv":
            for _ in lines: L.extend(["csvrow 0", "step 0"])
        else:
            for row in plan["rows"]:
                for c, v in enumerate(row):
                    L.append(msim.deliver(0, plan["sigs"], c, v, ids=plan["ids"], typed=plan["path"] == "api"))
                L.append("step 0")
    if plan["path"] == "csv":
        L.insert(0, "file t.csv " + ("\n".join(lines) + "\n").encode().hex()); L.append("csv 0 t.csv")
    feed()
    if plan["again"]:
        if plan["again"] != "load": L.append("reset 0 " + plan["again"][0])
        L.append("load 0 0")
        o.stats["fault:reload_" + plan["again"]] += 1
        if plan["path"] == "csv": L.append("csv 0 t.csv")
        feed()
    run = msim.driver("auxrt" if aux else "rt").run(L)
    o.sig = h16([h16(run.raw)])
    o.stats["verdicts_seen"] += sum(e[0] == "V" for e in run.events)
    if run.fault: return o.fail("monitor-" + run.fault[0], run.fault[1])
    loads = [k for k, e in enumerate(run.events) if e[0] == "L"]
    if any(run.events[k][2] for k in loads): return o.fail("load-error", "a compiled specification was refused")
    for a, z in zip(loads, loads[1:] + [len(run.events)]):
        part, n = [], 0
        for e in run.events[a:z]:
            part.append(e)
            if e[0] == "R":
                n += 1
                if n >= clean_until: break
        if clean_until and vals: msim.judge(F, vals, len(plan["rows"]), [e for e in part if e[0] in "VR"], o)
    o.nontrivial = o.stats["verdicts_seen"] > 0
    return o


_exe = {}


def execute_build(plan, o, text, b, lines, clean_until, F, vals):
    """The whole program, built with the generated header."""
    o.stats["whole_program_builds"] += 1
    try: exe = cbuild.build(aux=plan["opts"]["aux"], bounds_h=text, sanitize=True, keep=False)
    except cbuild.BuildError as e:
        return o.fail("bounds-header-does-not-build", str(e)[-400:])
    try:
        d = mon.Driver(exe)
        run = d.run(["file s.bin " + b.hex(), "file t.csv " + ("\n".join(lines) + "\n").encode().hex(), "arg s.bin", "arg t.csv", "cli"])
        d.close()
    finally:
        os.unlink(exe)
    o.sig = h16([h16(run.raw)])
    if run.fault: return o.fail("monitor-" + run.fault[0], run.fault[1])
    if clean_until == len(plan["rows"]) and not plan["bad"] and vals:
        if run.rc: return o.fail("exit-status", "exit %d" % run.rc)
        if not plan["opts"]["aux"]:
            evs = r03.parse_out(run.out, len(F), o)
            if evs is not None: msim.judge(F, vals, len(plan["rows"]), evs, o, late=False)
    o.nontrivial = bool(run.out)
    return o


def shrink(plan):
    if plan["build"]: yield dict(plan, build=False)
    for k in range(len(plan["bad"])): yield dict(plan, bad=plan["bad"][:k] + plan["bad"][k + 1:])
    for key, v in (("again", ""), ("extra_map", []), ("path", "api"), ("ids", list(range(len(plan["sigs"]))))):
        if plan[key] != v and not (key == "path" and plan["bad"]): yield dict(plan, **{key: v})
    yield from msim.shrink_spec(plan)
    yield from msim.shrink_rows(plan)
    yield from msim.shrink_opts(dict(plan, opts={k: v for k, v in plan["opts"].items() if k != "aux"}))
