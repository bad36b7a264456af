"""C06: a specification written out at any stage reads back with the same meaning."""
import os, re
from dst import c2, gen, msim, sugar
from dst.core import Out, h16
from . import c01, c02, r09

LEVEL = "exploration"
COUNTS = {"quick": 7000, "thorough": 90000}
RULE = ("one run = a random specification (all surface forms; or named formulas and contracts; or propositional-input for MLTL), read by a fresh console, taken "
        "through random stages (parsed / checked / desugared / passes), written out as C2PO or MLTL text, that text read by another fresh console, up to three "
        "times over, sometimes over the file it was read from or over a longer file, then compiled, stepped through a random history and judged by the reference for the "
        "ORIGINAL specification (values, order, delays, names, contract statuses); non-trivial = at least one verdict; "
        "distinct = by hash of source, hops and verdict history")
MEASURE = "hash of specification text, stages and verdict history"
REAL = ["C2PO (parsers, passes, text writers, assembler)", "C monitor library"]
STUB = ["sensors (simulated)"]
ASSUME = ["reference model (dst/ref.py) is right"]
cleanup = msim.cleanup
PASSES = ["optimize_rewrites", "optimize_cse", "remove_extended_operators", "to_nnf", "to_bnf", "flatten_multi_operators",
          "multi_operators_to_binary", "sort_operands_by_pd", "remove_release_operators", "compute_atomics", "compute_scq_sizes"]
PARTIAL = ["expand_definitions", "convert_function_calls_to_structs", "resolve_enum_references", "resolve_struct_accesses", "resolve_array_accesses", "unroll_set_aggregation"]


def prepare(tier):
    msim.prepare("plain", "big", "aux", "auxbig")


def gen_run(r, i, tier):
    mode = r.choices(["text", "named", "mltl"], [6, 2, 2])[0]
    if mode == "named":
        p = r09.gen_run(r, i, tier)
        p["again"] = False
    elif mode == "mltl":
        p = gen.spec(r, bz=False, kinds=r.choice(["ft", "pt"]), depth=r.choice([1, 2, 2, 3]))
        p["opts"] = {"rewrite": r.random() < .7, "cse": r.random() < .7}
        p["rows"] = gen.rows(r, p["sigs"], r.choice([4, 8, 16]))
    else:
        p = c01.gen_run(r, i, tier)
        while p.get("suffix"): p = c01.gen_run(r, i, tier)
        if r.random() < .4: digits(r, p)
    p["mode"] = mode
    fixed = bool(p.get("enums")) or any(k in str(p) for k in ("exactly", "atleast", "atmost"))
    nonnf = any(c02.neg_xor(sugar.plain(f)) for k in ("ft", "pt") for e in p[k] for f in e[1:])
    hops = []
    for h in range(r.choice([1, 1, 1, 2, 3])):
        st = r.choice(["parse", "check", "desugar", "passes"])
        if mode == "named" or fixed: st = r.choice(["parse", "check"])
        if mode == "mltl": st = "passes"
        L = []
        if st != "parse": L.append("type_check")
        if st in ("desugar", "passes"): L.append("desugar")
        if st == "passes":
            n = r.randrange(0 if mode == "mltl" else 1, 4)
            L += [x for x in (r.choice(PASSES) for _ in range(n)) if not (nonnf and x == "to_nnf")]
        if mode == "mltl": L += ["compute_atomics"]
        hops.append({"cmds": L, "as": "mltl" if mode == "mltl" else "c2po", "over": r.choice(["", "", "self", "junk"])})
    p["hops"] = hops
    return p


def digits(r, p):
    """A formula that compares a signal with a constant of which every digit counts, and values close to it."""
    cols = [i for i, (n, t) in enumerate(p["sigs"]) if t == "float" and n not in (p.get("decl") or {})]
    if not p["bz"] or not cols: return
    c, x = r.choice(cols), ["f", None]
    x[1] = c
    if r.random() < .6:
        scale = 10.0 ** r.randrange(3, 8)
        k = round(r.uniform(1, 9) / scale, 12)
        rhs, mid, eps = ["*", ["fc", k], ["fc", scale]], k * scale, r.choice([.01, .001, .0001])
    else:
        k = round(r.uniform(100, 10.0 ** r.randrange(3, 7)), 5)
        rhs, mid, eps = ["fc", k], k, r.choice([.01, .001, .0001])
    if r.random() < .3: rhs, mid = ["neg", rhs], -mid
    p[r.choice([k for k in ("ft", "pt") if p[k]])].append(["digits", ["cmp", r.choice(["<", ">", "<=", ">="]), x, rhs]])
    for row in p["rows"]:
        if r.random() < .8: row[c] = round(mid + r.choice([-30, -3, -1, 1, 3, 30]) * eps, 7)


def hop(d, src, plan, h, k, o):
    """Reads src in a fresh console, brings it to the stage, writes it; returns the new path or fails the run."""
    suffix = src.rsplit(".", 1)[1]
    s = c2.Session(d)
    dst = os.path.join(d, "h%d.%s" % (k, h["as"]))
    if h["over"] == "self" and suffix == h["as"]: dst = src
    elif h["over"] == "junk":
        with open(dst, "w") as f: f.write("&junk;\n" * 2000)
    elif os.path.exists(dst): os.unlink(dst)
    L = ["enable_booleanizer"] if plan["bz"] else []
    if plan["opts"].get("mission") is not None: L.append("set_mission_time %d" % plan["opts"]["mission"])
    L.append("parse_%s %s" % (suffix, src))
    if suffix == "c2po": L.append("parse_map " + os.path.join(d, "m.map"))
    for line in L + h["cmds"] + ["write_%s %s" % (h["as"], dst)]:
        so, se, bad = s.cmd(line)
        if bad:
            if "found constant formula" in se or h["as"] == "mltl" and "incompatible with MLTL" in se:
                o.nontrivial = False; o.stats["skipped_inexpressible"] += 1
                return None
            with open(src) as f: t = f.read()
            o.fail("hop-failed:" + line.split()[0] + ":" + h16(re.sub(r"[^ a-z]|\w+_\d+|/\S+", "", (se or so).split("\n")[0]))[:6],
                   "%s\nhop %d %s\n%s" % (se or so, k, h, t))
            return None
    o.stats["hop:" + h["as"] + ":" + (h["cmds"][-1] if h["cmds"] else "parsed")] += 1
    if h["over"]: o.stats["written_over:" + h["over"]] += 1
    return dst


def execute(plan):
    o = Out()
    d = msim.scratch()
    text = r09.spec_text(plan) if plan["mode"] == "named" else c01.source(plan)
    src = os.path.join(d, "s.c2po")
    with open(src, "w", encoding="utf-8") as f: f.write(text)
    with open(os.path.join(d, "m.map"), "w") as f: f.write(c2.map_text(plan["sigs"], plan.get("ids")))
    for k, h in enumerate(plan["hops"]):
        src = hop(d, src, plan, h, k, o)
        if src is None: return o
    with open(src, encoding="utf-8") as f: back = f.read()
    suffix = src.rsplit(".", 1)[1]
    try:
        b, s = c2.compile_text(d, back, plan["sigs"], plan["opts"], plan["bz"], ids=plan.get("ids"), tag="fin", suffix=suffix, usemap=suffix == "c2po")
    except c2.CompileError as e:
        if "found constant formula" in e.err:
            o.nontrivial = False; o.stats["skipped_constant_formula"] += 1
            return o
        if plan["mode"] == "named" and "too long" in e.err: o.nontrivial = False; return o
        if back != text: e2 = original(d, plan, text)
        else: e2 = None
        if e2 and e2.where == e.where:  # the specification itself is not accepted
            o.nontrivial = False; o.stats["skipped_original_rejected"] += 1
            return o
        return o.fail("read-back-rejected:" + e.where + ":" + h16(re.sub(r"[^ a-z]|\w+_\d+|/\S+", "", e.err.split("\n")[0]))[:6],
                      "%s\nstages %s\noriginal:\n%s\nwritten:\n%s" % (e, plan["hops"], text, back))
    if plan["mode"] == "named": r09.run_named(plan, b, o)
    else: c01.run_and_judge(plan, b, o)
    if o.viol: o.viol = (o.viol[0], "%s\nstages %s\noriginal:\n%s\nwritten:\n%s" % (o.viol[1], plan["hops"], text, back))
    o.sig = h16([o.sig, plan["hops"], text])
    return o


def original(d, plan, text):
    try: c2.compile_text(d, text, plan["sigs"], plan["opts"], plan["bz"], ids=plan.get("ids"), tag="org")
    except c2.CompileError as e: return e


def shrink(plan):
    for i in range(len(plan["hops"])):
        if len(plan["hops"]) > 1: yield dict(plan, hops=plan["hops"][:i] + plan["hops"][i + 1:])
        h = plan["hops"][i]
        if h["over"]: yield dict(plan, hops=plan["hops"][:i] + [dict(h, over="")] + plan["hops"][i + 1:])
        for j in range(len(h["cmds"])):
            if h["cmds"][j] not in ("type_check", "desugar") and not (h["as"] == "mltl" and j == len(h["cmds"]) - 1):
                yield dict(plan, hops=plan["hops"][:i] + [dict(h, cmds=h["cmds"][:j] + h["cmds"][j + 1:])] + plan["hops"][i + 1:])
    yield from (r09.shrink(plan) if plan["mode"] == "named" else c01.shrink(plan))
