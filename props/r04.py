"""R04: the program's verdict output depends only on the trace's content, not on how its bytes arrive."""
import re
from dst import c2, gen, mon, msim, ref
from dst.core import Out, h16
from . import r03

LEVEL = "exploration"
COUNTS = {"quick": 9000, "thorough": 120000}
RULE = ("one run = a random specification and a CSV trace (with or without header line, final newline, step stamps), read by the real command line "
        "program twice: undisturbed from a file, and through a disturbed stream (file or standard input, reads split at arbitrary byte positions, "
        "output buffered differently); outputs must be byte-identical, equal to the reference and complete; non-trivial = at least one verdict; "
        "distinct = by (output, code edges, number of split reads)")
MEASURE = "hash of output, code edges reached, and reads split"
REAL = r03.REAL
STUB = r03.STUB
cleanup = msim.cleanup


def prepare(tier):
    msim.prepare("plain", "big")


def gen_run(r, i, tier):
    p = gen.spec(r, maxf=2, depth=r.choice([1, 2, 3]))
    p["opts"] = {"rewrite": r.random() < .7, "cse": r.random() < .7}
    n = r.choice([1, 1, 2, 5, 12, 40, 200 if r.random() < .3 else 20])
    p["rows"] = gen.rows(r, p["sigs"], n)
    p["header"] = r.choice([None, "#", "# a,b,c", "#" + "x," * r.choice([1, 30, 30, 30, 300, 4094, 4095, 4096, 5000, 9000])])
    p["nl"] = r.random() < .7
    p["stdin"] = r.random() < .5
    style = r.choice(["one", "few", "small", "page", "mixed"])
    p["chunks"] = [{"one": lambda: 1, "few": lambda: r.randrange(1, 5), "small": lambda: r.randrange(1, 60),
                    "page": lambda: r.choice([4095, 4096, 1, 512]), "mixed": lambda: r.choice([1, 2, 3, 7, 64, 4096])}[style]() for _ in range(min(6000, 40 * n + 400))]
    p["obuf"] = r.choice([1, 2, 16, 100, 4096, 65536])
    p["wide"] = r.choice([0, 0, 0, 0, 0, 0, 40, 200, 400, 1100])
    if p["wide"]: p["rows"] = p["rows"][:8]
    p["eol"] = r.choice(["\n", "\n", "\r\n"])
    p["pad"] = r.choice(["", "", "", "zeros", "plus"])
    p["blank"] = r.choice(["", "", "", "lead", "sep", "trail", "tab"])
    return p


def pad(cell, how, t):
    """Another way to write the same number."""
    if t == "bool" or not how: return cell
    sign, digits = ("-", cell[1:]) if cell[0] == "-" else ("", cell)
    if how == "zeros": return sign + "00" + digits + ("00" if "." in digits else "")
    return ("+" if not sign else sign) + digits


def text_of(plan):
    rows = [",".join(pad(x, plan.get("pad"), t) for x, (n, t) in zip(r03.csv_row(plan["sigs"], row).split(","), plan["sigs"])) + ",0" * plan.get("wide", 0)
            for row in plan["rows"]]
    bl = plan.get("blank", "")
    if bl == "lead": rows = ["   " + x for x in rows]
    elif bl == "sep": rows = [x.replace(",", ", ") for x in rows]
    elif bl == "tab": rows = [x.replace(",", ",\t") for x in rows]
    elif bl == "trail": rows = [x.replace(",", " ,") + " " for x in rows]
    e = plan.get("eol", "\n")
    t = "".join(x + e for x in ([plan["header"]] if plan["header"] is not None else []) + rows)
    return t if plan["nl"] else t[:-len(e)]


def execute(plan):
    o = Out()
    try: b, s = msim.compile_plan(plan)
    except msim.Skip:
        o.nontrivial = False; return o
    except c2.CompileError as e:
        return o.fail("spec-rejected", e)
    F = msim.formulas(plan)
    R = ref.Ref(plan["rows"], len(plan["rows"]) + 1)
    try: vals = [R.val(f) for _, f in F]
    except ref.Undefined:
        o.nontrivial = False; return o
    hx = text_of(plan).encode().hex()
    d = msim.driver(msim.pick(b))
    base = ["file s.bin " + b.hex()]
    quiet = d.run(base + ["file t.csv " + hx, "arg s.bin", "arg t.csv", "cli"])
    name = "<stdin>" if plan["stdin"] else "t.csv"
    ch = " ".join(map(str, plan["chunks"]))
    dist = d.run(base + ["file %s %s" % (name, hx)] + (["chunks %s %s" % (name, ch)] if ch else []) +
                 ["sink -1 0 0 0 %d" % plan["obuf"], "arg s.bin"] + ([] if plan["stdin"] else ["arg t.csv"]) + ["cli"])
    o.stats["sim:trace_rows"] += 2 * len(plan["rows"])
    for run in (quiet, dist):
        if run.fault: return o.fail("monitor-" + run.fault[0], run.fault[1])
    o.stats["fault:read_split"] += dist.fired[2]
    o.stats["fault:input_is_pipe"] += plan["stdin"]
    o.stats["fault:missing_final_newline"] += not plan["nl"]
    o.stats["fault:crlf_line_ends"] += plan.get("eol") == "\r\n"
    o.stats["fault:blanks_around_values"] += bool(plan.get("blank"))
    o.stats["fault:numbers_padded"] += bool(plan.get("pad"))
    o.stats["fault:header_longer_than_line_buffer"] += len(plan["header"] or "") > 8191
    o.stats["fault:unused_columns_past_storage"] += plan.get("wide", 0) > 250
    o.stats["output_writes"] += dist.fired[4]
    for which, run in (("file", quiet), ("disturbed stream", dist)):
        if run.rc != 0: return o.fail("exit-status", "exit %d reading the trace from %s" % (run.rc, which))
    if quiet.out != dist.out:
        k = next((k for k, (x, y) in enumerate(zip(quiet.out, dist.out)) if x != y), min(len(quiet.out), len(dist.out)))
        return o.fail("arrival-dependent", "outputs differ at byte %d: %r vs %r" % (k, quiet.out[max(0, k - 20):k + 20], dist.out[max(0, k - 20):k + 20]))
    evs = r03.parse_out(quiet.out, len(F), o)
    if evs is None: return o
    msim.judge(F, vals, len(plan["rows"]), evs, o, late=False)
    last = [-1] * len(F)
    for e in evs: last[e[2]] = max(last[e[2]], e[3])
    for f in range(len(F)):
        need = len(plan["rows"]) - 1 - ref.wpd(F[f][1])
        if last[f] < need: o.fail("lost-verdict", "formula %d: verdicts only up to time %d, due up to %d" % (f, last[f], need))
    o.sig = h16([quiet.out.hex(), dist.cov[2], dist.fired[2]])
    o.nontrivial = len(evs) > 0
    return o


def shrink(plan):
    yield from msim.shrink_spec(plan)
    yield from msim.shrink_rows(plan)
    yield from msim.shrink_opts(plan)
    if plan["chunks"]:
        n = len(plan["chunks"])
        for m in (0, 1, n // 2, n - 1): yield dict(plan, chunks=plan["chunks"][:m])
        if any(c != 1 for c in plan["chunks"]): yield dict(plan, chunks=[1] * n)
    for k, v in (("wide", 0), ("pad", ""), ("eol", "\n"), ("blank", ""), ("header", None), ("nl", True), ("stdin", False), ("obuf", 4096)):
        if plan.get(k) != v: yield dict(plan, **{k: v})
