"""C01: a specification in any surface form means the same as its plain expansion."""
import re
from dst import c2, gen, msim, ref, sugar
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 12000, "thorough": 120000}
RULE = ("one run = a random specification rewritten into random surface forms (definitions, structs, arrays and slices, enumerations, set aggregations, "
        "counting, mission time, short intervals, references to labelled formulas, minimal parentheses, alternative tokens, comments, split sections, "
        "MLTL-standard files), compiled with random options and stepped through a random history; verdicts are judged against the plain expansion; "
        "non-trivial = at least one verdict; distinct = by hash of specification text and verdict history")
MEASURE = "hash of the specification text and the verdict history"
REAL = ["C2PO (lexers, parsers, type checker, desugaring, optimiser, assembler)", "C monitor library"]
STUB = ["sensors (simulated)"]
ASSUME = ["reference model (dst/ref.py) is right", "operator precedence is that of the parser's documented table"]
cleanup = msim.cleanup


def prepare(tier):
    msim.prepare("plain", "big")


def mltl_text(plan):
    def t(f):
        k = f[0]
        if k == "a": return "a%d" % f[1]
        if k in ("tt", "ff"): return {"tt": "true", "ff": "false"}[k]
        if k == "!": return "!" + t(f[1])
        if k in ("&", "|"): return "(" + (" %s " % k).join(t(g) for g in f[1:]) + ")"
        if k in ("->", "<->"): return "(%s %s %s)" % (t(f[1]), k, t(f[2]))
        if k == "^": return "!(%s <-> %s)" % (t(f[1]), t(f[2]))
        iv = "[%d,%d]" % (f[1], f[2]) if f[1] else "[%d]" % f[2]
        if f[2] == plan.get("mission"): iv = "[%d,M]" % f[1]
        if k in "GFHO": return "%s%s %s" % (k, iv, t(f[3]))
        return "(%s %s%s %s)" % (t(f[3]), k, iv, t(f[4]))
    return "".join(t(sugar.plain(f)) + "\n" for _, f in msim.formulas(plan))


def gen_run(r, i, tier):
    mltl = r.random() < .12
    p = gen.spec(r, bz=False if mltl else None, kinds=r.choice(["ft", "pt"]) if mltl else None, depth=r.choice([1, 2, 2, 3]))
    p["style"] = {}
    if mltl:
        p["suffix"] = "mltl"
        f = r.choice(msim.formulas(p))[1]
        if r.random() < .4 and f[0] in "GFHOURST": p["mission"] = f[2]
    else:
        for k, pr in (("min", .6), ("uni", .15), ("comments", .2), ("split", .25)):
            if r.random() < pr: p["style"][k] = True
        p = sugar.Sugar(r, p, p=r.choice([0, .2, .4])).run()
    p["opts"] = {"rewrite": bool(p.get("needs_rewrite")) or r.random() < .7, "cse": r.random() < .7}
    if p.get("mission") is not None: p["opts"]["mission"] = p["mission"]
    n = r.choice([4, 8, 16, 30])
    p["rows"] = gen.rows(r, p["sigs"], n)
    for row in p["rows"]:  # enumerations: mostly member values
        for c, (nm, t) in enumerate(p["sigs"]):
            if nm in (p.get("decl") or {}): row[c] = r.randrange(0, 5)
    if r.random() < .3:
        p["ids"] = r.sample(range(len(p["sigs"]) + 4), len(p["sigs"]))
        if mltl: p.pop("ids")
    return p


def source(plan):
    return mltl_text(plan) if plan.get("suffix") == "mltl" else sugar.spec_text(plan)


def plain_formulas(plan):
    return [[l, sugar.plain(f)] for l, f in msim.formulas(plan)]


def run_and_judge(plan, b, o, F=None):
    """Steps the binary through the plan's rows; judges values, order and delay."""
    F = F or plain_formulas(plan)
    rows = plan["rows"]
    W = max(ref.wpd(f) for _, f in F)
    R = ref.Ref(rows, len(rows))
    try:
        vals = [R.val(f) for _, f in F]
    except ref.Undefined:
        o.nontrivial = False
        o.stats["skipped_undefined_arithmetic"] += 1
        return o
    L = ["spec 0 " + b.hex(), "cb 0 1", "load 0 0"]
    for row in rows:
        L += [msim.deliver(0, plan["sigs"], c, v, plan.get("ids")) for c, v in enumerate(row)] + ["step 0"]
    run = msim.driver(msim.pick(b)).run(L)
    o.stats["sim:monitor_steps"] += len(rows)
    if run.fault:
        return o.fail("monitor-" + run.fault[0], run.fault[1])
    msim.judge(F, vals, len(rows), run.events, o)
    if o.viol and o.viol[0] in ("late-verdict", "wrong-verdict"):
        o.viol = (o.viol[0], o.viol[1] + "  [%s]" % F[0][0])
    o.sig = h16([source(plan), h16(run.raw)])
    o.nontrivial = o.stats["verdicts"] > 0
    return o


def execute(plan):
    o = Out()
    mltl = plan.get("suffix") == "mltl"
    text = source(plan)
    try:
        b, s = c2.compile_text(msim.scratch(), text, plan["sigs"], plan["opts"], plan["bz"], ids=plan.get("ids"),
                               suffix=plan.get("suffix", "c2po"), usemap=not mltl)
    except c2.CompileError as e:
        if "found constant formula" in e.err:
            o.nontrivial = False
            o.stats["skipped_constant_formula"] += 1
            return o
        return o.fail("spec-rejected:" + e.where, "%s\n%s" % (e, text))
    for k in plan.get("style") or {}: o.stats["form:" + k] += 1
    for k in ("defs", "structs", "enums"): o.stats["form:" + k] += bool(plan.get(k))
    for k in ("foreach", "forsome", "forexactly", "foratleast", "foratmost", "M]", "true =="): o.stats["form:" + k] += k in text
    return run_and_judge(plan, b, o)


def known(plan, viol):
    return "compare-with-false" if plan["opts"].get("rewrite") and re.search(r"== false|false ==", source(plan)) and viol[0] == "wrong-verdict" else None


def shrink(plan):
    yield from sugar.shrink_sug(plan)
    if not any(sugar.has_sug(f) for _, f in msim.formulas(plan)):
        yield from msim.shrink_spec(plan)
    else:
        for key in ("ft", "pt"):
            for i in range(len(plan[key])):
                if len(plan["ft"]) + len(plan["pt"]) > 1: yield dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})
    yield from msim.shrink_rows(plan)
    yield from msim.shrink_opts(plan)
