"""R01: every verdict the monitor reports equals the formula's truth value over the delivered updates."""
from dst import c2, gen, mon, msim, ref
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 30000, "thorough": 240000}
RULE = ("one run = a random specification (1-6 formulas, future and past time, shared subformulas, random compile options), compiled by the real "
        "compiler and stepped through a random sensor history whose updates the simulator drops, duplicates, reorders and replaces within a step; "
        "non-trivial = at least one verdict was reported and judged; distinct = by (verdict history, code edges reached, aggregation pattern)")
MEASURE = "hash of the verdict history and of the set of monitor code edges reached"
REAL = ["C2PO (parser, type checker, optimiser, SCQ sizing, assembler)", "C monitor library (loader, booleanizer, MLTL engine, queues)"]
STUB = ["sensors and their delivery (simulated)"]
ASSUME = ["reference model of MLTL / past-time MLTL over finite prefixes (dst/ref.py) is right", "IEEE doubles; runs whose arithmetic is undefined (division by zero, overflow) are discarded"]
cleanup = msim.cleanup
LATE = False


def prepare(tier):
    msim.prepare("plain", "big")


def gen_plan(r, maxn=60):
    p = gen.spec(r)
    n = r.choice([4, 8, 16, 30, maxn])
    p["opts"] = {"rewrite": r.random() < .7, "cse": r.random() < .7}
    if r.random() < .1: p["opts"]["scq"] = r.choice([1, 2, 5])
    W = max(ref.wpd(f) for _, f in msim.formulas(p))
    rows = gen.rows(r, p["sigs"], n + 2 * W + 6)
    p["n"] = n
    # delivery: per step a list of [column, value] in arrival order; a dropped update leaves the last value in place
    faulty = r.random() < .5
    rates = {k: r.choice([0, 0, .05, .2]) for k in ("drop", "dup", "swap", "ghost")} if faulty else {}
    d = []
    for k, row in enumerate(rows):
        L = [[c, v] for c, v in enumerate(row)]
        if rates:
            if k: L = [x for x in L if r.random() >= rates["drop"]]
            for x in list(L):
                if r.random() < rates["dup"]: L.insert(r.randrange(len(L) + 1), list(x))
            for x in list(L):
                if r.random() < rates["ghost"]: L.insert(r.randrange(len(L)), [x[0], gen.value(r, p["sigs"][x[0]][1])])
            if r.random() < rates["swap"]: r.shuffle(L)
        d.append(L)
    p["deliv"] = d
    p["typed"] = r.random() < .4
    return p


def gen_run(r, i, tier):
    return gen_plan(r, 60 if tier == "quick" else r.choice([60, 60, 150]))


def effective(plan):
    cur = [0.0 if t == "float" else 0 for _, t in plan["sigs"]]
    out = []
    for L in plan["deliv"]:
        for c, v in L: cur[c] = v
        out.append(list(cur))
    return out


def script(plan, m=0, k=0):
    L = []
    for step, dl in enumerate(plan["deliv"][:plan["n"]]):
        for c, v in dl:
            L.append(msim.deliver(m, plan["sigs"], c, v, plan.get("ids"), plan.get("typed")))
        L.append("step %d" % m)
    return L


def fault_stats(plan, o):
    ns = len(plan["sigs"])
    for L in plan["deliv"][:plan["n"]]:
        cols = [c for c, _ in L]
        o.stats["fault:update_dropped"] += ns - len(set(cols))
        o.stats["fault:update_duplicated_or_superseded"] += len(cols) - len(set(cols))
        if cols != sorted(cols): o.stats["fault:updates_reordered"] += 1


def execute(plan, late=False):
    o = Out()
    plan = dict(plan, n=min(plan["n"], len(plan["deliv"])))
    try:
        b, s = msim.compile_plan(plan)
    except msim.Skip:
        o.nontrivial = False
        o.stats["skipped_constant_formula"] += 1
        return o
    except c2.CompileError as e:
        return o.fail("spec-rejected", e)
    rows = effective(plan)
    F = msim.formulas(plan)
    R = ref.Ref(rows, len(rows))
    try:
        vals = [R.val(f) for _, f in F]
    except ref.Undefined:
        o.nontrivial = False
        o.stats["skipped_undefined_arithmetic"] += 1
        return o
    run = msim.driver(msim.pick(b)).run(["spec 0 " + b.hex(), "cb 0 1", "load 0 0"] + script(plan))
    o.stats["sim:monitor_steps"] += plan["n"]
    fault_stats(plan, o)
    if run.fault:
        o.fail("monitor-" + run.fault[0], run.fault[1])
    else:
        msim.judge(F, vals, len(rows), run.events, o, late=late, order=late, value=not late, covered=late)
        o.sig = h16([h16(run.raw)])
    o.nontrivial = o.stats["verdicts"] > 0
    return o


def shrink(plan):
    yield from msim.shrink_spec(plan)
    n = plan["n"]
    for m in sorted({1, n // 2, n - 1}):
        if 1 <= m < n: yield dict(plan, n=m)
    yield from msim.shrink_opts(plan)
    d = plan["deliv"]
    full = [[[c, v] for c, v in enumerate(row)] for row in effective(plan)]
    if full != d: yield dict(plan, deliv=full)
    if n <= 25:
        for k in range(n): yield dict(plan, deliv=d[:k] + d[k + 1:], n=n - 1) if n > 1 else plan
        for k in range(n):
            z = [[c, 0.0 if isinstance(v, float) else 0] for c, v in d[k]]
            if z != d[k]: yield dict(plan, deliv=d[:k] + [z] + d[k + 1:])
    if plan.get("typed"): yield dict(plan, typed=False)
