"""R05: loading a specification, at any point of a monitor's life, starts from the initial state."""
from dst import c2, gen, mon, msim, ref
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 9000, "thorough": 120000}
RULE = ("one run = one monitor living through 2-5 lives: each life optionally resets (clock, soft, hard) or not, loads one of up to 3 random specifications "
        "(possibly the same), is stepped through a random history and is cut off at an arbitrary step; stale sensor storage is scrambled between lives; "
        "every life is judged against the reference of a fresh monitor (values, order, delay); non-trivial = a life after the first reported a verdict; "
        "distinct = by (verdict history, code edges)")
MEASURE = "hash of the verdict history and of the set of code edges reached"
REAL = ["C2PO", "C monitor library"]
STUB = ["sensors; crash/restart decisions (simulated)"]
cleanup = msim.cleanup


def prepare(tier):
    msim.prepare("plain", "big")


def gen_run(r, i, tier):
    specs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        p = gen.spec(r, maxf=2, depth=r.choice([1, 2, 2, 3]))
        p["opts"] = {"rewrite": r.random() < .7, "cse": r.random() < .7}
        specs.append(p)
    lives = []
    for _ in range(r.randrange(2, 6)):
        k = r.randrange(len(specs))
        n = r.choice([0, 1, 2, 3, 7, 15, 40])
        lives.append({"reset": r.choice(["", "", "c", "s", "h", "sh"]), "spec": k, "loads": r.choice([1, 1, 1, 2]), "stale": r.choice([None, r.randrange(1 << 30)]),
                      "rows": gen.rows(r, specs[k]["sigs"], n), "midstep": r.random() < .2})
    return {"specs": specs, "lives": lives}


def execute(plan):
    o = Out()
    bins = []
    for p in plan["specs"]:
        try: bins.append(msim.compile_plan(p)[0])
        except msim.Skip:
            o.nontrivial = False; return o
        except c2.CompileError as e:
            return o.fail("spec-rejected", e)
    L = ["spec %d %s" % (k, b.hex()) for k, b in enumerate(bins)] + ["cb 0 1"]
    for lf in plan["lives"]:
        p = plan["specs"][lf["spec"]]
        for c in lf["reset"]: L.append("reset 0 " + c)
        if lf["stale"] is not None: L.append("stale 0 %d" % lf["stale"])
        for _ in range(lf["loads"]): L.append("load 0 %d" % lf["spec"])
        for row in lf["rows"]:
            for c, v in enumerate(row): L.append(msim.deliver(0, p["sigs"], c, v))
            L.append("step 0")
        if lf["midstep"]:  # cut off between sensor delivery and the step
            for c, (n, t) in enumerate(p["sigs"][:2]): L.append(msim.deliver(0, p["sigs"], c, 1.0 if t == "float" else 1))
    run = msim.driver("big" if any(msim.pick(b) == "big" for b in bins) else "plain").run(L)
    if run.fault: return o.fail("monitor-" + run.fault[0], run.fault[1])
    # split the history into lives at the (last) load of each
    parts, cur = [], None
    for e in run.events:
        if e[0] == "L":
            if e[2] != 0: return o.fail("load-error", "loading a compiled specification returned status %d" % e[2])
            cur = []
            parts.append(cur)
        elif cur is not None:
            cur.append(e)
    it, done = iter(parts), 0
    for n, lf in enumerate(plan["lives"]):
        for _ in range(lf["loads"]): evs = next(it)
        p = plan["specs"][lf["spec"]]
        F = msim.formulas(p)
        R = ref.Ref(lf["rows"], len(lf["rows"]) + 1)
        try: vals = [R.val(f) for _, f in F]
        except ref.Undefined:
            o.nontrivial = False; return o
        before = o.stats["verdicts"]
        msim.judge(F, vals, len(lf["rows"]), evs, o)
        if o.viol:
            o.viol = (o.viol[0] + ("" if n == 0 else "-after-reload"), "life %d: %s" % (n, o.viol[1])); return o
        if n and o.stats["verdicts"] > before: done += 1
        o.stats["sim:monitor_steps"] += len(lf["rows"])
        if n: o.stats["fault:restart_with_reset_%s" % (lf["reset"] or "none")] += 1
        o.stats["fault:stale_sensor_storage"] += lf["stale"] is not None
        o.stats["fault:cut_before_step"] += lf["midstep"]
    o.sig = h16([h16(run.raw)])
    o.nontrivial = done > 0
    return o


def shrink(plan):
    lv = plan["lives"]
    for k in range(len(lv)):
        if len(lv) > 1: yield dict(plan, lives=lv[:k] + lv[k + 1:])
    for k in range(len(lv)):
        for q in msim.shrink_rows(lv[k], keep=0): yield dict(plan, lives=lv[:k] + [q] + lv[k + 1:])
        for key, v in (("reset", ""), ("loads", 1), ("stale", None), ("midstep", False)):
            if lv[k][key] != v: yield dict(plan, lives=lv[:k] + [dict(lv[k], **{key: v})] + lv[k + 1:])
    for k, p in enumerate(plan["specs"]):
        for q in msim.shrink_spec(p): yield dict(plan, specs=plan["specs"][:k] + [q] + plan["specs"][k + 1:])
