"""R06: monitors in one process do not influence each other, whatever the interleaving of calls on them."""
from dst import c2, gen, mon, msim, ref
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 8000, "thorough": 100000}
RULE = ("one run = 2-4 monitors with their own (or a shared) random specification and history; a seeded scheduler interleaves their load, signal and step "
        "calls one call at a time; every monitor's verdicts are judged against its own reference; non-trivial = at least two monitors reported a verdict "
        "and calls of two monitors interleaved within a step; distinct = by (interleaving, verdict history)")
MEASURE = "hash of the call interleaving and the verdict history"
REAL = ["C2PO", "C monitor library (several instances in one process)"]
STUB = ["caller scheduling and sensors (simulated)"]
cleanup = msim.cleanup


def prepare(tier):
    msim.prepare("plain", "big")


def gen_run(r, i, tier):
    nm = r.choice([2, 2, 3, 4])
    specs, mons = [], []
    for _ in range(r.choice([1, 2, nm])):
        p = gen.spec(r, maxf=2, depth=r.choice([1, 2, 2, 3]))
        p["opts"] = {"rewrite": r.random() < .7, "cse": r.random() < .7}
        specs.append(p)
    for m in range(nm):
        k = r.randrange(len(specs))
        mons.append({"spec": k, "rows": gen.rows(r, specs[k]["sigs"], r.choice([2, 5, 12, 25])), "cb": r.random() < .7})
    left = [2 + len(x["rows"]) * (len(specs[x["spec"]]["sigs"]) + 1) for x in mons]
    burst = r.choice([1, 1, 3, 10])
    sched = []
    while any(left):
        m = r.choice([k for k in range(nm) if left[k]])
        for _ in range(r.randrange(1, burst + 1)):
            if left[m]:
                sched.append(m); left[m] -= 1
    return {"specs": specs, "mons": mons, "sched": sched}


def execute(plan):
    o = Out()
    bins = []
    for p in plan["specs"]:
        try: bins.append(msim.compile_plan(p)[0])
        except msim.Skip:
            o.nontrivial = False; return o
        except c2.CompileError as e:
            return o.fail("spec-rejected", e)
    calls = []
    for m, x in enumerate(plan["mons"]):
        sigs = plan["specs"][x["spec"]]["sigs"]
        q = ["%s %d 1" % ("cb" if x["cb"] else "of", m), "load %d %d" % (m, x["spec"])]
        for row in x["rows"]:
            q += [msim.deliver(m, sigs, c, v) for c, v in enumerate(row)] + ["step %d" % m]
        calls.append(q)
    L = ["spec %d %s" % (k, b.hex()) for k, b in enumerate(bins)]
    pos = [0] * len(calls)
    order = list(plan["sched"]) + [m for m in range(len(calls)) for _ in range(10 ** 4)]
    inter, lastm, mid = 0, None, False
    for m in order:
        if m < len(calls) and pos[m] < len(calls[m]):
            L.append(calls[m][pos[m]]); pos[m] += 1
            if lastm is not None and m != lastm and mid: inter += 1
            lastm, mid = m, not L[-1].startswith("step")
    run = msim.driver("big" if any(msim.pick(b) == "big" for b in bins) else "plain").run(L)
    if run.fault: return o.fail("monitor-" + run.fault[0], run.fault[1])
    rep = 0
    for m, x in enumerate(plan["mons"]):
        F = msim.formulas(plan["specs"][x["spec"]])
        R = ref.Ref(x["rows"], len(x["rows"]) + 1)
        try: vals = [R.val(f) for _, f in F]
        except ref.Undefined:
            o.nontrivial = False; return o
        evs = []
        for e in run.events:
            if e[1] != m: continue
            if e[0] == "O":
                f, rest = e[2].split(":"); t, v = rest.split(",")
                evs.append(("V", m, int(f), int(t), v == "T"))
            elif e[0] == "L":
                if e[2] != 0: return o.fail("load-error", "monitor %d: status %d" % (m, e[2]))
            else: evs.append(e)
        before = o.stats["verdicts"]
        msim.judge(F, vals, len(x["rows"]), evs, o)
        if o.viol:
            o.viol = (o.viol[0], "monitor %d of %d: %s" % (m, len(plan["mons"]), o.viol[1])); return o
        rep += o.stats["verdicts"] > before
        o.stats["sim:monitor_steps"] += len(x["rows"])
    o.stats["fault:preempted_within_step"] += inter
    o.sig = h16([plan["sched"], h16(run.raw)])
    o.nontrivial = rep > 1 and inter > 0
    return o


def shrink(plan):
    ms = plan["mons"]
    for k in range(len(ms)):
        if len(ms) > 1:
            yield dict(plan, mons=ms[:k] + ms[k + 1:], sched=[m - (m > k) for m in plan["sched"] if m != k])
    yield dict(plan, sched=[])
    s = plan["sched"]
    for n in (len(s) // 2, len(s) * 3 // 4, len(s) - 1):
        if 0 < n < len(s): yield dict(plan, sched=s[:n])
    for k in range(len(ms)):
        for q in msim.shrink_rows(ms[k]): yield dict(plan, mons=ms[:k] + [q] + ms[k + 1:])
    for k, p in enumerate(plan["specs"]):
        for q in msim.shrink_spec(p): yield dict(plan, specs=plan["specs"][:k] + [q] + plan["specs"][k + 1:])
