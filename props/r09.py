"""R09: named formulas and assume-guarantee contracts are reported under their names with the right three-valued status."""
import re
from dst import c2, gen, mon, msim, ref
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 8000, "thorough": 100000}
RULE = ("one run = a random specification mixing named formulas and contracts (A => G, future and past), compiled with name records, monitored by a build with "
        "naming enabled under random histories, reloads and interleaved second monitor; every formula line must carry its name and reference value; the contract "
        "lines must say inactive / invalid / verified exactly when the assumption is false / the guarantee fails under it / both hold, for the same times as the "
        "reference, once each, and no later than the worst-case delay; non-trivial = a contract status was reported; distinct = by (output lines, code edges)")
MEASURE = "hash of the output lines and of the set of code edges reached"
REAL = ["C2PO", "C monitor library with R2U2_AUX_STRING_SPECS"]
STUB = ["sensors; output stream (in-memory)"]
cleanup = msim.cleanup
NAMES = ["c", "contract", "safe_alt", "x1", "C", "F", "longname_" + "z" * 24, "longname_" + "z" * 38, "_u", "verified", "a1b2c3"]


def prepare(tier):
    msim.prepare("aux", "auxbig")


def gen_run(r, i, tier):
    p = gen.spec(r, maxf=3, depth=r.choice([1, 2, 2, 3]))
    k = 0
    for key in ("ft", "pt"):
        out = []
        for lab, f in p[key]:
            name = ("%s%d" % (r.choice(NAMES), k)); k += 1
            if r.random() < .6:
                g = r.choice(p[key])[1]
                out.append([name, f, g if r.random() < .5 else gen.formula(r, p["sigs"], key == "pt", r.choice([0, 1, 2]), {"bz": p["bz"]})])
            else: out.append([name, f])
        p[key] = out
    p["opts"] = {"rewrite": r.random() < .7, "cse": r.random() < .7, "aux": True}
    p["rows"] = gen.rows(r, p["sigs"], r.choice([1, 4, 10, 25, 60]))
    p["again"] = r.random() < .25
    return p


def spec_text(plan):
    sigs = plan["sigs"]
    out = ["INPUT"] + ["  %s: %s;" % (n, t) for n, t in sigs]
    for kw, key in (("FTSPEC", "ft"), ("PTSPEC", "pt")):
        if plan[key]:
            out.append(kw)
            for e in plan[key]:
                out.append("  %s: %s;" % (e[0], " => ".join("(%s)" % gen.text(f, sigs) for f in e[1:])))
    return "\n".join(out) + "\n"


def execute(plan):
    o = Out()
    try: b, s = c2.compile_text(msim.scratch(), spec_text(plan), plan["sigs"], plan["opts"], plan["bz"])
    except c2.CompileError as e:
        if "found constant formula" in e.err:
            o.nontrivial = False; return o
        if "too long" in e.err and any(len(x[0]) > (37 if len(x) == 3 else 50) for x in plan["ft"] + plan["pt"]):
            o.stats["long_name_refused"] += 1; o.nontrivial = False; return o
        return o.fail("spec-rejected", e)
    return run_named(plan, b, o)


def run_named(plan, b, o):
    """Steps a binary with name records through the plan's rows; judges the text output."""
    rows, sigs = plan["rows"], plan["sigs"]
    R = ref.Ref(rows, len(rows) + 1)
    try:
        D = {}
        for e in plan["ft"] + plan["pt"]: D[e[0]] = [R.val(f) for f in e[1:]], [ref.wpd(f) for f in e[1:]]
    except ref.Undefined:
        o.nontrivial = False; return o
    L = ["spec 0 " + b.hex(), "of 0 1"]
    for _ in range(2 if plan["again"] else 1):
        L.append("load 0 0")
        for row in rows:
            for c, v in enumerate(row): L.append(msim.deliver(0, sigs, c, v))
            L.append("step 0")
    run = msim.driver("aux" if fits(b, plan) else "auxbig").run(L)
    if run.fault: return o.fail("monitor-" + run.fault[0], run.fault[1])
    o.sig = h16([[e for e in run.events if e[0] == "O"], run.cov[2]])
    loads = [k for k, e in enumerate(run.events) if e[0] == "L"]
    for a, z in zip(loads, loads[1:] + [len(run.events)]):
        check(plan, D, run.events[a:z], len(rows), o)
        if o.viol: return o
    o.stats["sim:monitor_steps"] += len(rows) * len(loads)
    o.stats["fault:reload"] += plan["again"]
    o.nontrivial = any(k.startswith("status_") for k in o.stats)
    return o


def fits(b, plan):
    lim = msim._B["limits"]
    n = [3 if len(e) == 3 else 1 for e in plan["ft"] + plan["pt"]]
    return msim.fits(b, lim) and sum(len(e[0]) + 20 for e in plan["ft"] + plan["pt"]) * 4 < lim["MAX_AUX_BYTES"] and sum(n) < lim.get("AUX_MAX_FORMULAS", lim.get("MAX_FORMULAS", 128))


def check(plan, D, evs, n, o):
    """Statuses are (name, kind, t); aggregated reports cover the times since the previous report of the same underlying condition."""
    lastf = {}
    seen = {}      # contract -> time -> kind
    k = 0
    pend = None
    for e in evs:
        if e[0] == "O":
            line = e[2]
            m = re.fullmatch(r"Contract (\S+) (inactive|invalid|verified) at (\d+)", line)
            if m:
                name, kind, t = m.group(1), m.group(2), int(m.group(3))
                if name not in D or len(D[name][0]) != 2: return o.fail("unknown-contract", line)
                key = (name, kind)
                o.stats["status_" + kind] += 1
                if pend is None: return o.fail("stray-contract-line", line)
                lo, hi, val = pend
                if hi != t: return o.fail("stray-contract-line", line)
                for x in range(lo, min(t, n - 1) + 1):
                    a, g = D[name][0][0][x], D[name][0][1][x]
                    want = "inactive" if a is False else None if a is None or g is None and kind != "inactive" else "verified" if g else "invalid"
                    if want is not None and want != kind:
                        return o.fail("wrong-status", "step %d: contract %s reported %s at %d, expected %s at %d" % (k, name, kind, t, want, x))
                    if x in seen.setdefault(name, {}):
                        return o.fail("repeated-status", "contract %s: %s at %d after %s" % (name, kind, x, seen[name][x]))
                    seen[name][x] = kind
                pend = None
                continue
            m = re.fullmatch(r"(\S+):(\d+),([TF])", line)
            if not m: return o.fail("bad-output-line", line)
            name, t, v = m.group(1), int(m.group(2)), m.group(3) == "T"
            p = lastf.get(name, -1)
            if t <= p: return o.fail("out-of-order", "%s after time %d" % (line, p))
            pend = (p + 1, t, v)
            lastf[name] = t
            if name in D and len(D[name][0]) == 1:
                for x in range(p + 1, min(t, n - 1) + 1):
                    w = D[name][0][0][x]
                    if w is not None and w != v: return o.fail("wrong-verdict", "step %d: %s, expected %s for time %d" % (k, line, w, x))
                o.stats["named_verdicts"] += 1
                pend = None
            elif name.isdigit(): return o.fail("unnamed-verdict", line)
        elif e[0] == "R":
            if e[2]: return o.fail("step-error", "status %d" % e[2])
            for name, (vals, w) in D.items():
                need = k - max(w)
                if len(vals) == 1 and lastf.get(name, -1) < need:
                    return o.fail("late-verdict", "%s: time %d not reported after step %d" % (name, need, k))
                if len(vals) == 2:
                    for x in range(0, need + 1):
                        if x not in seen.get(name, {}):
                            return o.fail("late-status", "contract %s: no status for time %d after step %d" % (name, x, k))
            k += 1
    return o


def shrink(plan):
    for key in ("ft", "pt"):
        for i in range(len(plan[key])):
            if len(plan["ft"]) + len(plan["pt"]) > 1: yield dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})
        for i, e in enumerate(plan[key]):
            for j in range(1, len(e)):
                for h in msim.sub_formulas(e[j]): yield dict(plan, **{key: plan[key][:i] + [e[:j] + [h] + e[j + 1:]] + plan[key][i + 1:]})
    yield from msim.shrink_rows(plan)
    yield from msim.shrink_opts(dict(plan, opts={k: v for k, v in plan["opts"].items() if k != "aux"}))
    if plan["again"]: yield dict(plan, again=False)
