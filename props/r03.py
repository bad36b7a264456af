"""R03: a sparse (event-stamped) history gives the same verdicts as the dense history it stands for."""
from dst import c2, gen, mon, msim, ref
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 12000, "thorough": 160000}
RULE = ("one run = a random specification and a sparse history: rows stamped with the last step they cover (random gaps, clock jumps, mixed with plain "
        "rows), fed through the real CSV reader and monitor; the reported verdicts must be the reference verdicts of the dense expansion and reach "
        "up to the worst-case delay before the last step; non-trivial = some gap > 1 and a verdict reported; distinct = by (output, code edges)")
MEASURE = "hash of the monitor's output and of the set of code edges reached"
REAL = ["C2PO", "C monitor library", "C monitor command line program (CSV reader, main loop, output)"]
STUB = ["files, standard streams and process exit (in-memory)", "clock (row stamps)"]
ASSUME = ["prev() and TAU are not used: their meaning between stamped rows is not documented"]
cleanup = msim.cleanup


def prepare(tier):
    msim.prepare("plain", "big")


def gen_run(r, i, tier):
    feats = {"prev": False, "tau": False}
    p = gen.spec(r, feats=feats)
    p["opts"] = {"rewrite": r.random() < .7, "cse": r.random() < .7}
    nrows = r.choice([2, 5, 10, 25])
    t, ev = -1, []
    gapstyle = r.choice([1, 3, 10, 40, 40, 300, 70000, 2**21, 2**26])
    rows = gen.rows(r, p["sigs"], nrows + 1, stick=r.choice([0, .3, .7]))
    for k in range(nrows):
        plain = r.random() < .3
        t = t + 1 if plain else t + 1 + (0 if r.random() < .3 else r.randrange(0, gapstyle + 1))
        ev.append([None if plain else t, rows[k]])
    p["events"] = ev
    p["header"] = r.random() < .7
    return p


def horizon(f):
    """No verdict depends on rows further away than this, in either direction."""
    return (f[2] if f[0] in ("G", "F", "H", "O", "U", "R", "S", "T") else 0) + max([0] + [horizon(g) for g in f[1:] if isinstance(g, list) and f[0] != "cmp"])


class Dense:
    """The dense history of an event list, with constant stretches longer than 2H + 1 steps shortened to that:
    inside a stretch, H steps away from both ends, every verdict is the same."""

    def __init__(self, events, H):
        self.rows, self.seg, t, H = [], [], -1, H + 1
        for T, row in events:
            T = t + 1 if T is None else T
            n = T - t
            m = min(n, 2 * H + 1)
            if n > 0:
                self.seg.append((t + 1, T, len(self.rows), len(self.rows) + m - 1))
                self.rows += [row] * m
            t = T
        self.n, self.H, self.k = t + 1, H, 0

    def red(self, t):
        """Index into the shortened history for time t."""
        if not self.seg or t >= self.n: return len(self.rows) + t - self.n
        lo, hi = 0, len(self.seg) - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.seg[mid][1] < t: lo = mid + 1
            else: hi = mid
        a, b, x, y = self.seg[lo]
        if t - a <= self.H: return x + min(t - a, y - x)
        if b - t <= self.H: return y - min(b - t, y - x)
        return x + self.H


def dense(events):
    return Dense(events, 10**9).rows


def judge(F, vals, D, evs, o):
    prev = [-1] * len(F)
    for e in evs:
        f, t, v = e[2], e[3], e[4]
        if t <= prev[f]: return o.fail("out-of-order", "formula %d: verdict for time %d after verdict for time %d" % (f, t, prev[f]))
        for x in range(D.red(prev[f] + 1), min(D.red(t), len(vals[f]) - 1) + 1):
            w = vals[f][x]
            if w is not None and w != bool(v):
                return o.fail("wrong-verdict", "formula %d: reported %s up to time %d, but it is %s within (%d, %d]" % (f, bool(v), t, w, prev[f], t))
        o.stats["verdicts"] += 1
        if t > prev[f] + 1: o.stats["aggregated_verdicts"] += 1
        if t >= D.n: o.stats["predicted_verdicts"] += 1
        prev[f] = t
    for f in range(len(F)):
        need = D.n - 1 - ref.wpd(F[f][1])
        if prev[f] < need: return o.fail("lost-verdict", "formula %d: verdicts only up to time %d, due up to %d" % (f, prev[f], need))


def csv_row(sigs, row, stamp=None):
    body = ",".join(gen.fl(v) if t == "float" else str(v) for (n, t), v in zip(sigs, row))
    return body if stamp is None else "@%d %s" % (stamp, body)


def parse_out(b, nform, o):
    """Parse the program's verdict lines; returns [(formula, time, value)] or None after recording a violation."""
    res = []
    for line in b.decode("latin1").split("\n"):
        if not line: continue
        try:
            f, rest = line.split(":"); t, v = rest.split(",")
            f, t = int(f), int(t)
            if v not in ("T", "F") or not 0 <= f < nform: raise ValueError
        except ValueError:
            o.fail("bad-output-line", line); return None
        res.append(("V", 0, f, t, v == "T"))
    return res


def execute(plan):
    o = Out()
    try: b, s = msim.compile_plan(plan)
    except msim.Skip:
        o.nontrivial = False; return o
    except c2.CompileError as e:
        return o.fail("spec-rejected", e)
    F = msim.formulas(plan)
    D = Dense(plan["events"], max(horizon(f) for _, f in F))
    rows = D.rows
    if not rows or D.n > 2**31 - 10000:
        o.nontrivial = False; return o
    R = ref.Ref(rows, len(rows) + max(ref.wpd(f) for _, f in F) + 1)
    try: vals = [R.val(f) for _, f in F]
    except ref.Undefined:
        o.nontrivial = False; return o
    text = ("# h\n" if plan["header"] else "") + "".join(csv_row(plan["sigs"], row, T) + "\n" for T, row in plan["events"])
    run = msim.driver(msim.pick(b)).run(["file s.bin " + b.hex(), "file t.csv " + text.encode().hex(), "arg s.bin", "arg t.csv", "cli"])
    o.stats["sim:trace_rows"] += len(plan["events"])
    o.stats["sim:time_covered_steps"] += D.n
    o.stats["fault:clock_jumps"] += sum(b > a for a, b, x, y in D.seg)
    o.stats["fault:clock_jumps_past_2^16"] += sum(b - a > 65535 for a, b, x, y in D.seg)
    if run.fault:
        return o.fail("monitor-" + run.fault[0], run.fault[1])
    if run.rc != 0: return o.fail("exit-status", "exit %d on a readable trace" % run.rc)
    evs = parse_out(run.out, len(F), o)
    if evs is None: return o
    judge(F, vals, D, evs, o)
    o.sig = h16([run.out.hex(), run.cov[2]])
    o.nontrivial = len(evs) > 0 and D.n > len(plan["events"])
    return o


def shrink(plan):
    yield from msim.shrink_spec(plan)
    yield from msim.shrink_opts(plan)
    ev = plan["events"]
    n = len(ev)
    for k in range(n):
        if n > 1: yield dict(plan, events=ev[:k] + ev[k + 1:])
    for k in range(n):
        if ev[k][0] is not None:
            prev = Dense(ev[:k], 1).n - 1
            if ev[k][0] > prev + 1:
                for T in (prev + 1, (prev + 1 + ev[k][0]) // 2):
                    sh = ev[k][0] - T
                    yield dict(plan, events=ev[:k] + [[T, ev[k][1]]] + [[None if a is None else a - sh, b] for a, b in ev[k + 1:]])
        z = [0.0 if isinstance(v, float) else 0 for v in ev[k][1]]
        if z != ev[k][1]: yield dict(plan, events=ev[:k] + [[ev[k][0], z]] + ev[k + 1:])
