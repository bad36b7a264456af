"""Simulated monitor runs: spec + delivered sensor updates -> verdict history, judged against the reference model."""
import atexit, re, struct
from . import c2, cbuild, gen, mon, ref
from .core import h16

_B = {}
_D = {}
_S = {}
ENG_CG, ENG_TL, ENG_BZ, OP_ATOMIC = 2, 4, 5, 0


def big_bounds():
    with open(cbuild.CSRC + "/internals/bounds.h") as f: t = f.read()
    return set_bounds(t, TL_INSTRUCTIONS=4096, BZ_INSTRUCTIONS=4096, TEMPORAL_OPERATORS=2048, QUEUE_SLOTS=65536, ATOMICS=2048, SIGNALS=1024,
                      AUX_BYTES=32768, FORMULAS=512, CONTRACTS=256)


def set_bounds(t, **kw):
    for k, v in kw.items():
        t, n = re.subn(r"(#define\s+R2U2_(?:AUX_)?MAX_%s\s+)\d+" % k, r"\g<1>%d" % v, t)
        if n != 1: raise mon.HarnessError("bounds.h: " + k)
    return t


def default_bounds():
    with open(cbuild.CSRC + "/internals/bounds.h") as f: t = f.read()
    return {k: int(v) for k, v in re.findall(r"#define\s+R2U2_((?:AUX_)?MAX_\w+)\s+(\d+)", t)}


BOUNDS = ["AUX_BYTES", "FORMULAS", "CONTRACTS", "SIGNALS", "ATOMICS", "BZ_INSTRUCTIONS", "TL_INSTRUCTIONS", "TEMPORAL_OPERATORS", "QUEUE_SLOTS"]


def bound_name(k):
    return "R2U2_AUX_MAX_" + k if k in ("FORMULAS", "CONTRACTS") else "R2U2_MAX_" + k


def rt_bounds():
    """A bounds.h whose limits are run-time values in the library (fixed ones in the unit tests of size-declared arrays)."""
    t = big_bounds()
    for n, k in enumerate(BOUNDS):
        t, c = re.subn(r"(#define\s+%s\s+)(\d+)" % bound_name(k), r"#ifdef DST_FIXED_BOUNDS\n\g<1>\g<2>\n#else\n\g<1>(dst_bounds[%d])\n#endif" % n, t)
        if c != 1: raise mon.HarnessError("bounds.h: " + k)
    return "#include <stddef.h>\nextern size_t dst_bounds[];\n" + t


def alloc_line(m, bounds):
    return "alloc %d %s" % (m, " ".join(str(bounds[bound_name(k)]) for k in BOUNDS))


def parse_bounds(text):
    """Values of a generated bounds header."""
    return {k: int(float(v)) for k, v in re.findall(r"^#define\s+(\w+)\s+([\d.]+)\s*$", text, re.M)}


def prepare(*kinds):
    """kinds: plain | big | asan | aux | auxbig | auxasan | rt | auxrt"""
    for k in kinds:
        _B[k] = cbuild.build(aux=k.startswith("aux"), bounds_h=big_bounds() if k.endswith("big") else rt_bounds() if k.endswith("rt") else None,
                             sanitize=k.endswith(("asan", "rt")))
    _B["limits"] = default_bounds()
    c2.c2po()


def driver(kind):
    import os
    key = (os.getpid(), kind)
    if key not in _D:
        _D[key] = mon.Driver(_B[kind] if kind in _B else kind)
    return _D[key]


def scratch():
    import os
    k = os.getpid()
    if k not in _S:
        s = c2.Scratch(); s.__enter__(); _S[k] = s
        atexit.register(cleanup)
    return _S[k].d


def cleanup():
    import os
    s = _S.pop(os.getpid(), None)
    if s: s.__exit__()
    for k in [k for k in _D if k[0] == os.getpid()]:
        try: _D.pop(k).close()
        except Exception: pass


def binary_needs(b):
    """Resource needs of a specification binary, read off its instruction records."""
    off = b[0]
    n = {"tl": 0, "bz": 0, "temps": 0, "slots": 0, "atoms": 0}
    while off < len(b) and b[off]:
        ins = b[off:off + b[off]]
        off += b[off]
        if ins[1] == ENG_CG and ins[2] == ENG_TL:
            v1, _, _, t1 = struct.unpack_from("<IIIB", ins, 3)
            if t1 == OP_ATOMIC: n["slots"] += v1
            else: n["temps"] += 1
        elif ins[1] == ENG_BZ:
            n["bz"] = max(n["bz"] + 1, struct.unpack_from("<I", ins, 2 + 12)[0] + 1)
        elif ins[1] == ENG_TL:
            n["tl"] += 1
            v1, _, _, t1 = struct.unpack_from("<IIIB", ins, 2)
            if t1 == OP_ATOMIC: n["atoms"] = max(n["atoms"], v1 + 1)
    return n


def fits(b, lim):
    """Whether the compiled specification fits the monitor's compiled-in bounds."""
    n = binary_needs(b)
    return (n["tl"] <= lim["MAX_TL_INSTRUCTIONS"] and n["bz"] <= lim["MAX_BZ_INSTRUCTIONS"] and n["temps"] <= lim["MAX_TEMPORAL_OPERATORS"]
            and n["slots"] <= lim["MAX_QUEUE_SLOTS"] and n["atoms"] <= lim["MAX_ATOMICS"])


class Skip(Exception):
    pass


def compile_plan(plan, opts=None, **kw):
    try:
        return c2.compile_text(scratch(), gen.spec_text(plan), plan["sigs"], plan["opts"] if opts is None else opts, plan["bz"], ids=plan.get("ids"), **kw)
    except c2.CompileError as e:
        if "found constant formula" in e.err:
            raise Skip("constant formula")
        raise


def pick(b, prefer="plain", big="big"):
    return prefer if fits(b, _B["limits"]) else big


def deliver(m, sigs, col, v, ids=None, typed=False):
    t = sigs[col][1]
    k = (ids[col] if ids else col)
    if typed:
        return "%s %d %d %s" % ({"bool": "b", "int": "i", "float": "f"}[t], m, k, repr(float(v)) if t == "float" else int(v))
    return "s %d %d %s" % (m, k, gen.fl(v) if t == "float" else v)


def formulas(plan):
    return plan["ft"] + plan["pt"]


def judge(F, vals, nrows, evs, o, steps_seen=None, late=True, value=True, order=True, times=None, start=0, covered=False):
    """Check one monitor's event stream (V/R events) against reference values.
    vals[f][t] in {True, False, None}; nrows = horizon of vals."""
    prev = [-1] * len(F)
    k = start
    for e in evs:
        if e[0] == "V":
            f, t, v = e[2], e[3], e[4]
            if not 0 <= f < len(F):
                return o.fail("unknown-formula", e)
            if order and t <= prev[f]:
                return o.fail("out-of-order", "formula %d: verdict for time %d after verdict for time %d (step %d)" % (f, t, prev[f], k))
            if value or covered:
                for x in range(prev[f] + 1, min(t if value else t - 1, nrows - 1) + 1):
                    w = vals[f][x]
                    if w is not None and w != bool(v):
                        if x < t and covered:
                            return o.fail("lost-verdict", "formula %d: the verdict for time %d (%s) was never reported, the next one is for time %d (during step %d)" % (f, x, w, t, k))
                        return o.fail("wrong-verdict", "formula %d: reported %s for time %d, expected %s (during step %d)" % (f, bool(v), x, w, k))
            o.stats["verdicts"] += 1
            if t > prev[f] + 1: o.stats["aggregated_verdicts"] += 1
            if t > k: o.stats["predicted_verdicts"] += 1
            prev[f] = max(prev[f], t)
        elif e[0] == "R":
            if e[2] != 0:
                return o.fail("step-error", "step returned status %d at step %d" % (e[2], k))
            if late:
                for f in range(len(F)):
                    need = k - ref.wpd(F[f][1])
                    if prev[f] < need:
                        return o.fail("late-verdict", "formula %d: verdict for time %d missing after step %d (last time %d, worst-case delay %d)"
                                      % (f, need, k, prev[f], ref.wpd(F[f][1])))
            k += 1
    return o


# ---------- plan shrinking ----------
def sub_formulas(f):
    if f[0] in ("a", "tt", "ff"): return
    if f[0] != "cmp":
        for g in f[1:]:
            if isinstance(g, list): yield g
        if f[0] in ("&", "|") and len(f) > 3:
            for i in range(1, len(f)): yield f[:i] + f[i + 1:]
        for i, g in enumerate(f):
            if isinstance(g, list):
                for h in sub_formulas(g): yield f[:i] + [h] + f[i + 1:]
        if f[0] in ("G", "F", "H", "O", "U", "R", "S", "T"):
            if f[1] > 0:
                yield [f[0], 0, f[2] - f[1]] + f[3:]
                yield [f[0], f[1] - 1, f[2] - 1] + f[3:]
            if f[2] > f[1]:
                yield [f[0], f[1], f[1]] + f[3:]
                yield [f[0], f[1], f[2] - 1] + f[3:]
    else:
        for i in (2, 3):
            for h in sub_nums(f[i]): yield f[:i] + [h] + f[i + 1:]


def sub_nums(e):
    if e[0] in ("i", "f", "ic", "fc", "tau"): return
    for g in e[1:]:
        if isinstance(g, list): yield g
    for i, g in enumerate(e):
        if isinstance(g, list):
            for h in sub_nums(g): yield e[:i] + [h] + e[i + 1:]


def shrink_spec(plan):
    for key in ("ft", "pt"):
        for i in range(len(plan[key])):
            if len(plan["ft"]) + len(plan["pt"]) > 1:
                yield dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})
    for key in ("ft", "pt"):
        for i, (lab, f) in enumerate(plan[key]):
            for h in sub_formulas(f):
                yield dict(plan, **{key: plan[key][:i] + [[lab, h]] + plan[key][i + 1:]})


def shrink_rows(plan, key="rows", keep=1):
    rows = plan[key]
    n = len(rows)
    for m in sorted({keep, n // 4, n // 2, n * 3 // 4, n - 4, n - 2, n - 1}):
        if keep <= m < n: yield dict(plan, **{key: rows[:m]})
    if n <= 40:
        for i in range(n): yield dict(plan, **{key: rows[:i] + rows[i + 1:]}) if n > keep else plan
        for i in range(n):
            z = [0.0 if isinstance(v, float) else 0 for v in rows[i]] if rows[i] is not None else None
            if z is not None and z != rows[i]: yield dict(plan, **{key: rows[:i] + [z] + rows[i + 1:]})


def shrink_opts(plan):
    for k in list(plan.get("opts", {})):
        q = dict(plan["opts"]); q.pop(k)
        yield dict(plan, opts=q)
