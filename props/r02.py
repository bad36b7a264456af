"""R02: each formula's verdicts appear in time order, none is lost, each within the worst-case delay, and every step ends."""
from dst import gen, msim, ref
from dst.core import Out
from . import r01

LEVEL = "exploration"
COUNTS = {"quick": 20000, "thorough": 200000}
RULE = ("one run = a random specification stepped through a delivered history as in R01, biased to nested past-time operators, constants, shared "
        "subformulas and long constant stretches (aggregated and predicted verdicts); the history is checked for order, for the bound "
        "'after step k every verdict up to k - worst-case delay is out' and for termination of every step within a work budget; "
        "non-trivial = at least one verdict; distinct = by (verdict history, code edges reached)")
MEASURE, REAL, STUB, ASSUME = r01.MEASURE, r01.REAL, r01.STUB, r01.ASSUME
cleanup = msim.cleanup
prepare = r01.prepare
shrink = r01.shrink


def gen_run(r, i, tier):
    p = r01.gen_plan(r, 60 if tier == "quick" else r.choice([60, 200]))
    if r.random() < .5:
        feats = {"consts": True, "share": r.choice([0, .3]), "big": r.random() < .3}
        q = gen.spec(r, bz=False, kinds=r.choice(["pt", "pt", "ft", "both"]), feats=feats, depth=r.choice([2, 3, 4]))
        n = r.choice([8, 20, 60, 120])
        W = max(ref.wpd(f) for _, f in msim.formulas(q))
        rows = gen.rows(r, q["sigs"], n + W + 4, stick=r.choice([0, .5, .9, .97]))
        p.update(q, n=n, deliv=[[[c, v] for c, v in enumerate(row)] for row in rows])
    return p


def execute(plan):
    return r01.execute(plan, late=True)
