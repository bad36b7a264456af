"""C02: optimisation and normal-form passes, in any order and number, preserve verdicts; normal forms deliver their form."""
import os, re
from dst import c2, gen, msim, ref, sugar
from dst.core import Out, h16
from . import c01

LEVEL = "exploration"
COUNTS = {"quick": 12000, "thorough": 120000}
PASSES = ["optimize_rewrites", "optimize_cse", "remove_extended_operators", "to_nnf", "to_bnf", "flatten_multi_operators",
          "multi_operators_to_binary", "sort_operands_by_pd", "remove_release_operators", "compute_atomics", "compute_scq_sizes",
          "type_check", "desugar"]
# accepted before desugaring only when the program has enumerations or counts (their expansion is not typed again)
PRINTS = ["print_c2po", "print_prefix", "print_mltl"]
RULE = ("one run = a random specification, compiled through a random sequence of passes (up to 8, repetitions allowed, prints in between), then stepped "
        "through a random history and judged by the reference; after to_nnf / to_bnf the printed program must have the promised form; "
        "non-trivial = at least one verdict; distinct = by hash of specification text, pass sequence and verdict history")
MEASURE = "hash of specification text, pass sequence and verdict history"
REAL = ["C2PO (all passes, printers, assembler)", "C monitor library"]
STUB = ["sensors (simulated)"]
ASSUME = ["reference model (dst/ref.py) is right"]
cleanup = msim.cleanup
prepare = c01.prepare


def neg_xor(f, neg=False):
    """Does to_nnf meet a negated xor? (known finding: its expansion is wrong, and a test of the repository expects that)"""
    k = f[0]
    if k == "^" and neg: return True
    if k == "!": return neg_xor(f[1], not neg)
    if k == "->": return neg_xor(f[1], not neg) or neg_xor(f[2], neg)
    if k in ("^", "<->") or k not in ("G", "F", "U", "R", "&", "|"):
        return any(isinstance(g, list) and (neg_xor(g, True) or neg_xor(g, False)) for g in f[1:])
    return any(isinstance(g, list) and neg_xor(g, neg) for g in f[1:])


def gen_run(r, i, tier):
    p = gen.spec(r, depth=r.choice([1, 2, 2, 3]))
    if r.random() < .3: p = sugar.Sugar(r, p, p=.3).run()
    seq = []
    for _ in range(r.randrange(1, 9)):
        if r.random() < .12: seq.append(r.choice(PRINTS[:2]))
        seq.append(r.choice(PASSES))
    if any(neg_xor(sugar.plain(f)) for _, f in msim.formulas(p)):
        seq = [x for x in seq if x != "to_nnf"] or ["to_bnf"]
    if p.get("enums") or "exactly" in str(p) or "atleast" in str(p) or "atmost" in str(p): seq = [x for x in seq if x != "type_check"]
    p["again"] = r.random() < .3
    if p.get("needs_rewrite"): seq.insert(0, "optimize_rewrites")
    p["passes"] = seq
    p["opts"] = {"rewrite": False, "cse": False}
    if p.get("mission") is not None: p["opts"]["mission"] = p["mission"]
    p["rows"] = gen.rows(r, p["sigs"], r.choice([4, 8, 16]))
    for row in p["rows"]:
        for c, (nm, t) in enumerate(p["sigs"]):
            if nm in (p.get("decl") or {}): row[c] = r.randrange(0, 5)
    return p


def sexp(s):
    """Reads one line of print_prefix: nested lists of words."""
    tok, st = s.replace("(", " ( ").replace(")", " ) ").split(), [[]]
    for t in tok:
        if t == "(": st.append([])
        elif t == ")":
            x = st.pop()
            st[-1].append(x)
        else: st[-1].append(t)
    if len(st) != 1: raise ValueError("unbalanced")
    return st[0]


LOGICAL = {"&&", "||", "->", "xor", "<->", "!"}


def is_logic(x):
    return isinstance(x, list) and x and isinstance(x[0], str) and (x[0] in LOGICAL or (x[0][0] in "GFURHOST" and x[0][1:2] == "["))


def form_ok(x, form):
    if not is_logic(x): return None
    k = x[0]
    if form == "nnf":
        if k == "!" and is_logic(x[1]): return "negation of %s" % x[1][0]
        if k in ("->", "xor"): return k
    else:
        if not (k in ("!", "&&") or k[0] == "U"): return k
    for c in x[1:]:
        b = form_ok(c, form)
        if b: return b
    return None


def execute(plan):
    o = Out()
    text = sugar.spec_text(plan) if "style" in plan or plan.get("defs") or plan.get("structs") else c01.source(plan)
    d = msim.scratch()
    src, mp, out = (os.path.join(d, "s" + x) for x in (".c2po", ".map", ".bin"))
    with open(src, "w", encoding="utf-8") as f: f.write(text)
    with open(mp, "w") as f: f.write(c2.map_text(plan["sigs"]))
    if os.path.exists(out): os.unlink(out)
    s = c2.Session(d)
    L = (["enable_booleanizer"] if plan["bz"] else []) + (["set_mission_time %d" % plan["opts"]["mission"]] if plan["opts"].get("mission") is not None else [])
    L += ["parse_c2po " + src, "parse_map " + mp, "type_check", "desugar"]
    if plan.get("again"): L.insert(-1, "type_check")
    pure_future = not plan["pt"]
    for line in L + plan["passes"] + ["multi_operators_to_binary", "remove_extended_operators", "assemble --no-print " + out]:
        so, se, bad = s.cmd(line)
        if bad:
            if "found constant formula" in se:
                o.nontrivial = False
                o.stats["skipped_constant_formula"] += 1
                return o
            return o.fail("pass-failed:" + line.split()[0] + ":" + h16(re.sub(r"[^ a-z]|\w+_\d+|/\S+", "", (se or so).split("\n")[0]))[:6], "%s\n%s\n%s" % (se or so, plan["passes"], text))
        w = line.split()[0]
        if w in PASSES: o.stats["pass:" + w] += 1
        if w in ("to_nnf", "to_bnf") and pure_future:
            so, se, bad = s.cmd("print_prefix")
            if bad: return o.fail("print-failed", se)
            for l in so.splitlines():
                for x in sexp(l):
                    b = form_ok(x, w[3:])
                    if b: return o.fail("not-" + w[3:], "%s left in %s\n%s\n%s" % (b, l, plan["passes"], text))
            o.stats["form_checked:" + w] += 1
    with open(out, "rb") as f: b = f.read()
    c01.run_and_judge(plan, b, o)
    o.sig = h16([o.sig, plan["passes"]])
    return o


def known(plan, viol):
    return "negated-xor" if "to_nnf" in plan["passes"] and any(neg_xor(sugar.plain(f)) for _, f in msim.formulas(plan)) and viol[0] == "wrong-verdict" else None


def shrink(plan):
    for i in range(len(plan["passes"])):
        yield dict(plan, passes=plan["passes"][:i] + plan["passes"][i + 1:])
    yield from c01.shrink(plan)
