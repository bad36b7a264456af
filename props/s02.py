"""S02: parametric equivalences: 'equiv' holds for every choice of interval bounds, 'not-equiv' for some choice."""
import itertools, os, random, re, shutil
import z3
from dst import c2, disk, msim, proc
from dst.core import Out, h16
from props import s01

LEVEL = "exploration"
COUNTS = {"quick": 2500, "thorough": 50000}
RULE = ("one run = a parametric rule (laws of the logic over symbolic interval bounds with constraints, exact or with one or two bounds, operators, operands or constraints changed) written in the equivalence "
        "format and put to check_equiv and write_equiv_smt_encoding; the solver is the simulated process of S01 with its faults; 'equiv' is refuted by any admissible choice of bounds, enumerated "
        "within a small range, under which the own unrolled encoding distinguishes the two sides, 'not-equiv' must come with a choice of bounds that does; faults must be reported and the check repeatable; "
        "non-trivial = an answer or a fault; distinct = by hash of rule, command and faults")
MEASURE = "hash of rule, command, faults that fired and answers"
REAL = ["C2PO (console, equivalence-format parser, symbolic UFLIA encoding, solver runner)", "z3 deciding the emitted SMT-LIB text"]
STUB = s01.STUB
ASSUME = ["z3 decides the unrolled instances correctly", "bounds up to 4 (up to 40 where a model names them) are enough to tell two sides apart"]
cleanup = msim.cleanup


def prepare(tier):
    c2.c2po()


# formulas: as elsewhere, with bounds that are texts over b0, b1, ...
A, B, C = ["p", 0], ["p", 1], ["p", 2]
LAWS = [
    (["b0 <= b2", "b2 <= b1 + 1", "b4 = max(b1, b3)"], ["|", ["F", "b0", "b1", A], ["F", "b2", "b3", A]], ["F", "b0", "b4", A]),
    (["b0 <= b2", "b2 <= b1 + 1", "b4 = max(b1, b3)"], ["&", ["G", "b0", "b1", A], ["G", "b2", "b3", A]], ["G", "b0", "b4", A]),
    ([], ["G", "b0", "b1", ["G", "b2", "b3", A]], ["G", "b0 + b2", "b1 + b3", A]),
    ([], ["F", "b0", "b1", ["F", "b2", "b3", A]], ["F", "b0 + b2", "b1 + b3", A]),
    ([], ["!", ["F", "b0", "b1", A]], ["G", "b0", "b1", ["!", A]]),
    ([], ["!", ["G", "b0", "b1", A]], ["F", "b0", "b1", ["!", A]]),
    ([], ["!", ["U", "b0", "b1", A, B]], ["R", "b0", "b1", ["!", A], ["!", B]]),
    ([], ["!", ["R", "b0", "b1", A, B]], ["U", "b0", "b1", ["!", A], ["!", B]]),
    ([], ["G", "b0", "b1", ["&", A, B]], ["&", ["G", "b0", "b1", A], ["G", "b0", "b1", B]]),
    ([], ["F", "b0", "b1", ["|", A, B]], ["|", ["F", "b0", "b1", A], ["F", "b0", "b1", B]]),
    ([], ["U", "b0", "b1", ["tt"], A], ["F", "b0", "b1", A]),
    ([], ["R", "b0", "b1", ["ff"], A], ["G", "b0", "b1", A]),
    ([], ["U", "0", "b0", A, ["U", "0", "b1", A, B]], ["U", "0", "b0 + b1", A, B]),
    ([], ["F", "b2", "b2", ["U", "b0", "b1", A, B]], ["U", "b0 + b2", "b1 + b2", A, B]),
    ([], ["G", "b2", "b2", ["F", "b0", "b1", A]], ["F", "b0 + b2", "b1 + b2", A]),
    ([], ["U", "b0", "b1", A, ["|", B, C]], ["|", ["U", "b0", "b1", A, B], ["U", "b0", "b1", A, C]]),
    ([], ["U", "b0", "b1", ["&", A, B], C], ["&", ["U", "b0", "b1", A, C], ["U", "b0", "b1", B, C]]),
    (["b1 = b0 + 1"], ["F", "b0", "b1", A], ["|", ["F", "b0", "b0", A], ["F", "b1", "b1", A]]),
    (["b0 <= b2", "b2 < b1"], ["G", "b0", "b1", A], ["&", ["G", "b0", "b2", A], ["G", "b2 + 1", "b1", A]]),
    (["b0 <= b2", "b2 < b1"], ["F", "b0", "b1", A], ["|", ["F", "b0", "b2", A], ["F", "b2 + 1", "b1", A]]),
    (["b0 <= b2", "b3 <= b1"], ["&", ["G", "b0", "b1", A], ["G", "b2", "b3", A]], ["G", "b0", "b1", A]),
    (["b0 <= b2", "b3 <= b1"], ["|", ["G", "b0", "b1", A], ["G", "b2", "b3", A]], ["G", "b2", "b3", A]),
    ([], ["->", ["F", "b0", "b1", A], B], ["|", ["G", "b0", "b1", ["!", A]], B]),
    ([], ["<->", ["F", "b0", "b1", A], ["F", "b0", "b1", A]], ["tt"]),
    (["b2 = b0 + 2 * b1"], ["F", "b0", "b0", ["F", "b1", "b1", ["F", "b1", "b1", A]]], ["F", "b2", "b2", A]),
    (["b2 = min(b0, b1)", "b3 = max(b0, b1)"], ["&", ["G", "0", "b0", A], ["G", "0", "b1", A]], ["G", "0", "b3", A]),
    (["b2 = min(b0, b1)"], ["|", ["G", "0", "b0", A], ["G", "0", "b1", A]], ["G", "0", "b2", A]),
    (["b0 >= b1"], ["G", "b0 - b1", "b0", A], ["F", "b0 - b1", "b0 - b1", ["G", "0", "b1", A]]),
    ([], ["F", "0", "0", A], A), ([], ["G", "1", "1", ["F", "0", "b0", A]], ["F", "1", "b0 + 1", A]), ([], ["F", "1", "1", ["G", "0", "b0", A]], ["G", "1", "b0 + 1", A]),
    # what follows from an interval not being empty
    ([], ["R", "b0", "b1", A, B], ["&", ["R", "b0", "b1", A, B], ["G", "b0", "b0", B]]), ([], ["U", "b0", "b1", A, B], ["|", ["U", "b0", "b1", A, B], ["F", "b0", "b0", B]]),
    ([], ["G", "b0", "b1", A], ["&", ["G", "b0", "b1", A], ["F", "b0", "b0", A]]), ([], ["F", "b0", "b1", A], ["|", ["F", "b0", "b1", A], ["F", "b1", "b1", A]]),
    ([], ["F", "b0", "b1", ["tt"]], ["tt"]), ([], ["G", "b0", "b1", ["ff"]], ["ff"]), ([], ["U", "b0", "b1", A, ["tt"]], ["tt"]), ([], ["R", "b0", "b1", A, ["ff"]], ["ff"]),
    (["b0 != b1", "b0 <= b1"], ["F", "b0", "b1", A], ["|", ["F", "b0", "b0", A], ["F", "b0 + 1", "b1", A]]),
]


def sub(f, ps):
    if f[0] == "p": return ps[f[1]]
    return [sub(x, ps) if isinstance(x, list) else x for x in f]


def mutate(r, cs, f, g):
    c = r.random()
    if cs and c < .3:
        i = r.randrange(len(cs))
        if r.random() < .4: return cs[:i] + cs[i + 1:], f, g
        t = cs[i]
        for a, b in r.sample([("<= ", "< "), ("< ", "<= "), ("+ 1", "+ 2"), ("+ 1", "+ 0"), ("max", "min"), ("min", "max"), ("= ", "<= "), (">= ", "> "), ("2 *", "3 *"), ("!=", "=")], 10):
            if a in t and not (a == "= " and re.search("[<>!]= ", t)): return cs[:i] + [t.replace(a, b, 1)] + cs[i + 1:], f, g
        return cs, f, g
    side = r.random() < .5
    h = f if side else g
    nodes = []

    def walk(x, path):
        nodes.append((path, x))
        for i, y in enumerate(x):
            if isinstance(y, list): walk(y, path + [i])
    walk(h, [])
    path, x = r.choice(nodes)
    if x[0] in "GFUR":
        y = list(x)
        k = r.randrange(4)
        if k == 0: y[2] = "%s + 1" % y[2]
        elif k == 1: y[1] = r.choice(["0", "b0"]) if y[1] != "0" else "1"; y[2] = "%s + 1" % y[2] if y[1] == "1" else y[2]
        elif k == 2: y[0] = {"G": "F", "F": "G", "U": "R", "R": "U"}[y[0]]
        elif len(y) > 4: y[3], y[4] = y[4], y[3]
        else: y[2] = y[1]
    elif x[0] in ("&", "|"): y = [r.choice(["&", "|", "->", "<->"])] + x[1:3]
    elif x[0] == "!": y = x[1]
    else: y = r.choice([["!", x], ["a", 0], ["a", 1]])

    def put(z, path):
        if not path: return y
        return [put(v, path[1:]) if i == path[0] else v for i, v in enumerate(z)]
    h = put(h, path)
    return cs, (h if side else f), (g if side else h)


def join(a, b):
    return a if a == b or b == "0" else b if a == "0" else "max(%s, %s)" % (a, b)


def far(f):
    """How far the formula looks ahead."""
    ws = [far(x) for x in f[1:] if isinstance(x, list)]
    w = "0"
    for x in ws: w = join(w, x)
    if f[0] in "GFUR": w = f[2] if w == "0" else w if f[2] == "0" else "%s + %s" % (f[2], w)
    return w


def gen_run(r, i, tier):
    cs, f, g = r.choice(LAWS)
    ps = r.choice([[["a", 0], ["a", 1], ["a", 2]], [["a", 1], ["a", 0], ["a", 12]], [["a", 0], ["!", ["a", 1]], ["a", 0]], [["&", ["a", 0], ["a", 1]], ["a", 0], ["a", 2]],
                   [["F", "0", "1", ["a", 0]], ["a", 1], ["a", 2]], [["G", "b0", "b0", ["a", 0]], ["a", 1], ["a", 2]]])
    f, g, cs = sub(f, ps), sub(g, ps), list(cs)
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])): cs, f, g = mutate(r, cs, f, g)
    if r.random() < .3: f, g = g, f
    used = sorted(set(re.findall(r"b\d+", repr([cs, f, g]))))
    if r.random() < .3:  # other names
        to = r.sample(range(20), len(used))
        m = {u: "b%d" % t for u, t in zip(used, to)}
        ren = lambda x: re.sub(r"b\d+", lambda k: m[k[0]], x) if isinstance(x, str) and x[:1] not in ("p",) else [ren(y) for y in x] if isinstance(x, list) else x
        cs, f, g = ren(cs), ren(f), ren(g)
    if r.random() < .2:  # the mission lasts as long as what is asked, or longer
        bs = sorted(set(re.findall(r"b\d+", repr([f, g]))))
        if bs and r.random() < .5:
            b = r.choice(bs)
            end = lambda x: re.sub(r"\b%s\b" % b, "M", x) if isinstance(x, str) else [end(y) for y in x] if isinstance(x, list) else x
            cs, f, g = end(cs), end(f), end(g)
        w = join(far(f), far(g))
        cs.append(r.choice(["M = " + w, "M = " + w, "M >= " + w, w + " <= M"]))
    if r.random() < .15:  # propositions
        to = r.sample([13, 14, 15], 1)[0]
        n = r.randrange(2)
        alt = lambda x: ["a", to] if x == ["a", n] else [alt(y) for y in x] if isinstance(x, list) else x
        f, g = alt(f), alt(g)
    r.shuffle(cs)
    plan = {"cs": cs, "f": f, "g": g, "solver": r.choice(s01.SOLVERS), "by": r.choice(["path", "set"]), "time": r.choice([None, 2, 60]), "mem": r.choice([None, 100]), "kind": r.choice(["check_equiv"] * 3 + ["write_equiv_smt_encoding"]),
            "spaces": r.random() < .3, "comment": r.random() < .2, "faults": [], "seed": r.randrange(1 << 30)}
    if r.random() < .35:
        k = r.choice(s01.HARDK + s01.SOFTK)
        plan["faults"] = [["solve", 0, ["solve", k, r.random(), r.randrange(6)] if r.random() < .85 else ["spawn", r.choice(proc.SPAWN)]]]
    return plan


def ftext(f):
    k = f[0]
    if k == "a": return "a%d" % f[1] if f[1] < 13 else "p%d" % [1, 0, 12][f[1] - 13]
    if k in ("tt", "ff"): return "true" if k == "tt" else "false"
    if k == "!": return "!(%s)" % ftext(f[1])
    if k in ("&", "|", "->", "<->"): return "(%s) %s (%s)" % (ftext(f[1]), k, ftext(f[2]))
    if k in "GF": return "%s[%s,%s] (%s)" % (k, f[1], f[2], ftext(f[3]))
    return "(%s) %s[%s,%s] (%s)" % (ftext(f[3]), k, f[1], f[2], ftext(f[4]))


def text(plan):
    out = "".join("c: %s\n" % c for c in plan["cs"]) + ftext(plan["f"]) + "\n" + ftext(plan["g"]) + "\n"
    if plan["spaces"]: out = out.replace(" ", "")
    return out


def ev(e, env):
    return eval(re.sub(r"(?<![<>!=])=(?!=)", "==", e), {"min": min, "max": max, "__builtins__": {}}, env)


def inst(f, env):
    """The formula with numbers for bounds; None if an interval is not one."""
    if f[0] in "GFUR" and len(f) > 3:
        lb, ub = ev(f[1], env), ev(f[2], env)
        if not 0 <= lb <= ub: return None
        kids = [inst(x, env) for x in f[3:]]
        return None if None in kids else [f[0], lb, ub] + kids
    kids = [inst(x, env) if isinstance(x, list) else x for x in f[1:]]
    return None if None in kids else [f[0]] + kids


def differ(plan, env):
    """None if the choice is not admissible, else whether the two sides differ."""
    if not all(ev(c, env) for c in plan["cs"]): return None
    f, g = inst(plan["f"], env), inst(plan["g"], env)
    if f is None or g is None: return None
    return s01.Truth([["a%d" % i, "bool"] for i in range(16)]).sat([["^", f, g]])


def execute(plan):
    o = Out()
    d = os.path.join(msim.scratch(), "s02")
    shutil.rmtree(d, ignore_errors=True)
    for x in ("", "/o", "/tmp", "/bin", "/opt"): os.mkdir(d + x)
    t = text(plan)
    if plan["comment"]: t = "# a rule\n" + t
    with open(d + "/r.equiv", "w") as f: f.write(t)
    exe = d + ("/opt/" if plan["by"] == "set" else "/bin/") + plan["solver"]
    open(exe, "w").close(); os.chmod(exe, 0o755)
    used = sorted(set(re.findall(r"b\d+|M", repr([plan["cs"], plan["f"], plan["g"]]))))
    r = random.Random(plan["seed"])
    top = {0: 1, 1: 8, 2: 5, 3: 4, 4: 3}.get(len(used), 3)
    if "M" in used: top = {1: 9, 2: 5, 3: 4}.get(len(used), 3)
    combos = list(itertools.product(*[range(top * 3 if u == "M" else top) for u in used]))
    r.shuffle(combos)
    witness, tried = None, 0
    for c in combos:
        if tried >= 60: break
        x = differ(plan, dict(zip(used, c)))
        if x is None: continue
        tried += 1
        if x: witness = dict(zip(used, c)); break
    o.stats["instances"] += tried
    oldpath = os.environ.get("PATH", "")
    answers = []
    check = plan["kind"] == "check_equiv"
    try:
        os.environ["PATH"] = d + "/bin"
        s = c2.Session(d)
        if plan["by"] == "set": s.cmd("set_smt_solver_path " + exe)
        for c in ("parse_equiv %s/r.equiv" % d, "type_check"):
            so, se, bad = s.cmd(c)
            if bad or se.strip(): return o.fail("refused", "%s: %s\n%s" % (c, se, t))
        line = "check_equiv uflia" + (" --smt-max-time %d" % plan["time"] if plan["time"] else "") + (" --smt-max-memory %d" % plan["mem"] if plan["mem"] else "") if check else "write_equiv_smt_encoding %s/o/q uflia" % d
        for round_ in ("faulty", "healthy"):
            if round_ == "faulty" and not (plan["faults"] and check): continue
            sim = s01.Sim(plan, d)
            with proc.World(sim.program, sim.kinds, {(k, n): tuple(f) for k, n, f in plan["faults"]} if round_ == "faulty" else {}) as w, disk.Disk(d):
                try: so, se, bad = s.cmd(line)
                except proc.Hang as e: return o.fail("hangs", "%s\n%s" % (e, t))
            for f in w.fired: o.stats["fault:%s" % (f[2] + ":" + str(f[3]) if f[2] == "spawn" else f[2] + ":" + f[3])] += 1
            o.stats["sim:ms"] += int(w.time * 1000)
            show = "%s, solver %s, faults %s\nstdout: %s\nstderr: %s\n%s" % (line, plan["solver"], w.fired, so[-800:], se[-1200:], t)
            if "unexpected error" in se or "internal error" in se.lower(): return o.fail("internal-error", show)
            if w.left(): return o.fail("process-left", show)
            if check: said = (re.findall(r"(?m)^(equiv|not-equiv|unknown)$", so) or [None])[-1]
            else:
                if bad: return o.fail("fails", show)
                with open(d + "/o/q") as f: enc = f.read()
                said = {"sat": "not-equiv", "unsat": "equiv", "unknown": "unknown"}.get(s01.decide(enc).strip())
                if said is None: return o.fail("bad-encoding", "%s\n%s" % (s01.decide(enc), show))
            if any(x.startswith("rejected") for x in sim.trouble): return o.fail("bad-encoding", "%s\n%s" % (sim.trouble, show))
            o.stats["answer:%s" % said] += 1
            if said == "equiv" and witness is not None: return o.fail("wrong-equiv", "they differ for %s\n%s" % (witness, show))
            if said == "equiv" and sim.trouble: return o.fail("equiv-after-fault", show)
            if said == "not-equiv" and witness is None:
                # which bounds does the encoding name?
                if not check: env = model(enc, used)
                else:
                    s.cmd("write_equiv_smt_encoding %s/o/q2 uflia" % d)
                    with open(d + "/o/q2") as f: env = model(f.read(), used)
                if env is None or max(env.values(), default=0) > 40: o.stats["not_confirmed"] += 1
                else:
                    x = differ(plan, env)
                    if x is not True and x is not None or x is None: return o.fail("wrong-not-equiv", "no difference for %s (%s)\n%s" % (env, x, show))
            hard = sim.trouble or [f for f in w.fired if f[2] == "spawn"]
            if hard and not bad: return o.fail("fault-but-success", show)
            if hard and not se.strip(): return o.fail("silent-failure", show)
            if not hard and not sim.soft:
                if bad: return o.fail("fails", show)
                if said is None: return o.fail("no-answer", show)
            answers.append((round_, said, bad))
    finally:
        os.environ["PATH"] = oldpath
    if witness is None and tried: o.stats["laws"] += 1
    o.sig = h16((t, line, plan["solver"], answers))
    return o


def model(enc, used):
    c = z3.Context()
    s = z3.Solver(ctx=c)
    s.set("rlimit", 6000000)
    try: s.from_string(enc)
    except z3.Z3Exception: return None
    if s.check() != z3.sat: return None
    m = s.model()
    return {u: m.eval(z3.Int(u, c), model_completion=True).as_long() for u in used}


def shrink(plan):
    if plan["faults"]: yield dict(plan, faults=[])
    if plan["spaces"]: yield dict(plan, spaces=False)
    if plan["comment"]: yield dict(plan, comment=False)
    for i in range(len(plan["cs"])): yield dict(plan, cs=plan["cs"][:i] + plan["cs"][i + 1:])
