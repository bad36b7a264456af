"""S01: satisfiability and equivalence answers are true, whatever the solver process does."""
import os, re, shutil
import z3
from dst import c2, disk, gen, hist, msim, proc, ref, sugar
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 5000, "thorough": 100000}
RULE = ("one run = a generated future-time specification (1-4 formulas, Booleans and integers, contracts, after random passes), put to check_sat, check_equiv and the two commands that write encodings, "
        "with any theory, any of five solvers, strict or not; the solver is a simulated process whose spawning, speed, output and end are chosen by the seed (missing, failing, hanging, killed, "
        "out of memory, garbled, truncated, noisy), the temporary files are on a simulated disk; every claim printed must be true of the formulas (own unrolled encoding, models replayed on the reference "
        "evaluator), a healthy solver's answer must be passed on, a fault must be reported, and the session must be as good as new afterwards; non-trivial = an answer or a fault; distinct = by hash of "
        "specification, commands and faults")
MEASURE = "hash of specification, commands, faults that fired and answers"
REAL = ["C2PO (console, parser, passes, SMT encodings, solver runner)", "z3 deciding the emitted SMT-LIB text"]
STUB = ["the solver process: its SMT-LIB text is decided by the z3 library in the simulator (rlimit instead of time)", "process creation, signals, waiting and time (dst/proc.py)", "file descriptors (dst/disk.py)"]
ASSUME = ["z3 decides the unrolled formulas correctly", "integers in encodings are mathematical integers; constant divisors are not zero"]
cleanup = msim.cleanup
SOLVERS = ["z3", "cvc5", "yices-smt2", "mathsat", "bitwuzla"]
NAMES = ["a0", "b1", "p", "x_y", "e0", "e1", "k", "len", "i", "cplen", "sat", "unsat", "true_", "L_1", "e0_1", "e2_R_0"]
MEMOUT = {"z3": (101, b"", b'(error "out of memory")\n'), "cvc5": (1, b'(error "std::bad_alloc")\n', b""), "yices-smt2": (16, b"", b"Out of memory\n"), "mathsat": (-6, b"", b""),
          "bitwuzla": (-6, b"", b"terminate called after throwing an instance of 'std::bad_alloc'\n  what():  std::bad_alloc\n")}
HARDK = ["hang", "slow", "signal", "exit", "memout", "error"]
SOFTK = ["late", "noise", "unknown", "empty", "garbage", "cut", "stderr"]


def prepare(tier):
    c2.c2po()


# ---- generation

def num(r, ints, depth):
    if depth <= 0 or r.random() < .35: return ["i", r.choice(ints)] if r.random() < .7 else ["ic", r.choice([0, 1, 2, 3, 7])]
    op = r.choice(["+", "+", "-", "*", "/", "%", "neg"])
    if op == "neg": return ["neg", num(r, ints, depth - 1)]
    if op in "/%": return [op, num(r, ints, depth - 1), ["ic", r.choice([2, 3, 5])]]
    if op == "*": return [op, ["ic", r.choice([2, 3])], num(r, ints, depth - 1)]
    return [op, num(r, ints, depth - 1), num(r, ints, depth - 1)]


def fml(r, bools, ints, depth, ops, budget):
    if depth <= 0 or r.random() < .15:
        if ints and r.random() < .5: return ["cmp", r.choice(["==", "!=", ">", "<", ">=", "<="]), num(r, ints, 2), num(r, ints, r.choice([0, 0, 1]))]
        return ["a", r.choice(bools)] if r.random() < .94 else [r.choice(["tt", "ff"])]
    op = r.choice(ops)
    sub = lambda b=budget: fml(r, bools, ints, depth - 1, ops, b)
    if op == "!": return ["!", sub()]
    if op in ("&", "|"): return [op] + [sub() for _ in range(r.choice([2, 2, 2, 3, 4]))]
    if op in ("->", "<->", "^"): return [op, sub(), sub()]
    c = r.random()
    lb = r.choice([0, 0, 0, 1, 1, 2, 3]); ub = lb + r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])
    if ub > budget: ub = budget; lb = min(lb, ub)
    if op in "GF": return [op, lb, ub, sub(budget - ub)]
    return [op, lb, ub, sub(budget - ub), sub(budget - ub)]


def near(r, f, bools, ints, ops):
    """A formula equal or nearly equal to f."""
    c = r.randrange(7)
    if c == 0: return ["!", ["!", f]]
    if c == 1 and f[0] == "G": return ["!", ["F", f[1], f[2], ["!", f[3]]]]
    if c == 2 and f[0] in "GF" and f[2] > f[1]: m = r.randrange(f[1], f[2]); return ["&" if f[0] == "G" else "|", [f[0], f[1], m, f[3]], [f[0], m + r.choice([1, 1, 1, 0]), f[2], f[3]]]
    if c == 3 and f[0] in "GFUR": return f[:2] + [max(f[1], f[2] + r.choice([-1, 0, 1]))] + f[3:]
    if c == 4 and f[0] == "U": return ["!", ["U" if "R" not in ops else "R", f[1], f[2], ["!", f[3]], ["!", f[4]]]]
    if c == 5 and f[0] in ("&", "|"): return ["!", ["|" if f[0] == "&" else "&"] + [["!", g] for g in f[1:]]]
    return ["&", f, ["|", f, fml(r, bools, ints, 1, ops, 2)]]


def pinned(r, f, sigs, ints):
    """The formula or its negation over a trace of which a part is given: its value decides."""
    pins = []
    for t in range(r.randrange(ref.wpd(f) + 1) + 1):
        for i, (n, ty) in enumerate(sigs):
            if ty == "int" and (not ints or i not in ints) or r.random() < .15: continue
            v = r.choice([0, 1, 2, 3, 7, -1, -2, -5])
            l = ["cmp", "==", ["i", i], ["ic", v] if v >= 0 else ["neg", ["ic", -v]]] if ty == "int" else r.choice([["a", i], ["!", ["a", i]]])
            pins.append([r.choice("GF"), t, t, l] if t or r.random() < .2 else l)
    g = f if r.random() < .6 else ["!", f]
    for k in range(0, len(pins), 3): g = ["&", g] + pins[k:k + 3]
    return g


def gen_run(r, i, tier):
    bz = r.random() < .35
    names = r.sample(NAMES, 6)
    sigs = [[n, "bool"] for n in names[:r.choice([1, 2, 3])]]
    if bz: sigs += [[n, "int"] for n in names[3:3 + r.choice([1, 2])]]
    bools = [i for i, (n, t) in enumerate(sigs) if t == "bool"]; ints = [i for i, (n, t) in enumerate(sigs) if t == "int"]
    theory = r.choice(["uflia", "uflia", "qf_uflia", "qf_uflia", "qf_bv"])
    core = ["!", "&", "|", "G", "F", "U", "<->"] + ([] if theory == "qf_bv" else ["->"]) + (["R"] if theory == "uflia" else [])
    wide = r.random() < .15
    ops = core + (["^", "R", "->"] if wide else [])
    if theory == "qf_bv" and not wide: ints = []
    big = theory == "uflia"
    ft = []
    for k in range(r.choice([1, 1, 2, 2, 3, 4])):
        f = near(r, r.choice(ft)[1], bools, ints, ops) if ft and r.random() < .45 else fml(r, bools, ints, r.choice([1, 2, 2, 3] if not big else [1, 2, 2]), ops, r.choice([3, 6, 10] if not big else [2, 4, 6]))
        ft.append(["f%d" % k, f])
    many = r.random() < .02
    if many: ft = [["f%d" % k, fml(r, bools, ints, 1, ops, 4)] for k in range(r.choice([12, 20, 28]))]
    elif theory == "uflia" and re.search("'[/%*]'", repr(ft)): pass  # too hard for the solver
    elif r.random() < .3: ft = [[n, pinned(r, f, sigs, ints) if r.random() < .7 else f] for n, f in ft]
    kind = r.choice(["check_sat", "check_sat", "check_sat", "check_equiv", "check_equiv", "write_smt_encoding", "write_equiv_smt_encoding"])
    strict = r.random() < .25
    plan = {"sigs": sigs, "bz": bz, "ft": ft, "pt": [], "theory": theory, "wide": wide, "kind": kind, "strict": strict, "print": r.random() < .6, "quiet": r.random() < .15,
            "contract": r.random() < .15 and [r.randrange(len(ft) + 1), r.choice(bools)], "passes": r.sample([x for x in hist.PASSES], r.choice([0, 0, 0, 1, 2])),
            "solver": r.choice(SOLVERS), "by": r.choice(["path", "path", "path", "second", "set"]), "time": r.choice([None, 1, 3, 60]), "mem": r.choice([None, 0, 100, 4000]),
            "debug": r.random() < .05}
    F = []
    if r.random() < .65:
        for _ in range(r.choice([1, 1, 2])):
            n = r.choice([0, 0, 0, 1, 1, 2, 3])
            c = r.random()
            if c < .15: F.append(["probe", r.randrange(0, 3), ["spawn", r.choice(proc.SPAWN[:-1])] if r.random() < .5 else ["probe", r.choice(["hang", "exit", "noise"])]])
            elif c < .27: F.append(["solve", n, ["spawn", r.choice(proc.SPAWN)]])
            else:
                k = r.choice(HARDK + SOFTK)
                F.append(["solve", n, ["solve", k, r.random(), r.randrange(6)]])
    if "'^'" in repr(ft): plan["passes"] = [x for x in plan["passes"] if x != "to_nnf"]  # known finding of C02
    plan["faults"] = F
    plan["disk"] = [[r.choice(["open", "write", "close", "mkdir"]), r.randrange(0, 3), r.choice(["ENOSPC", "EACCES"]), r.random()]] if r.random() < .1 else []
    return plan


# ---- truth

class Truth:
    """Unrolled formulas over fresh constants, one per signal and time."""

    def __init__(self, sigs):
        self.c, self.sigs, self.v, self.memo = z3.Context(), sigs, {}, {}

    def sig(self, i, t):
        if (i, t) not in self.v:
            n, ty = self.sigs[i]
            self.v[i, t] = z3.Bool("s%d@%d" % (i, t), self.c) if ty == "bool" else z3.Int("s%d@%d" % (i, t), self.c)
        return self.v[i, t]

    def num(self, e, t):
        k = e[0]
        if k == "i": return self.sig(e[1], t)
        if k == "ic": return z3.IntVal(e[1], self.c)
        if k == "neg": return -self.num(e[1], t)
        a, b = self.num(e[1], t), self.num(e[2], t)
        if k == "+": return a + b
        if k == "-": return a - b
        if k == "*": return a * b
        q = z3.If(a >= 0, a / b, -((-a) / b))  # towards zero
        return q if k == "/" else a - b * q

    def val(self, f, t):
        key = (repr(f), t)
        if key not in self.memo: self.memo[key] = self._val(f, t)
        return self.memo[key]

    def _val(self, f, t):
        k = f[0]
        if k == "a": return self.sig(f[1], t)
        if k in ("tt", "ff"): return z3.BoolVal(k == "tt", self.c)
        if k == "cmp":
            a, b = self.num(f[2], t), self.num(f[3], t)
            return {"==": lambda: a == b, "!=": lambda: a != b, ">": lambda: a > b, "<": lambda: a < b, ">=": lambda: a >= b, "<=": lambda: a <= b}[f[1]]()
        if k == "!": return z3.Not(self.val(f[1], t))
        if k == "&": return z3.And([self.val(g, t) for g in f[1:]])
        if k == "|": return z3.Or([self.val(g, t) for g in f[1:]])
        if k == "->": return z3.Implies(self.val(f[1], t), self.val(f[2], t))
        if k == "<->": return self.val(f[1], t) == self.val(f[2], t)
        if k == "^": return z3.Xor(self.val(f[1], t), self.val(f[2], t))
        lb, ub = t + f[1], t + f[2]
        if k == "G": return z3.And([self.val(f[3], j) for j in range(lb, ub + 1)])
        if k == "F": return z3.Or([self.val(f[3], j) for j in range(lb, ub + 1)])
        r = self.val(f[4], ub)
        for j in range(ub - 1, lb - 1, -1):
            x, y = self.val(f[3], j), self.val(f[4], j)
            r = z3.Or(y, z3.And(x, r)) if k == "U" else z3.And(y, z3.Or(x, r))
        return r

    def sat(self, fs):
        """True, False or None; fs: formulas that must hold together at time 0."""
        s = z3.Solver(ctx=self.c)
        s.set("rlimit", 3000000)
        for f in fs: s.add(self.val(f, 0))
        a = s.check()
        if a == z3.unsat: return False
        if a != z3.sat: return None
        m, n = s.model(), max(ref.wpd(f) for f in fs) + 1
        rows = []
        for t in range(n):
            row = []
            for i, (name, ty) in enumerate(self.sigs):
                v = m.eval(self.sig(i, t), model_completion=True)
                row.append(z3.is_true(v) if ty == "bool" else v.as_long())
            rows.append(row)
        if all(abs(x) < 10000 for row in rows for x in row):
            R = ref.Ref(rows, n)
            if not all(R.val(f)[0] is True for f in fs): raise AssertionError("oracle disagrees with the reference evaluator: %s %s" % (fs, rows))
        return True


def decide(text):
    """What a healthy solver prints about an SMT-LIB text."""
    c = z3.Context()
    try: out = z3.Z3_eval_smtlib2_string(c.ref(), "(set-option :rlimit 4000000)\n" + text)
    except z3.Z3Exception as e: out = e.value.decode() if isinstance(e.value, bytes) else str(e.value)
    return out


# ---- the simulated world

class Sim:
    def __init__(self, plan, d):
        self.plan, self.d, self.answers, self.trouble, self.soft = plan, d, [], [], []
        self.name = plan["solver"]

    def kinds(self, argv):
        return "solve" if argv[-1].endswith(".smt2") else "probe"

    def program(self, kind, argv, child, fault):
        name = os.path.basename(argv[0])
        if kind == "probe":
            if name.startswith("broken") or os.path.dirname(argv[0]).endswith("bad"): return 1, b"", b"cannot load shared object\n", .01
            f = fault and fault[0]
            if f == "hang": self.soft.append("probe"); return 0, b"", b"", None
            if f == "exit": self.soft.append("probe"); return 2, b"", b"unknown option\n", .01
            if f == "noise": return 0, b"\xff\xfe sat unsat\n", b"", .2
            if argv[1] == "-v" and name == "cvc5": return 0, b"", b"", None  # would read commands from the terminal
            return (0 if argv[1] == "--version" else 1), b"version 1.0\n", b"", .01
        if not os.path.exists(argv[-1]): return 1, b"", b"(error \"no such file\")\n", .01
        fd = os.open(argv[-1], os.O_RDONLY)  # not through the compiler's disk
        try: text = os.read(fd, 1 << 28).decode()
        finally: os.close(fd)
        out = decide(text)
        lines = [l for l in out.split("\n") if l]
        ok = lines and lines[-1] in ("sat", "unsat", "unknown") and "(error" not in out
        rc, so, se, dur = (0 if ok else 1), out.encode(), b"", .05
        if not ok: self.trouble.append("rejected: %s" % out[:300])
        limit = self.plan["time"] or 5
        if fault:
            k, x, n = fault
            if k in HARDK: self.trouble.append(k)
            elif k not in ("late", "noise", "stderr"): self.soft.append(k)
            if k == "hang": dur = None
            elif k == "slow": dur = limit + .5 + 100 * x
            elif k == "late": dur = limit * x * .99
            elif k == "signal": rc, so, dur = -[9, 11, 6, 15, 2, 7][n], so if x < .5 else so[:int(x * len(so))], limit * x
            elif k == "exit": rc, so, se = [1, 2, 101, 127, 255, 16][n], [so, b"", b"sat\n", b"unsat\n", b"\xff\x00sat", b"unknown\n"][int(x * 6)], [b"", b"usage", b"\xfe\xff", b"sat", b"unsat", b"x"][n]
            elif k == "memout": rc, so, se = MEMOUT[self.name] if x < .7 else MEMOUT[SOLVERS[n % 5]]
            elif k == "error": rc, so = (0 if x < .7 else 1), [b'(error "line 3 column 9: unknown constant")\nsat\n', b'(error "line 4: unsat core")\nunsat\n', b'sat\n(error "invalid")\n', b'(error "sat not declared")\n',
                                                       b'(error "unsat not declared")\n', b'\n (error "x")\nunsat\n'][n]
            elif k == "noise": so = [b"; sat mode\n", b"(warning: unsat cores disabled)\n", b"c satisfiability check\n", b"\xff\xfe\n", b"\r\n", b"WARNING: unsatisfiable assumptions off\n"][n] + so
            elif k == "stderr": se = [b"sat\n", b"unsat\n", b"(error \"none\")\n", b"\xff\xfe", b"WARNING\n", b"timeout\n"][n]
            elif k == "unknown": so = [b"unknown\n", b"timeout\n", b"(:reason-unknown incomplete-sat)\nunknown\n", b"unknown\n", b"unsupported\n", b"unknown unsat-core\n"][n]
            elif k == "empty": so = b"\n" * n
            elif k == "garbage": so = [b"\xff\xfe\xfd", b"\x00\x00sat\x00", b"saturated\n", b"unsatisfied dependency\n", b"<html>", b"\xc3\x28unsat"][n]
            elif k == "cut": so = [b"s", b"sa", b"u", b"un", b"uns", b"unsa"][n]
        return rc, so, se, dur


def commands(plan, d):
    k = plan["kind"]
    if k.startswith("check"):
        c = "%s %s" % (k, plan["theory"])
        if plan["time"] is not None: c += " --smt-max-time %d" % plan["time"]
        if plan["mem"] is not None: c += " --smt-max-memory %d" % plan["mem"]
        if k == "check_sat" and plan["print"]: c += " --print"
        if k == "check_equiv" and plan["quiet"]: c += " --quiet"
    else:
        c = "%s %s/o/enc %s" % (k, d, plan["theory"])
    return c + (" --strict" if plan["strict"] else "")


FINAL = ["multi_operators_to_binary", "remove_extended_operators", "assemble --no-aux --no-print %s/o/b.bin"]


def execute(plan):
    o = Out()
    d = os.path.join(msim.scratch(), "s01")
    shutil.rmtree(d, ignore_errors=True)
    for x in ("", "/o", "/tmp", "/bin", "/bad"): os.mkdir(d + x)
    text = sugar.spec_text(plan)
    if plan["contract"]:
        at, col = plan["contract"]
        lab = "  f%d:" % at
        line = "  kc: %s => F[0,1] %s;\n" % (plan["sigs"][col][0], plan["sigs"][col][0])
        text = text.replace(lab, line + lab, 1) if lab in text else text + line
    with open(d + "/s.c2po", "w") as f: f.write(text)
    with open(d + "/m.map", "w") as f: f.write(c2.map_text(plan["sigs"]))
    exe = lambda p: (open(p, "w").close(), os.chmod(p, 0o755))
    path = d + "/bin"
    if plan["by"] == "second":
        exe(d + "/bad/z3")
        path = d + "/bad:" + path
        if plan["solver"] == "z3": exe(d + "/bin/z3")  # PATH finds only the first one of a name
    if plan["by"] == "set": os.mkdir(d + "/opt"); exe(d + "/opt/" + plan["solver"])
    else: exe(d + "/bin/" + plan["solver"])
    found = not (plan["by"] == "second" and plan["solver"] == "z3")
    if plan["contract"]:  # it becomes three formulas
        at, col = plan["contract"]
        a, g = ["a", col], ["F", 0, 1, ["a", col]]
        at = min(at, len(plan["ft"]))
        plan = dict(plan, ft=plan["ft"][:at] + [["__kc_active__", a], ["__kc_valid__", ["->", a, g]], ["__kc_verified__", ["&", a, g]]] + plan["ft"][at:], wide=plan["wide"] or plan["theory"] == "qf_bv")
    fs = [f for _, f in plan["ft"]]
    setup = ["enable_booleanizer" if plan["bz"] else "disable_booleanizer", "parse_c2po %s/s.c2po" % d, "parse_map %s/m.map" % d, "type_check", "desugar"]
    info = text + "\n".join(plan["passes"])
    oldpath = os.environ.get("PATH", "")

    def start():
        s = c2.Session(d)
        if plan["by"] == "set": s.cmd("set_smt_solver_path %s/opt/%s" % (d, plan["solver"]))
        for c in setup + plan["passes"]:
            so, se, bad = s.cmd(c)
            if bad: return None, "%s: %s" % (c, se)
        return s, None

    def finish(s):
        for c in FINAL:
            so, se, bad = s.cmd(c % d if "%" in c else c)
            if bad: return se or so
        with open(d + "/o/b.bin", "rb") as f: return f.read()
    try:
        os.environ["PATH"] = path
        # without the solver
        s, err = start()
        if s is None:
            o.stats["setup_failed"] += 1
            if "unexpected error" in err: return o.fail("internal-error:setup", err + info)
            o.nontrivial = False
            return o
        plain = finish(s)
        s, err = start()
        T = Truth(plan["sigs"])
        tru = truth(plan, T, fs)
        line = commands(plan, d)
        answers = []
        for round_ in ("faulty", "healthy"):
            faults = {(k, n): tuple(f) for k, n, f in plan["faults"]} if round_ == "faulty" else {}
            if round_ == "faulty" and not plan["faults"] and not plan["disk"]: continue
            shutil.rmtree(d + "/o/enc", ignore_errors=True)
            if os.path.isfile(d + "/o/enc"): os.unlink(d + "/o/enc")
            sim = Sim(plan, d)
            with proc.World(sim.program, sim.kinds, faults) as w, disk.Disk(d, plan["disk"] if round_ == "faulty" else []) as dk:
                try: so, se, bad = s.cmd(line)
                except proc.Hang as e: return o.fail("hangs", "%s\n%s, faults %s\n%s" % (e, line, w.fired, info))
            for f in w.fired: o.stats["fault:%s" % (f[2] + ":" + str(f[3]) if f[2] == "spawn" else f[2] + ":" + f[3])] += 1
            for f in dk.fired: o.stats["fault:disk:%s:%s" % (f[0], f[1])] += 1
            o.stats["sim:ms"] += int(w.time * 1000)
            show = "%s, solver %s, faults %s %s\nstdout: %s\nstderr: %s\n%s" % (line, plan["solver"], w.fired, dk.fired, so[-1200:], se[-1500:], info)
            if "unexpected error" in se or "Traceback" in se or "internal error" in se.lower(): return o.fail("internal-error:" + plan["kind"], show)
            if w.left(): return o.fail("process-left", "%s\n%s" % (w.left(), show))
            if os.listdir(d + "/tmp"): return o.fail("files-left", "%s\n%s" % (os.listdir(d + "/tmp"), show))
            for c in w.children:
                if sim.kinds(c.argv) != "solve": continue
                if os.path.basename(c.argv[0]) != plan["solver"] or (plan["by"] == "set") != (os.path.basename(os.path.dirname(c.argv[0])) == "opt"): return o.fail("other-solver", "%s\n%s" % (c.argv, show))
                lim = plan["time"] or 5
                if getattr(c, "waited", 0) is None or getattr(c, "waited", lim) > lim: return o.fail("time-limit", "waits %s\n%s" % (c.waited, show))
                if bool(plan["mem"]) != (c.limit is not None) or (c.limit is not None and c.limit < plan["mem"] << 20): return o.fail("memory-limit", "%s\n%s" % (c.limit, show))
            spawns = [f for f in w.fired if f[2] == "spawn"]
            sim.soft += [f for f in spawns if f[0] == "probe"]
            hard = bool(sim.trouble or dk.hard or [f for f in spawns if f[0] == "solve"])
            unsupported = re.search(r"unsupported|not implemented|not supported", se)
            rejected = [t for t in sim.trouble if t.startswith("rejected")]
            if round_ == "healthy" and rejected and not plan["wide"]: return o.fail("bad-encoding", "%s\n%s" % (rejected, show))
            # claims
            res = claims(plan, so, se, d, o)
            for what, said in res.items():
                t = tru.get(what)
                o.stats["answer:%s" % said] += 1
                if said in ("sat", "not-equiv") and t is False and not plan["strict"]: return o.fail("wrong:" + plan["kind"], "%s is not %s\n%s" % (what, said, show))
                if said in ("unsat", "equiv") and t is True: return o.fail("wrong:" + plan["kind"], "%s is not %s\n%s" % (what, said, show))
            if any(v.startswith("fault:") for v in res.values()): return o.fail("bad-encoding", "%s\n%s" % (res, show))
            undecided = "unknown" in res.values()
            if hard or (unsupported and plan["kind"].startswith("check")) or (not found and plan["kind"].startswith("check") and (len(fs) > 1 or plan["kind"] == "check_sat")):
                if not bad: return o.fail("fault-but-success:" + plan["kind"], show)
                if not (se.strip() or so.strip()): return o.fail("silent-failure:" + plan["kind"], show)
                if "equiv" in res.values() and not plan["quiet"] and any(x for x in sim.trouble): return o.fail("equiv-after-fault", show)
            elif not sim.soft and not (unsupported and plan["wide"] or unsupported and plan["passes"]):
                # nothing went wrong: everything is answered
                if bad: return o.fail("fails:" + plan["kind"], show)
                if unsupported: return o.fail("unsupported", show)
                if not undecided:
                    want = expected(plan, tru)
                    for what, t in want.items():
                        if t is None: continue
                        got = res.get(what)
                        if plan["strict"]:
                            if t is True and got != (plan["kind"] == "check_equiv" or plan["kind"] == "write_equiv_smt_encoding") * "not-equiv" + (plan["kind"] in ("check_sat", "write_smt_encoding")) * "sat": return o.fail("missing:" + plan["kind"], "%s: %s\n%s" % (what, got, show))
                        elif got != word(plan, t): return o.fail("missing:" + plan["kind"], "%s: said %s instead of %s\n%s" % (what, got, word(plan, t), show))
            elif [x for x in sim.soft if isinstance(x, str) and x != "probe"] and not bad and not (se.strip() or so.strip()) and not plan["quiet"]: return o.fail("silent", show)
            if w.fired or dk.fired or res: o.nontrivial = True
            answers.append((round_, sorted(res.items()), bad))
        got = finish(s)
        if got != plain: return o.fail("program-changed", "%s\n%s\n%s\n%s" % (line, str(got)[:300], str(plain)[:300], info))
    finally:
        os.environ["PATH"] = oldpath
    o.sig = h16((text, line, plan["passes"], plan["solver"], answers))
    return o


def word(plan, t):
    """What is said of something satisfiable / different (True) or not."""
    if plan["kind"] in ("check_equiv", "write_equiv_smt_encoding"): return "not-equiv" if t else "equiv"
    return "sat" if t else "unsat"


def truth(plan, T, fs):
    out = {}
    if plan["kind"] in ("check_sat", "write_smt_encoding"):
        for (lab, f) in plan["ft"]: out[lab] = T.sat([f])
        if len(fs) > 1: out["program"] = T.sat(fs)
    else:
        ps = [T.sat([["^", f, g]]) for f, g in zip(fs, fs[1:])]
        labs = [lab for lab, _ in plan["ft"]]
        for n, t in enumerate(ps): out["%s_%s" % (labs[n], labs[n + 1])] = t
        out["all"] = True if True in ps else None if None in ps else False
    return out


def expected(plan, tru):
    k = plan["kind"]
    if k == "check_equiv": return {} if plan["quiet"] else {"all": tru["all"]}
    if k == "check_sat" and not plan["print"]: return {}
    return {x: t for x, t in tru.items() if x not in ("all",) and not (k == "write_smt_encoding" and x == "program") and not (k == "check_sat" and x.startswith("__"))}


def claims(plan, so, se, d, o):
    k, res = plan["kind"], {}
    if k == "check_sat":
        for m in re.finditer(r"(?m)^(\w+) : (\w+)$", so): res[m[1]] = m[2]
        for m in re.finditer(r"(?:specification '(\w+)'|(program)) is (unsat|unknown|sat)\b", se): res[m[1] or m[2]] = m[3]
        if not plan["print"] and not se.strip():  # silence means that all is well
            for x in [lab for lab, _ in plan["ft"]] + (["program"] if len(plan["ft"]) > 1 else []): res.setdefault(x, "sat")
        elif not plan["print"] and not re.search("error", se):
            for x in [lab for lab, _ in plan["ft"]] + (["program"] if len(plan["ft"]) > 1 else []): res.setdefault(x, "sat")
    elif k == "check_equiv":
        m = re.findall(r"(?m)^(equiv|not-equiv|unknown)$", so)
        if m: res["all"] = m[-1]
    else:
        p = d + "/o/enc"
        files = {}
        labs = [lab for lab, _ in plan["ft"]]
        if os.path.isfile(p): files[labs[0] if k == "write_smt_encoding" else "_".join(labs[:2])] = p
        elif os.path.isdir(p):
            for n in sorted(os.listdir(p)): files[re.sub(r"^equiv_|\.smt2$", "", n)] = os.path.join(p, n)
        if not re.search("error", se):
            for x, p in files.items():
                with open(p) as f: out = decide(f.read()).strip()
                res[x] = {"sat": word(plan, True), "unsat": word(plan, False), "unknown": "unknown"}.get(out, "fault: " + out[:300])
    return res


def shrink(plan):
    for i in range(len(plan["faults"])): yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
    if plan["disk"]: yield dict(plan, disk=[])
    for i in range(len(plan["passes"])): yield dict(plan, passes=plan["passes"][:i] + plan["passes"][i + 1:])
    if plan["contract"]: yield dict(plan, contract=False)
    if len(plan["ft"]) > 1:
        for i in range(len(plan["ft"])): yield dict(plan, ft=[["f%d" % n, f] for n, (_, f) in enumerate(plan["ft"][:i] + plan["ft"][i + 1:])])
    for i, (lab, f) in enumerate(plan["ft"]):
        for g in msim.smaller(f) if hasattr(msim, "smaller") else smaller(f): yield dict(plan, ft=plan["ft"][:i] + [[lab, g]] + plan["ft"][i + 1:])
    if plan["by"] != "path": yield dict(plan, by="path")
    if plan["strict"]: yield dict(plan, strict=False)


def smaller(f):
    if f[0] in ("a", "tt", "ff", "cmp"):
        if f[0] == "cmp": yield ["tt"]
        return
    start = 3 if f[0] in "GFUR" else 1
    for g in f[start:]: yield g
    if f[0] in ("&", "|") and len(f) > 3:
        for n in range(1, len(f)): yield f[:n] + f[n + 1:]
    for n in range(start, len(f)):
        for g in smaller(f[n]): yield f[:n] + [g] + f[n + 1:]
    if f[0] in "GFUR":
        if f[2] > f[1]: yield f[:2] + [f[2] - 1] + f[3:]
        if f[1] > 0: yield [f[0], f[1] - 1, f[2] - 1] + f[3:]
