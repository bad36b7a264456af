"""S03: equality saturation keeps the meaning of every formula, whatever the rewriting process does."""
import contextlib, io, json, os, pathlib, re, shutil
from dst import c2, disk, egg, gen, msim, proc, ref, sugar
from dst.core import Out, h16
from props import c01, s01

LEVEL = "exploration"
COUNTS = {"quick": 6000, "thorough": 100000}
RULE = ("one run = a generated specification (future-time formulas over Booleans or comparisons, many built to fit the rewrite rules, sharing between formulas, past-time formulas beside) optimised with "
        "optimize_eqsat under random options and passes; egglog is a simulated process that applies the rules in the file it is given in random places and order and prints the result, or fails (missing, "
        "not starting, hanging, slow, killed, out of memory, cut or garbled output or graph, not-equivalent output with --check-equiv), the SMT solver of --check-equiv too; what a healthy process prints must "
        "be equivalent to the formula (decided by z3 on unrolled formulas), the binary assembled afterwards must give the reference verdicts, faults must be reported and leave the formulas alone; "
        "non-trivial = a rewrite or a fault; distinct = by hash of specification, options, output of the process and verdicts")
MEASURE = "hash of specification, options, process output, faults that fired and verdict history"
REAL = ["C2PO (console, parser, passes, egglog encoding and rule files, output parser, assembler)", "C monitor library"]
STUB = ["egglog: a term rewriter that takes the same program text (dst/egg.py), no e-graph and no costs", "the solver process (z3 library)", "process creation, waiting and time (dst/proc.py)", "file descriptors (dst/disk.py)"]
ASSUME = ["reference model (dst/ref.py) is right", "what egglog extracts is reachable by single rewrites", "extraction by integer programming (needs gurobipy, absent here) is not covered"]
cleanup = msim.cleanup
EGGS = ["hang", "slow", "late", "signal", "exit", "memout", "stderr", "empty", "cut", "garbage", "unknown-op", "unknown-atom", "two", "layout", "json-missing", "json-cut", "json-type", "json-keys", "json-node", "json-bytes", "wrong"]
QUIETS = ("late", "stderr", "layout")


def prepare(tier):
    msim.prepare("plain", "big")


# ---- generation

def shape(r, sub, iv):
    """A formula that some rewrite rule fits, or nearly."""
    a, b, c = sub(), sub(), sub()
    na = ["!", a]
    l, u = iv(); l2, u2 = iv()
    if r.random() < .4: l2 = max(0, l + r.choice([-1, 0, 1])); u2 = max(l2, u + r.choice([-1, 0, 1]))
    if r.random() < .25: l2 = u + r.choice([0, 1, 2]); u2 = max(u2, l2)
    G = lambda f, i=l, j=u: ["G", i, j, f]
    F = lambda f, i=l, j=u: ["F", i, j, f]
    w = r.randrange(26)
    both = lambda op, x, y: [op, x, y] if r.random() < .5 else [op, y, x]
    if w == 0: return both("&", ["U", l, u, a, b], ["U", l2 if r.random() < .2 else l, max(u2, l), c, b])
    if w == 1: return both("&", G(a), G(a, l2, u2))
    if w == 2: return both("|", G(a), G(a, l2, u2))
    if w == 3: return both("&", F(a), F(a, l2, u2))
    if w == 4: return both("|", F(a), F(a, l2, u2))
    if w == 5: return both("&", G(a), G(b, l2, u2))
    if w == 6: return both("|", F(a), F(b, l2, u2))
    if w == 7: return both("&", F(a), F(b, l2, u2))
    if w == 8: return both("|", G(a), G(b, l2, u2))
    if w == 9: return both("&", G(na), F(a, l2, u2))
    if w == 10: return both("&", G(a), F(na, l2, u2))
    if w == 11: return both("|", G(a), ["R", l2, u2, b, a])
    if w == 12: return both("&", ["U", l, u, a, b], F(b, l2, u2))
    if w == 13: return ["U", l, u, a, ["G", r.choice([0, 0, 0, 1]), max(1, u2), a]]
    if w == 14: return ["U", l, u, a, ["F", r.choice([0, 0, 0, 1]), max(1, u2), a]]
    if w == 15: return [r.choice("GF"), l, u, [r.choice("GF"), l2, r.choice([l2, u2]), a]]
    if w == 16: return [r.choice("GF"), l, l, [r.choice("GF"), l2, u2, a]]
    if w == 17: return ["F", l, l, [r.choice("UR"), l2, u2, a, b]]
    if w == 18: return ["U", l, u, F(a, l2, l2), F(b, l2, l2 + r.choice([0, 0, 1]))]
    if w == 19: return ["->", ["&", a, F(b)], ["|", ["U", l, u, c, b], G(c, l, u + r.choice([0, 0, 1]))]]
    if w == 20: return ["!", [r.choice("UR"), l, u, a, b]]
    if w == 21: return ["!", r.choice([["&", a, b], ["|", a, b], G(a), F(a), na])]
    if w == 22: return [r.choice("UR"), l, u, [r.choice(["tt", "ff"])], a]
    if w == 23: return [r.choice("&|"), a, r.choice([["tt"], ["ff"], na, a])] + ([b] if r.random() < .4 else []) + ([a] if r.random() < .3 else [])
    if w == 24: return both("|", F(a), G(na, l, u2 if u2 >= l and r.random() < .3 else u))
    return [r.choice("UR"), 0, 0, a, b] if r.random() < .5 else [r.choice("GF"), 0, 0, a]


def fml(r, atom, depth, budget, pool):
    if depth <= 0 or r.random() < .1: return atom()
    if pool and r.random() < .12: return r.choice(pool)

    def iv():
        l = r.choice([0, 0, 0, 1, 1, 2, 3]); u = l + r.choice([0, 0, 1, 1, 2, 3, 4])
        return l, u
    sub = lambda: fml(r, atom, depth - 1, budget, pool)
    if r.random() < .5: f = shape(r, sub, iv)
    else:
        op = r.choice(["!", "&", "|", "->", "<->", "G", "F", "U", "R"])
        l, u = iv()
        f = (["!", sub()] if op == "!" else [op] + [sub() for _ in range(r.choice([2, 2, 2, 3, 4]))] if op in "&|" else [op, sub(), sub()] if op in ("->", "<->")
             else [op, l, u, sub()] if op in "GF" else [op, l, u, sub(), sub()])
    pool.append(f)
    return f


def gen_run(r, i, tier):
    bz = r.random() < .3
    sigs = [["a", "bool"], ["b", "bool"], ["c", "bool"]][:r.choice([1, 2, 2, 3])]
    if bz: sigs += [["k", "int"], ["x", "float"]][:r.choice([1, 2])]
    nb = [n for n, (s, t) in enumerate(sigs) if t == "bool"]

    def atom():
        if bz and r.random() < .5:
            n = r.choice([n for n, (s, t) in enumerate(sigs) if t != "bool"])
            return ["cmp", r.choice([">", "<", ">=", "<="]), [sigs[n][1][0], n], ["ic", r.choice([0, 1, 3])] if sigs[n][1] == "int" else ["fc", r.choice([0.5, 1.5])]]
        return ["a", r.choice(nb)]
    pool, ft = [], []
    while len(ft) < r.choice([1, 1, 1, 2, 3]):
        f = fml(r, atom, r.choice([1, 2, 2, 2, 3]), 8, pool)
        if ref.wpd(f) > 40 or egg_size(f) > 30: continue
        if r.random() < .04: f = ["^", f, atom()]
        if r.random() < .04: f = ["&"] + [atom() for _ in range(4)] + [f]
        ft.append(["f%d" % len(ft), f])
    pt = [["p0", [r.choice("HO"), 0, 2, atom()]]] if r.random() < .15 else []
    opts = {k: r.random() < .85 for k in ("const-folding", "associative", "commutative", "multi-arity", "temporal", "extended")}
    plan = {"sigs": sigs, "bz": bz, "ft": ft, "pt": pt, "eq": opts, "check": r.random() < .35, "theory": r.choice(["uflia", "uflia", "qf_uflia", "qf_bv"]), "seed": r.randrange(1 << 30),
            "many": r.choice([0, 1, 2, 4, 8, 16, 30]), "limit": r.choice([20, 40, 60]), "by": r.choice(["path", "set", "bin", "none"] if r.random() < .4 else ["path"]), "before": r.sample(["optimize_cse", "optimize_rewrites", "flatten_multi_operators", "to_nnf"], r.choice([0, 0, 0, 1, 2])),
            "after": r.sample(["optimize_cse", "optimize_rewrites"], r.choice([0, 0, 1, 2])), "etime": r.choice([None, 1, 20]), "emem": r.choice([None, 0, 500]), "opts": {}, "smtfile": r.random() < .2,
            "ids": r.sample(range(len(sigs) + 4), len(sigs)) if r.random() < .3 else None, "twice": r.random() < .1}
    if r.random() < .15:
        plan.update(cli={"aux": False, "cse": r.random() < .5, "smt": r.random() < .4}, twice=False, before=[], after=[], emem=plan["emem"] or 0, etime=plan["etime"] or 5)
        plan["eq"]["extended"] = True
        if plan["by"] == "bin": plan["by"] = "set"
    F = []
    if r.random() < .55:
        for _ in range(r.choice([1, 1, 2])):
            n = r.choice([0, 0, 0, 1, 2])
            c = r.random()
            if c < .1: F.append(["probe", r.randrange(0, 2), ["spawn", r.choice(proc.SPAWN[:-1])] if r.random() < .5 else ["probe", r.choice(["hang", "exit", "noise"])]])
            elif c < .2: F.append(["egg", n, ["spawn", r.choice(proc.SPAWN)]])
            elif c < .3 and plan["check"]: F.append(["solve", n, ["solve", r.choice(["hang", "exit", "unknown", "error", "garbage"]), r.random(), r.randrange(6)]])
            else:
                k = r.choice(EGGS)
                if k == "wrong" and not plan["check"]: k = "cut"
                F.append(["egg", n, ["egg", k, r.random(), r.randrange(6)]])
    plan["faults"] = F
    plan["disk"] = [[r.choice(["open", "write", "close", "mkdir"]), r.randrange(0, 3), r.choice(["ENOSPC", "EACCES"]), r.random()]] if r.random() < .06 else []
    plan["rows"] = gen.rows(r, sigs, r.choice([8, 16, 24]))
    return plan


def egg_size(f):
    return 1 + sum(egg_size(g) for g in f[1:] if isinstance(g, list)) if f[0] != "cmp" else 1


# ---- the simulated world

class Sim(s01.Sim):
    def __init__(self, plan, d):
        super().__init__(dict(plan, solver="z3", time=5), d)
        self.eggs, self.lies = [], []

    def kinds(self, argv):
        return "solve" if argv[-1].endswith(".smt2") else "egg" if argv[-1] == "--to-json" or argv[-1].endswith(".egg") else "probe"

    def program(self, kind, argv, child, fault):
        if kind != "egg": return super().program(kind, argv, child, fault)
        p = self.plan
        path = [a for a in argv[1:] if a.endswith(".egg")][0]
        fd = os.open(path, os.O_RDONLY)
        try: text = os.read(fd, 1 << 24).decode()
        finally: os.close(fd)
        try:
            e = egg.Egg(text)
            if e.target is None: raise egg.Reject("nothing to extract")
            t, used = e.walk(p["seed"] + len(self.eggs), p["many"], p["limit"])
            rc, so, se, dur, js = 0, (egg.show(t) + "\n").encode(), b"", .05, json.dumps(egg.graph(t)).encode()
            self.eggs.append((e.target, t, used))
        except egg.Reject as x:
            self.trouble.append("rejected: %s" % x)
            rc, so, se, dur, js, t = 1, b"", ("[ERROR] %s\n" % x).encode(), .05, None, None
            self.eggs.append((None, None, []))
        limit = p["etime"] or 5
        if fault:
            k, x, n = fault
            if k not in QUIETS and k != "wrong" and t is not None: self.trouble.append(k)
            if k == "hang": dur = None
            elif k == "slow": dur = limit + .5 + 100 * x
            elif k == "late": dur = limit * x * .99
            elif k == "signal": rc, so, dur, js = -[9, 11, 4, 15, 2, 7][n], so if x < .5 else so[:int(x * len(so))], limit * x, None
            elif k == "exit": rc, so, se, js = [1, 2, 101, 127, 255, 16][n], so if x < .5 else b"", [b"", b"usage", b"\xfe\xff", b"thread 'main' panicked", b"[ERROR] x", b"x"][n], None
            elif k == "memout": rc, so, se, js = -6, b"", [b"memory allocation of 64 bytes failed\n", b"", b"\xff\xfe", b"x", b"", b"abort"][n], None
            elif k == "stderr": se = [b"[INFO ] ok\n", b"[WARN ] slow\n", b"\xff\xfe", b"(Bool true)\n", b"WARNING\n", b"Error?\n"][n]
            if t is None: pass
            elif k == "empty": so = b"\n" * n
            elif k == "cut": so = so[:max(1, min(len(so) - 2, int(x * len(so))))]
            elif k == "garbage": so = [b"\xff\xfe\xfd", b"\x00\x00\n", b"extracted\n", b")(\n", b"<html>", b"\xc3\x28(Bool true)"][n]
            elif k == "unknown-op": so = [b'(Xor (Var "a0") (Var "a0"))\n', b'(And (Var "a0") (Var "a0"))\n', b"(Bool maybe)\n", b'(Global (Interval 0 -1) (Var "a0"))\n', b"(Interval 0 1)\n", b'(Global (Interval 0 1))\n'][n]
            elif k == "unknown-atom": so = [b'(Var "a99")\n', b'(Var "b")\n', b'(Var "")\n', b'(Not (Var "a99"))\n', b'(And2 (Var "a0x") (Var "a0x"))\n', b'(Or2 (Var "x") (Bool true))\n'][n]
            elif k == "two": so = so + [so, b"(Bool true)\n", b")", b'(Var "a0")', b"x", b"\x01"][n]
            elif k == "layout": so = [so.replace(b" ", b"\n  "), b"\n\n" + so, so.replace(b" ", b"   "), so.strip(), so + b"\n\n", so.replace(b"(", b"( ")][n]
            elif k == "json-missing": js = None
            elif k == "json-cut": js = js[:int(x * len(js))]
            elif k == "json-type": js = [b"[]", b"3", b"null", b'"nodes class_data"', b'{"nodes":[],"class_data":[]}', b'{"nodes":3,"class_data":{}}'][n]
            elif k == "json-keys": js = [b"{}", b'{"nodes":{}}', b'{"class_data":{}}', b'{"Nodes":{}}', b'{"nodes":{},"classes":{}}', b"{ }"][n]
            elif k == "json-node": js = [b'{"nodes":{"a":{}},"class_data":{}}', b'{"nodes":{"a":3},"class_data":{}}', b'{"nodes":{"a":null},"class_data":{}}', b'{"nodes":{"a":{"op":[]}},"class_data":{}}',
                                          b'{"nodes":{"a":"op"},"class_data":{}}', b'{"nodes":{"a":{"op":{}}},"class_data":{}}'][n]
            elif k == "json-bytes": js = b"\xff\xfe" + js
            elif k == "wrong":
                so = [b"(Not " + so.strip() + b")\n", b"(Bool true)\n", b"(Bool false)\n", b"(Future (Interval 0 1) " + so.strip() + b")\n", b"(Global (Interval 1 1) " + so.strip() + b")\n", b'(And2 (Var "a%d") ' % (p["ids"] or [0])[0] + so.strip() + b")\n"][n]
                self.lies.append((e.target, egg.read(so.decode())[0]))
        if js is not None and dur is not None and dur <= limit:
            fd = os.open(path[:-4] + ".json", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            try: os.write(fd, js)
            finally: os.close(fd)
        return rc, so, se, dur


def command(plan, d):
    c = "optimize_eqsat" + "".join(" --%s%s" % ("" if v else "no-", k) for k, v in plan["eq"].items())
    if plan["etime"] is not None: c += " --egglog-max-time %d" % plan["etime"]
    if plan["emem"] is not None: c += " --egglog-max-memory %d" % plan["emem"]
    if plan["check"]: c += " --check-equiv --theory %s" % plan["theory"]
    if plan["by"] == "bin": c += " --egglog-bin %s/opt/my-egglog" % d
    if plan["check"] and plan["smtfile"]: c += " --equiv-smt-encoding-filename %s/o/eq.smt2" % d
    return c


def command_line(plan, d):
    """The compiler run from the command line; (stdout, stderr, whether it says it failed)."""
    m = c2.c2po()["main"]
    c2.reset_globals()
    so, se, cwd, rc = io.StringIO(), io.StringIO(), os.getcwd(), m.C2PO_RC_PATH
    m.C2PO_RC_PATH = pathlib.Path(d + "/rc")
    k, e = plan["cli"], plan["eq"]
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            st = m.cli(spec_filename=d + "/s.c2po", trace_filename=None, map_filename=d + "/m.map", output_filename=d + "/o/b.bin", write_bounds_filename=None, quiet=True, debug=False, only_parse=False,
                       only_type_check=False, only_compile=False, mission_time=-1, scq_constant=0, enable_booleanizer=plan["bz"], enable_aux=False, enable_cse=k["cse"], enable_rewrite=True,
                       enable_extops=False, enable_eqsat=True, enable_eqsat_equiv_check=plan["check"], enable_eqsat_const_folding=e["const-folding"], enable_eqsat_associative=e["associative"],
                       enable_eqsat_commutative=e["commutative"], enable_eqsat_multi_arity=e["multi-arity"], enable_eqsat_temporal=e["temporal"], eqsat_max_time=plan["etime"], eqsat_max_memory=plan["emem"],
                       num_gurobi_threads=0, egglog_path=d + "/opt/my-egglog" if plan["by"] == "set" else None, check_sat=False, smt_theory=plan["theory"], smt_max_time=5, smt_max_memory=0,
                       smt_solver_path=d + "/opt/z3" if k["smt"] else None)
    finally:
        os.chdir(cwd)
        m.C2PO_RC_PATH = rc
    return so.getvalue(), se.getvalue(), st.name != "SUCCESS"


def differ(a, b):
    """Whether two terms differ in meaning (False also if undecided)."""
    n = max([int(x) for x in re.findall(r'"a(\d+)"', egg.show(a) + egg.show(b))] or [0]) + 1
    return s01.Truth([["v%d" % x, "bool"] for x in range(n)]).sat([["^", egg.formula(a), egg.formula(b)]]) is True


def execute(plan):
    o = Out()
    cli = plan.get("cli")
    d = os.path.join(msim.scratch(), "s03")
    shutil.rmtree(d, ignore_errors=True)
    for x in ("", "/o", "/tmp", "/bin", "/opt"): os.mkdir(d + x)
    text = sugar.spec_text(plan)
    with open(d + "/s.c2po", "w") as f: f.write(text)
    with open(d + "/m.map", "w") as f: f.write(c2.map_text(plan["sigs"], plan["ids"]))
    exe = lambda p: (open(p, "w").close(), os.chmod(p, 0o755))
    if plan["by"] == "path": exe(d + "/bin/egglog-experimental"); exe(d + "/bin/egglog")
    elif plan["by"] in ("set", "bin"): exe(d + "/opt/my-egglog")
    exe(d + ("/opt/z3" if cli and cli["smt"] else "/bin/z3"))
    line = command(plan, d)
    oldpath = os.environ.get("PATH", "")
    try:
        os.environ["PATH"] = d + "/bin"
        s = c2.Session(d)
        if plan["by"] == "set": s.cmd("set_egglog_path %s/opt/my-egglog" % d)
        for c in [] if cli else ["enable_booleanizer" if plan["bz"] else "disable_booleanizer", "parse_c2po %s/s.c2po" % d, "parse_map %s/m.map" % d, "type_check", "desugar"] + plan["before"] + ["compute_atomics"]:
            so, se, bad = s.cmd(c)
            if bad:
                if "unexpected error" in se: return o.fail("internal-error:setup", se + text)
                if "found constant formula" in se:
                    o.nontrivial = False; o.stats["skipped_constant_formula"] += 1
                    return o
                return o.fail("setup:" + c.split()[0], se + text)
        sim = Sim(plan, d)
        faults = {(k, n): tuple(f) for k, n, f in plan["faults"]}
        for again in range(2 if plan["twice"] else 1):
            with proc.World(sim.program, sim.kinds, faults if again == 0 else {}) as w, disk.Disk(d, plan["disk"] if again == 0 else []) as dk:
                before = len(sim.eggs)
                try: so, se, bad = command_line(plan, d) if cli else s.cmd(line)
                except proc.Hang as e: return o.fail("hangs", "%s\n%s, faults %s\n%s" % (e, line, w.fired, text))
            for f in w.fired: o.stats["fault:%s" % (f[0] + ":" + f[2] + ":" + str(f[3]) if f[2] == "spawn" else f[2] + ":" + f[3])] += 1
            for f in dk.fired: o.stats["fault:disk:%s:%s" % (f[0], f[1])] += 1
            o.stats["sim:ms"] += int(w.time * 1000)
            outs = "\n".join("%s ==> %s" % (egg.show(a), egg.show(b)) for a, b, u in sim.eggs if a)
            show = ("command line %s " % cli if cli else "") + "%s %s, faults %s %s\nstdout: %s\nstderr: %s\n%s\n%s" % (plan["before"], line, w.fired, dk.fired, so[-1200:], se[-1500:], text, outs)
            if "unexpected error" in se or "Traceback" in se or "internal error" in se.lower(): return o.fail("internal-error", show)
            if w.left(): return o.fail("process-left", "%s\n%s" % (w.left(), show))
            if os.listdir(d + "/tmp"): return o.fail("files-left", "%s\n%s" % (os.listdir(d + "/tmp"), show))
            for c in w.children:
                if sim.kinds(c.argv) != "egg": continue
                lim = plan["etime"] or 5
                if getattr(c, "waited", 0) is None or getattr(c, "waited", lim) > lim: return o.fail("time-limit", "waits %s\n%s" % (c.waited, show))
                if bool(plan["emem"]) != (c.limit is not None) or (c.limit is not None and c.limit < plan["emem"] << 20): return o.fail("memory-limit", "%s\n%s" % (c.limit, show))
                if plan["by"] in ("set", "bin") and not c.argv[0].endswith("/opt/my-egglog"): return o.fail("other-egglog", "%s\n%s" % (c.argv, show))
            # what the rules did
            for a, b, used in sim.eggs[before:]:
                if a is None: continue
                if used:
                    o.stats["rewrites"] += len(used)
                    o.nontrivial = True
                    if differ(a, b): return o.fail("unsound-rule", "%s\nis not\n%s\n%s" % (egg.show(a), egg.show(b), show))
            atoms = all(f[0] in ("a", "cmp") for _, f in plan["ft"]) or bool({"optimize_rewrites", "to_nnf"} & set(plan["before"]))  # nothing to do, possibly
            odd = any(f[0] == "^" for _, f in plan["ft"]) or any(len(f) > 5 for _, f in plan["ft"]) or "flatten_multi_operators" in plan["before"]
            rejected = [t for t in sim.trouble if t.startswith("rejected")]
            if rejected and not odd: return o.fail("bad-encoding", "%s\n%s" % (rejected, show))
            if plan["eq"] and not w.fired and not dk.fired and plan["by"] != "none" and not rejected and not plan["check"]:
                if (bad or se.strip()) and not (cli and "constant formula" in se): return o.fail("fails", show)
                if again == 0 and not atoms and len(sim.eggs) - before < sum(f[0] not in ("a", "cmp") for _, f in plan["ft"]): return o.fail("not-run", show)
            hard = [x for x in sim.trouble if x != "rejected"] or dk.hard or [f for f in w.fired if f[2] == "spawn" and f[0] == "egg"] or plan["by"] == "none" and not atoms
            if again == 0 and hard and not re.search(r"error|warning", se, re.I): return o.fail("silent", show)
            lied = [1 for a, b in sim.lies if differ(a, b) and not plan["bz"]]  # atoms of arithmetic depend on each other
            if again == 0 and lied and not re.search(r"error|warning", se, re.I): return o.fail("silent-lie", show)
            if again == 0 and "non-equivalent" in se and not bad: return o.fail("not-equivalent-but-success", show)
        if w.fired or dk.fired: o.nontrivial = True
        if sim.lies and ("could not be validated" in se or not re.search("non-equivalent", se)):
            o.stats["unvalidated" if "could not be validated" in se else "true_lie"] += 1
            return o
        if cli and "found constant formula" in se:
            o.stats["constant_after"] += 1
            return o
        for c in [] if cli else plan["after"] + ["multi_operators_to_binary", "remove_extended_operators", "assemble --no-aux --no-print %s/o/b.bin" % d]:
            so, se, bad = s.cmd(c)
            if bad:
                if "found constant formula" in se:
                    o.stats["constant_after"] += 1
                    return o
                return o.fail("afterwards:" + c.split()[0], "%s\n%s" % (se or so, show))
        if cli and dk.fired:  # the disk fault may have been in the binary or another input: that is C07
            if not (se.strip() or so.strip()): return o.fail("silent", show)
            return o
        if not os.path.exists(d + "/o/b.bin"): return o.fail("no-binary", show)
        with open(d + "/o/b.bin", "rb") as f: b = f.read()
    finally:
        os.environ["PATH"] = oldpath
    nt = o.nontrivial
    c01.run_and_judge(dict(plan, style={}), b, o)
    if o.viol: o.viol = (o.viol[0], "%s\n%s" % (o.viol[1], show))
    o.nontrivial = nt
    o.sig = h16((o.sig, line, outs, sorted(map(str, w.fired))))
    return o


def shrink(plan):
    for i in range(len(plan["faults"])): yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
    if plan["disk"]: yield dict(plan, disk=[])
    for key in ("before", "after"):
        for i in range(len(plan[key])): yield dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})
    for k in ("twice", "check", "smtfile"):
        if plan[k] and not (k == "check" and any(f[2][1] == "wrong" for f in plan["faults"])): yield dict(plan, **{k: False})
    if plan["ids"]: yield dict(plan, ids=None)
    if plan["by"] != "path": yield dict(plan, by="path")
    for m in (0, 1, 2, 4, 8, 16):
        if m < plan["many"]: yield dict(plan, many=m)
    for k, v in plan["eq"].items():
        if v: yield dict(plan, eq=dict(plan["eq"], **{k: False}))
    if plan["pt"]: yield dict(plan, pt=[])
    if len(plan["ft"]) > 1:
        for i in range(len(plan["ft"])): yield dict(plan, ft=[["f%d" % n, f] for n, (_, f) in enumerate(plan["ft"][:i] + plan["ft"][i + 1:])])
    for i, (lab, f) in enumerate(plan["ft"]):
        for g in s01.smaller(f): yield dict(plan, ft=plan["ft"][:i] + [[lab, g]] + plan["ft"][i + 1:])
    yield from msim.shrink_rows(plan)
