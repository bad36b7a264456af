"""G01: the C program generated for a formula reports the formula's value at every time."""
import os, random, re, struct, subprocess
from dst import c2, gen, msim, ref
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 2500, "thorough": 40000}
RULE = ("one run = random formulas over Boolean signals, taken through random passes, one of them (by name, index or default) generated as C with a random word size and input mode; "
        "the generated program is compiled (often with address and undefined-behaviour sanitizers) and run on a random trace that arrives in pieces of any size; every printed word is compared "
        "bit by bit with the reference, the number of words with the worst-case delay; a formula with an operator or a signal name the generator does not support must be refused with a message and no file; "
        "non-trivial = words compared or a refusal; distinct = by hash of formula, word size and output")
MEASURE = "hash of generated formula, options and printed words"
REAL = ["C2PO (parsers, passes, code generator)", "the generated C program, compiled with gcc"]
STUB = ["standard input of the generated program (fopencookie stream that delivers what the plan says)"]
ASSUME = ["reference model (dst/ref.py) is right", "gcc compiles the generated program correctly", "only whole words of the trace are reported (documented by the word-wise reading)"]
cleanup = msim.cleanup
SEAM = os.path.join(os.path.dirname(os.path.abspath(gen.__file__)), "sabre_seam.h")
PASSES = ["optimize_rewrites", "optimize_cse", "remove_release_operators", "to_bnf", "flatten_multi_operators", "multi_operators_to_binary", "sort_operands_by_pd", "remove_extended_operators", "push", "compute_scq_sizes"]
FREE = ["optimize_cse", "flatten_multi_operators", "multi_operators_to_binary", "sort_operands_by_pd", "push", "compute_scq_sizes"]  # these keep the delay
OK = {"a", "tt", "ff", "!", "&", "|", "->", "<->", "^", "G", "F", "U"}


def prepare(tier):
    pass


def stretch(r, f, W):
    """Intervals at, around and beyond word boundaries."""
    if f[0] in "GFUR" and len(f[0]) == 1:
        lb, ub = f[1], f[2]
        if r.random() < .6:
            c = r.randrange(4)
            lb = r.choice([lb, 0, r.randrange(0, W + 2), max(0, W * r.randrange(0, 3) + r.randrange(-1, 2))])
            w = r.choice([ub - f[1], r.randrange(0, 3 * W), max(0, W * r.randrange(1, 4) + r.randrange(-2, 2)), max(0, (1 << r.randrange(0, 8)) + r.randrange(-2, 2))])
            ub = min(lb + w, 200)
            lb = min(lb, ub)
        return [f[0], lb, ub] + [stretch(r, g, W) for g in f[3:]]
    return [f[0]] + [stretch(r, g, W) if isinstance(g, list) else g for g in f[1:]]


def gen_run(r, i, tier):
    W = r.choice([8, 8, 8, 16, 32, 64])
    n = r.randrange(1, 5)
    cols = r.sample(range(0, 7), n) if r.random() < .5 else list(range(n))
    sigs = [["a%d" % c, "bool"] for c in cols]
    feats = {"bz": False, "consts": r.random() < .2, "share": r.choice([0, .1, .3]), "bait": r.choice([0, 0, .3])}
    F, pool = [], []
    for k in range(r.choice([1, 1, 2, 3])):
        f = gen.formula(r, sigs, False, r.choice([1, 1, 2, 2, 3]), feats, pool)
        if f[0] in ("tt", "ff"): f = ["a", 0]
        if r.random() < .85: f = norel(f)
        F.append(["p%d" % k, stretch(r, f, W)])
    sel = r.randrange(len(F))
    p = {"sigs": sigs, "ft": F, "pt": [], "bz": False, "W": W, "sel": sel, "by": r.choice(["name", "index"]) if sel or r.random() < .5 else "first",
         "raw": r.random() < .4, "profile": r.random() < .1, "extra": r.choice([0, 0, 0, 0, 1, 3, -1]), "dir": r.random() < .1, "again": r.random() < .15,
         "passes": [r.choice(PASSES) for _ in range(r.choice([0, 0, 0, 1, 2, 3]))], "mltl": r.random() < .25, "asan": r.random() < .25, "seed": r.randrange(1 << 30)}
    if r.random() < .04: sigs[r.randrange(n)][0] = r.choice(["b1", "a", "a1x", "p"])
    words = r.choice([1, 2, 3, 4, 5, 12]) + wwpd(F[sel][1], W)
    p["rows"] = blocks(r, n, min(words * W, 900) + r.choice([0, 0, 1, W - 1]), W)
    p["pieces"] = r.choice([[], [1], [r.randrange(1, 9)], [r.choice([1, 2, 3, 5, 7, 100, 4096]) for _ in range(r.randrange(2, 9))]])
    return p


def blocks(r, n, T, W):
    """Signals that are random, rarely up, rarely down, or constant for long."""
    cols = []
    for k in range(n):
        mode, c = r.choice(["random", "up", "down", "long", "long"]), []
        rare = 1 / r.choice([5, W, 2 * W, 4 * W])
        while len(c) < T:
            if mode == "random": c.append(int(r.random() < .5))
            elif mode == "long": c += [r.randrange(2)] * r.randrange(1, r.choice([4, W, 3 * W]))
            else: c.append(int((r.random() < rare) == (mode == "up")))
        cols.append(c[:T])
    return [list(x) for x in zip(*cols)]


def norel(f):
    if f[0] == "R": return ["U", f[1], f[2], norel(f[3]), norel(f[4])]
    return [f[0]] + [norel(g) if isinstance(g, list) else g for g in f[1:]]


def wwpd(f, W):
    """Words that must have been read beyond a word before its value is known, operator by operator."""
    c = max([wwpd(g, W) for g in f[1:] if isinstance(g, list)] + [0])
    return c + (-(-f[2] // W) if f[0] in ("G", "F", "U", "R") else 0)


def ops(f):
    return {f[0]} | {o for g in f[1:] if isinstance(g, list) for o in ops(g)}


def columns(f, sigs):
    if f[0] == "a": return {sigs[f[1]][0]}
    return {c for g in f[1:] if isinstance(g, list) for c in columns(g, sigs)}


def trace(plan, ncol):
    """The bytes of standard input: rows of text, or one native word of each column per word of time."""
    rn = random.Random(plan["seed"])
    at = {int(n[1:]): j for j, (n, t) in enumerate(plan["sigs"]) if re.fullmatch(r"a\d+", n)}
    full = [[row[at[c]] if c in at else rn.randrange(2) for c in range(ncol)] for row in plan["rows"]]
    if not plan["raw"]:
        return b"".join((",".join(map(str, x)) + "\n").encode() for x in full)
    W, out = plan["W"], b""
    fmt = {8: "B", 16: "H", 32: "I", 64: "Q"}[W]
    for k in range(0, len(full) // W * W, W):
        for c in range(ncol):
            v = 0
            for t in range(W): v = v << 1 | full[k + t][c]
            out += struct.pack(fmt, v)
    return out


def execute(plan):
    o = Out()
    d = msim.scratch()
    W, (name, f) = plan["W"], plan["ft"][plan["sel"]]
    names = columns(f, plan["sigs"])
    good = all(re.fullmatch(r"a\d+", n) for n in names)
    need = max([int(n[1:]) for n in names] + [-1]) + 1 if good else 0
    ext = "mltl" if plan["mltl"] and good and all(re.fullmatch(r"a\d+", n) for n, t in plan["sigs"]) and "tt" not in str(plan["ft"]) and "ff" not in str(plan["ft"]) and "^" not in str(plan["ft"]) else "c2po"
    src = os.path.join(d, "g." + ext)
    with open(src, "w") as g:
        g.write(gen.spec_text(plan) if ext == "c2po" else "".join(gen.text(x, plan["sigs"]).replace("&&", "&").replace("||", "|") + "\n" for n, x in plan["ft"]))
    out, target = os.path.join(d, "g.c"), os.path.join(d, "g.c")
    os.makedirs(os.path.join(d, "od"), exist_ok=True)
    for e in (d, os.path.join(d, "od")):
        for x in os.listdir(e):
            if x.endswith(".c"): os.unlink(os.path.join(e, x))
    if plan["dir"]: target = os.path.join(d, "od")
    s = c2.Session(d)
    for line in ["parse_%s %s" % (ext, src), "type_check", "desugar"] + plan["passes"]:
        so, se, bad = s.cmd(line)
        if bad:
            if "found constant formula" in se: o.nontrivial = False; return o
            return o.fail("pass-failed:" + line.split()[0], se + so)
    cmd = "generate_sabre_code %s --word-size %d" % (target, W)
    if plan["by"] == "index": cmd += " --formula %d" % plan["sel"]
    if plan["by"] == "name" and ext == "c2po": cmd += " --formula " + name
    elif plan["by"] != "index" and plan["sel"]: cmd += " --formula %d" % plan["sel"]
    ncol = need
    if plan["extra"]: ncol = need + plan["extra"]; cmd += " --nsigs %d" % ncol
    if plan["raw"]: cmd += " --raw-bytes"
    if plan["profile"]: cmd += " --profile"
    for k in range(1 + plan["again"]): so, se, bad = s.cmd(cmd)
    made = [os.path.join(r_, x) for r_, _, fs in os.walk(d) for x in fs if x.endswith(".c")]
    refuse = not good or not ops(f) <= OK or ncol < max(need, 1)
    o.stats["word_size:%d" % W] += 1
    if bad:
        if not se.strip(): return o.fail("silent-refusal", cmd)
        if "Traceback" in se + so or "report this issue" in se + so: return o.fail("internal-error", se + so)
        if made: return o.fail("file-after-refusal", str(made))
        if not refuse and not plan["passes"]: return o.fail("refused", "%s\n%s\n%s" % (cmd, se, gen.text(f, plan["sigs"])))
        o.stats["refused"] += 1
        o.sig = h16(["refused", se.split("\n")[0][:60]])
        return o
    if refuse and not plan["passes"]: return o.fail("accepted-unsupported", "%s\n%s" % (cmd, gen.text(f, plan["sigs"])))
    if ncol < 1 or not good or len(made) != 1:
        if plan["passes"]: o.nontrivial = False; return o
        return o.fail("no-file", "%s: %s" % (cmd, made))
    if plan["passes"] and ncol < need and not plan["extra"] < 0: return o.fail("columns", cmd)
    with open(made[0]) as g: code = g.read()
    exe = os.path.join(d, "g.exe")
    flags = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if plan["asan"] else []
    c = subprocess.run(["gcc", "-w", "-O0", "-include", SEAM, "-o", exe, made[0]] + flags, capture_output=True, text=True)
    if c.returncode: return o.fail("does-not-compile", "%s\n%s" % (cmd, c.stderr[:1500]))
    if plan["passes"] and not plan["extra"]:  # the passes may have removed a signal: the program says how many columns it reads
        m = re.search(r"atomics\[(\d+)\]\[", code)
        if m: ncol = int(m.group(1))
        if ncol > need: return o.fail("columns", "%d columns for %s" % (ncol, gen.text(f, plan["sigs"])))
    data = trace(plan, ncol)
    tr = os.path.join(d, "g.in")
    with open(tr, "wb") as g: g.write(data)
    env = {"PATH": "/usr/bin:/bin", "DST_PIECES": ",".join(map(str, plan["pieces"])), "ASAN_OPTIONS": "detect_leaks=0"}
    with open(tr, "rb") as g:
        try: x = subprocess.run([exe], stdin=g, capture_output=True, text=True, timeout=30, env=env)
        except subprocess.TimeoutExpired: return o.fail("no-termination", cmd)
    what = "\n%s\n%s" % (cmd, gen.text(f, plan["sigs"]))
    if x.returncode: return o.fail("sanitizer" if "Sanitizer" in x.stderr or "runtime error" in x.stderr else "status", x.stderr[:1500] + what)
    got = x.stdout.split()
    K = len(plan["rows"]) // W
    o.stats["fault:pieces"] += bool(plan["pieces"])
    o.stats["sim:monitor_steps"] += K * W
    late = wwpd(f, W)
    if len(got) > K: return o.fail("too-many-words", "%d words for %d" % (len(got), K) + what)
    if len(got) < K - late and set(plan["passes"]) <= set(FREE): return o.fail("missing-words", "%d words printed for %d read, delay %d" % (len(got), K, late) + what)
    v = ref.Ref(plan["rows"], K * W + 1).val(f)
    for k, w in enumerate(got):
        if not re.fullmatch("[0-9a-f]{%d}" % (W // 4), w): return o.fail("garbled", w + what)
        for j in range(W):
            b = bool(int(w, 16) >> (W - 1 - j) & 1)
            e = v[k * W + j]
            if e is not None and e != b: return o.fail("wrong-value", "time %d: %d, expected %d" % (k * W + j, b, e) + what)
            if e is None and k * W + j + ref.wpd(f) >= K * W and set(plan["passes"]) <= set(FREE): return o.fail("premature", "time %d" % (k * W + j) + what)
    o.stats["words"] += len(got)
    o.nontrivial = len(got) > 0
    o.sig = h16([gen.text(f, plan["sigs"]), W, got])
    return o


def shrink(plan):
    for k in ("profile", "asan", "dir", "again", "mltl", "raw"):
        if plan[k]: yield dict(plan, **{k: False})
    if plan["extra"]: yield dict(plan, extra=0)
    if plan["pieces"]: yield dict(plan, pieces=[])
    for i in range(len(plan["passes"])): yield dict(plan, passes=plan["passes"][:i] + plan["passes"][i + 1:])
    if len(plan["ft"]) > 1: yield dict(plan, ft=[plan["ft"][plan["sel"]]], sel=0, by="first")
    for g in msim.sub_formulas(plan["ft"][plan["sel"]][1]):
        yield dict(plan, ft=[[n, g if i == plan["sel"] else x] for i, (n, x) in enumerate(plan["ft"])])
    n = len(plan["rows"])
    for m in (n // 2, n - plan["W"], n - 1):
        if 0 < m < n: yield dict(plan, rows=plan["rows"][:m])
    if any(map(any, plan["rows"])):
        for h in (0, 1): yield dict(plan, rows=[[0] * len(x) if (t < n // 2) == bool(h) else x for t, x in enumerate(plan["rows"])])
