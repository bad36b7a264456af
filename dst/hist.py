"""Simulated compiler sessions: random command histories over a small world of files."""
import os, shutil
from . import c2, gen, msim, sugar

PASSES = ["optimize_rewrites", "optimize_cse", "remove_extended_operators", "to_nnf", "to_bnf", "flatten_multi_operators",
          "multi_operators_to_binary", "sort_operands_by_pd", "remove_release_operators", "compute_atomics", "compute_scq_sizes"]
STATS = "%scq %dagsize %numtlo %asmnum %asmbz %asmtl %asmtltemp %asmcg %asmscq %asmaliases %asmsignals %asmatomics|%F|%f0"


def contract_line(r, sigs):
    b = [n for n, t in sigs if t == "bool"]
    if not b: return None
    x, y = r.choice(b), r.choice(b)
    return "kc%d: %s => F[%d,%d] %s;" % (r.randrange(9), x, *gen.interval(r), y)


def world(r, nspec=2):
    """Specifications of different kinds over one set of signal names, maps, broken files."""
    files, specs = {}, []
    for k in range(nspec):
        p = gen.spec(r, depth=r.choice([1, 2, 2]), maxf=2)
        if r.random() < .6: p = sugar.Sugar(r, p, p=.4).run()
        text = sugar.spec_text(p)
        if r.random() < .3:
            c = contract_line(r, p["sigs"])
            if c and "FTSPEC\n" in text: text = text.replace("FTSPEC\n", "FTSPEC\n  %s\n" % c, 1)
        files["s%d.c2po" % k] = text
        files["m%d.map" % k] = c2.map_text(p["sigs"])
        if r.random() < .3:
            ids = r.sample(range(len(p["sigs"]) + 3), len(p["sigs"]))
            files["m%d.map" % k] = c2.map_text(p["sigs"], ids)
        specs.append(p)
    t = files["s0.c2po"]
    cut = r.randrange(len(t))
    files["bad.c2po"] = r.choice([t[:cut], t.replace(":", ";", 1), t + "\nFTSPEC\n  (a0 &&;\n", t.replace("bool", "bol", 1), ""])
    files["ill.c2po"] = "INPUT\n  b0: bool; n0: int;\nENUM\n  Ex: { MX, MY };\nDEFINE\n  dz := b0;\nFTSPEC\n  q0: b0 && n0;\n"
    files["bad.map"] = r.choice(["b0:0\n", "b0 0\n", "x:1\ny:zz\n", ""])
    files["f.mltl"] = "G[0,3] a0\n(a0 U[1,2] a1) & a2\n"
    return files, specs


def option_cmds(p):
    L = ["enable_booleanizer" if p["bz"] else "disable_booleanizer"]
    L.append("set_mission_time %d" % (p["mission"] if p.get("mission") is not None else -1) if p.get("mission") is not None else "set_mission_time 0")
    return L


def command(r, nspec, weights=None):
    """One command. '@' stands for the world's directory."""
    k = r.randrange(nspec)
    c = r.choices(["parse", "map", "check", "desugar", "pass", "option", "assemble", "print", "write", "bad", "compile", "genmap"],
                  weights or [3, 2, 3, 3, 6, 1.5, 1.5, 1, 1, .7, .7, .4])[0]
    if c == "parse": return r.choice(["parse_c2po @/s%d.c2po" % k] * 6 + ["parse_c2po @/bad.c2po", "parse_c2po @/ill.c2po", "parse_mltl @/f.mltl", "parse_c2po @/none.c2po"])
    if c == "map": return r.choice(["parse_map @/m%d.map" % k] * 6 + ["parse_map @/bad.map", "parse_map @/none.map"])
    if c == "check": return "type_check"
    if c == "desugar": return "desugar"
    if c == "pass": return r.choice(PASSES + (["convert_atomics_to_signals"] if r.random() < .2 else []))
    if c == "option": return r.choice(["enable_booleanizer", "disable_booleanizer", "set_mission_time %d" % r.randrange(1, 9),
                                       "set_r2u2_bin_path @/nowhere", "set_egglog_path @/nowhere", "set_smt_solver_path @/nowhere"])
    if c == "assemble": return "assemble %s --no-print @/mid.bin" % r.choice(["--aux", "--no-aux", "--scq-constant 3"])
    if c == "print": return r.choice(["print_c2po", "print_prefix", "print_mltl", "print_stats '%s'" % STATS])
    if c == "write": return r.choice(["write_c2po @/mid.out", "write_prefix @/mid.out", "write_mltl @/mid.out", "write_pickle @/mid.pickle", "write_bounds_c @/mid.h",
                                      "write_bounds_rust @/mid.toml"])
    if c == "compile": return "compile --no-print @/mid.bin"
    if c == "genmap": return "generate_map"
    return r.choice(["nonsense", "assemble", "parse_map", "parse_c2po 'unclosed", "set_mission_time x", "compute_scq_sizes --scq-constant", "write_c2po @/no/such/dir/f", "pop" if r.random() < .2 else "type_check -x"])


def fresh_dir(files):
    d = os.path.join(msim.scratch(), "w")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for n, t in files.items():
        with open(os.path.join(d, n), "w", encoding="utf-8") as f: f.write(t)
    return d


def run(cmds, files, session=None, d=None):
    """Executes the commands in a fresh world; returns (session, directory, [(out, err, code), ...])."""
    d = d or fresh_dir(files)
    s = session or c2.Session(d)
    res = []
    for c in cmds:
        try:
            o, e, bad = s.cmd(c.replace("@", d))
        except Exception as x:  # the console itself died
            res.append(("", "console died: %s: %s" % (type(x).__name__, x), "DIED"))
            continue
        res.append((o, e, s.last.name if s.exited is None else "EXIT"))
    return s, d, res


def outputs(d, files):
    """Files the session wrote, with their contents."""
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), "rb") as f: b = f.read()
        if files.get(n, "").encode() != b: out[n] = b
    return out


def job(files, cmds, cwd=None, session=None):
    """Observations of `cmds` with the directory's name taken out; cwd: work inside the directory with relative names."""
    import hashlib
    d = fresh_dir(files)
    old = os.getcwd()
    try:
        if cwd:
            os.chdir(d)
            s, _, res = run([c.replace("@/", "") for c in cmds], files, session, d)
        else:
            s, _, res = run(cmds, files, session, d)
    finally:
        os.chdir(old)
    clean = lambda x: x.replace(d + "/", "")
    return [[[clean(o), clean(e), c] for o, e, c in res], {n: hashlib.sha256(clean(b.decode("latin1")).encode("latin1")).hexdigest()[:16] if not n.endswith(".bin") else b.hex() for n, b in outputs(d, files).items()}]
