"""C07: what the compiler reads and writes through a failing disk: success means complete, failure is reported and can be retried."""
import contextlib, io, os, pickle, re, shutil, traceback
from dst import c2, disk, gen, hist, msim, sugar
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 5000, "thorough": 80000}
RULE = ("one run = a session (console commands, a script with start-up file, or the command line) that reads specification, map or trace and writes some of all kinds of output "
        "(binary, assembly, bounds, map, trace, C2PO/prefix/MLTL/pickle, SMT, equality-saturation and Sabre text), executed once on a healthy simulated disk and once on one with "
        "up to 4 faults at random operations (failing or short open/read/write/close/mkdir/unlink, corrupted bytes, crash of the process between any two bytes); "
        "a faulted command must fail with a message and succeed when repeated, everything else must be as on the healthy disk, and a restart after a crash must produce the same files; "
        "non-trivial = a fault fired; distinct = by hash of session, faults and outputs")
MEASURE = "hash of files, commands, faults that fired and output files"
REAL = ["C2PO (console, scripts, command line, all readers and writers)", "Python's buffered and text file layers"]
STUB = ["file descriptors (dst/disk.py): files are real files in a scratch directory, faults are simulated"]
ASSUME = ["a write that fails leaves an arbitrary prefix of the data it was given"]
cleanup = msim.cleanup


def prepare(tier):
    c2.c2po()


def outputs(r, p, many):
    L = ["assemble --no-print %s @/o/b%d.bin" % (r.choice(["--aux", "--no-aux", ""]), r.randrange(2)), "assemble --print --assembly-filename @/o/asm.txt @/o/c.bin",
         "write_bounds_c @/o/h.h", "write_bounds_rust @/o/t.toml", "generate_map --output @/o/g.map",
         "generate_trace --seed %d --output @/o/g.csv -- %d -5 7" % (r.randrange(99), r.choice([1, 40, 700])), "write_c2po @/o/w.c2po", "write_prefix @/o/w.pre", "write_mltl @/o/w.mltl",
         "write_pickle @/o/w.pickle", "compile --no-print @/o/k.bin"]
    if p["ft"] and not p["pt"]:
        L += ["write_smt_encoding @/o/%s %s %s" % (r.choice(["s.smt2", "sd"]), r.choice(["uflia", "qf_uflia", "qf_bv"]), r.choice(["", "--strict"])),
              "write_eqsat_encoding @/o/%s" % r.choice(["e.egg", "ed"]), "write_equiv_smt_encoding @/o/%s %s" % (r.choice(["q.smt2", "qd"]), r.choice(["uflia", "qf_bv"])),
              "generate_sabre_code @/o/sabre.txt"]
    return r.sample(L, min(len(L), r.randrange(1, 4) if not many else r.randrange(3, 9)))


def gen_run(r, i, tier):
    p = gen.spec(r, depth=r.choice([1, 2, 2]), maxf=r.choice([2, 2, 6]), kinds=r.choice([None, "ft"]))
    plain = dict(p)
    if r.random() < .5:
        p = sugar.Sugar(r, p, p=.4).run()
        if p.get("needs_rewrite"): p = plain
    files = {"s.c2po": sugar.spec_text(p), "m.map": c2.map_text(p["sigs"]), "t.csv": "#" + ",".join(n for n, _ in p["sigs"]) + "\n" + "0," * (len(p["sigs"]) - 1) + "0\n"}
    if r.random() < .3: files["s.c2po"] += "".join("-- %s\n" % ("filler " * 20) for _ in range(r.choice([5, 60, 200])))
    mode = r.choices(["console", "crash", "script", "cli"], [5, 3, 2, 2])[0]
    plan = {"files": files, "mode": mode, "bz": p["bz"], "old": {}}
    bind = r.choice(["parse_map @/m.map", "parse_map @/m.map", "parse_trace @/t.csv", "generate_map --output @/o/first.map"])
    opt = hist.option_cmds(p)
    if mode == "cli":
        plan["cli"] = {"trace": bind.startswith("parse_trace"), "aux": r.random() < .5, "cse": r.random() < .5, "rewrite": True, "bounds": r.choice([None, "o/h.h", "o/t.toml"]),
                       "mission": p["mission"] if p.get("mission") is not None else -1, "quiet": r.random() < .5}
        plan["cmds"] = []
    else:
        L = list(opt)
        L.append("parse_c2po @/s.c2po")
        if bind.startswith("parse"): L += [bind, "type_check", "desugar"]
        else: L += ["type_check", "desugar", bind]
        for c in outputs(r, plain, r.random() < .4):
            while r.random() < .25: L.append(r.choice(hist.PASSES))
            if c.startswith("assemble"): L += ["multi_operators_to_binary", "remove_extended_operators"]
            if c.startswith("write_mltl"): L.append("compute_atomics")
            L.append(c)
        if r.random() < .3: L += ["parse_c2po @/s.c2po", "type_check", "write_prefix @/o/z.pre"]
        plan["cmds"] = L
        plan["rc"] = mode == "script" and r.random() < .4
    for n in ("o/b0.bin", "o/h.h", "o/w.c2po", "o/s.smt2", "o/g.csv", "o/e.egg", "o/asm.txt"):
        if r.random() < .25: plan["old"][n] = "old " * r.choice([1, 3000])
    hard = [o for o in disk.HARD]
    F = []
    for _ in range(r.choice([1, 1, 2, 4])):
        op = r.choices(hard, [4, 3, 6, 3, 1, 1])[0]
        kind = r.choice(disk.HARD[op] + (disk.SOFT.get(op, []) if r.random() < .5 else []))
        F.append([op, r.random(), kind, r.choice([0, r.random(), r.random()])])
    if mode == "crash": F[-1] = [r.choices(["open", "read", "write", "close"], [2, 1, 6, 3])[0], r.random(), "CRASH", r.random()]
    plan["faults"] = F
    return plan


def fresh(plan, d):
    shutil.rmtree(d, ignore_errors=True)
    for x in ("", "/o", "/tmp"): os.mkdir(d + x)
    for n, t in list(plan["files"].items()) + list(plan["old"].items()):
        with open(os.path.join(d, n), "w", encoding="utf-8") as f: f.write(t)
    if plan["mode"] == "script":
        with open(d + "/x.cmd", "w") as f: f.write("\n".join(c.replace("@/", d + "/") for c in plan["cmds"]) + "\n")
        if plan["rc"]:
            with open(d + "/rc", "w") as f: f.write("suppress_warnings\n")


def tree(d):
    out = {}
    for b, ds, fs in os.walk(d):
        for n in fs:
            with open(os.path.join(b, n), "rb") as f: out[os.path.relpath(os.path.join(b, n), d)] = content(n, f.read())
    return out


def whole(plan, d):
    """Runs a script or the command line; (status, stdout, stderr)."""
    m = c2.c2po()["main"]
    c2.reset_globals()
    so, se, cwd, rc = io.StringIO(), io.StringIO(), os.getcwd(), m.C2PO_RC_PATH
    import pathlib
    m.C2PO_RC_PATH = pathlib.Path(d + "/rc")
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            try:
                if plan["mode"] == "script": st = m.script(d + "/x.cmd")
                else:
                    k = plan["cli"]
                    st = m.cli(spec_filename=d + "/s.c2po", trace_filename=d + "/t.csv" if k["trace"] else None, map_filename=None if k["trace"] else d + "/m.map",
                               output_filename=d + "/o/b0.bin", write_bounds_filename=k["bounds"] and d + "/" + k["bounds"], quiet=k["quiet"], debug=False, only_parse=False,
                               only_type_check=False, only_compile=False, mission_time=k["mission"], scq_constant=0, enable_booleanizer=plan["bz"], enable_aux=k["aux"],
                               enable_cse=k["cse"], enable_rewrite=k["rewrite"], enable_extops=False, enable_eqsat=False, enable_eqsat_equiv_check=False, enable_eqsat_const_folding=False,
                               enable_eqsat_associative=False, enable_eqsat_commutative=False, enable_eqsat_multi_arity=False, enable_eqsat_temporal=False, eqsat_max_time=1,
                               eqsat_max_memory=0, num_gurobi_threads=1, egglog_path=None, check_sat=False, smt_theory="uflia", smt_max_time=1, smt_max_memory=0, smt_solver_path=None)
                st = st.name
            except SystemExit as e: st = "EXIT %s" % e.code
            except Exception:  # left the compiler
                st = "DIED"
                se.write(traceback.format_exc())
    finally:
        os.chdir(cwd)
        m.C2PO_RC_PATH = rc
    return st, so.getvalue(), se.getvalue()


def content(name, b):
    """Contents to compare: pickles differ in what they share, not in what they mean."""
    if not name.endswith(".pickle"): return b
    try: x = pickle.loads(b)
    except Exception as e: return "torn: %d" % len(b)
    return repr(x) + str(x)


def tmpless(t):
    return re.sub(r"/tmp/tmp\w+", "/tmp/T", t)


def execute(plan):
    o = Out()
    d = os.path.join(msim.scratch(), "c07")
    single = plan["mode"] in ("script", "cli")

    def healthy(dk):
        res = []
        if single: return [whole(plan, d)]
        s = c2.Session(d)
        for c in plan["cmds"]:
            before = set(dk.wrote)
            dk.wrote.clear()
            so, se, bad = s.cmd(c.replace("@", d))
            res.append((so, se, s.last.name, {os.path.relpath(x, d): content(x, dk._open(x, "rb").read()) for x in sorted(dk.wrote) if os.path.exists(x)}))
        return res
    # the healthy disk
    fresh(plan, d)
    with disk.Disk(d) as dk: want = healthy(dk)
    final = tree(d)
    if any("found constant formula" in x[1 if not single else 2] for x in want):
        o.nontrivial = False; return o
    F = [[op, int(x * max(1, dk.count.get(op, 1))), kind, part] for op, x, kind, part in plan["faults"]]
    # the failing disk
    fresh(plan, d)
    partial = False
    info = "\n".join(plan["cmds"]) + "\n" + str(plan.get("cli", ""))
    with disk.Disk(d, F) as dk:
        try:
            if single:
                st, so, se = whole(plan, d)
                show = "faults %s\n%s\n%s" % (dk.fired, se[-1500:], info)
                if "unexpected error" in se or "Traceback" in se: return o.fail("internal-error", show)
                if dk.hard:
                    if st == "SUCCESS": return o.fail("fault-but-success", show)
                    if not se.strip() and not so.strip(): return o.fail("silent-failure", show)
                else:
                    if (st, tmpless(so), tmpless(se)) != (want[0][0], tmpless(want[0][1]), tmpless(want[0][2])): return o.fail("differs", "%s\nwithout faults: %s" % (show, want[0]))
                    if tree(d) != final: return o.fail("files-differ", show)
            else:
                s = c2.Session(d)
                for n, c in enumerate(plan["cmds"]):
                    for attempt in range(len(F) + 2):
                        dk.hard = False
                        dk.wrote.clear()
                        so, se, bad = s.cmd(c.replace("@", d))
                        show = "%s, faults %s\n%s\n%s" % (c, dk.fired, (se or so)[-1500:], info)
                        if "unexpected error" in se or "Traceback" in se: return o.fail("internal-error:" + c.split()[0], show)
                        if not dk.hard: break
                        if not bad: return o.fail("fault-but-success:" + c.split()[0], show)
                        if not se.strip() and not so.strip(): return o.fail("silent-failure:" + c.split()[0], show)
                        o.stats["sim:retries"] += 1
                    if dk.hard: return o.fail("harness-faults", "never ends")
                    if attempt and c.startswith("compile "):  # it transformed the program twice: same meaning, other text
                        o.stats["compile_repeated"] += 1
                        partial = True
                        break
                    w = want[n]
                    if s.last.name != w[2]: return o.fail("status-differs:" + c.split()[0], "%s instead of %s\n%s" % (s.last.name, w[2], show))
                    if (so, se) != w[:2]: return o.fail("messages-differ:" + c.split()[0], "%s\nwithout faults: %s" % (show, w[:2]))
                    for x in dk.wrote: 
                        rel = os.path.relpath(x, d)
                        with dk._open(x, "rb") as f: got = content(x, f.read())
                        if got != w[3].get(rel): return o.fail("output-differs:" + c.split()[0], "%s holds %d bytes, without faults %d\n%s" % (rel, len(got), len(w[3].get(rel, b"")), show))
                    if set(w[3]) != {os.path.relpath(x, d) for x in dk.wrote}: return o.fail("outputs-missing:" + c.split()[0], "%s\n%s" % (sorted(w[3]), show))
        except disk.Crash: pass
        finally: fired, dead = list(dk.fired), dk.dead
    for op, kind, name in fired: o.stats["fault:%s_%s" % (op, kind)] += 1
    # restart, with what the disk holds now
    if dead or single:
        o.stats["sim:restarts"] += 1
        with disk.Disk(d) as dk: again = healthy(dk)
        if single: same = [tuple(map(tmpless, again[0]))] == [tuple(map(tmpless, want[0]))]
        else: same = again == want
        if not same:
            k = next(k for k in range(len(want)) if again[k] != want[k])
            return o.fail("restart-differs", "faults %s: after the restart %s\nwithout faults %s\n%s" % (fired, str(again[k])[:1500], str(want[k])[:1500], info))
    got = tree(d)
    if dead: got = {n: b for n, b in got.items() if not n.startswith("tmp/")}
    for n, t in plan["files"].items():
        if got.get(n) != t.encode(): return o.fail("input-changed", n + "\n" + info)
    if got != final and not partial:
        n = next(n for n in sorted(set(got) | set(final)) if got.get(n) != final.get(n))
        return o.fail("files-differ", "%s: %s instead of %s, faults %s\n%s" % (n, str(got.get(n))[:80], str(final.get(n))[:80], fired, info))
    o.stats["sim:disk_operations"] += sum(dk.count.values())
    o.stats["mode:" + plan["mode"]] += 1
    o.nontrivial = bool(fired)
    o.sig = h16([plan["files"], plan["cmds"], str(fired), sorted((n, h16(b)) for n, b in got.items())])
    return o


def shrink(p):
    for i in range(len(p["faults"])):
        if len(p["faults"]) > 1: yield dict(p, faults=p["faults"][:i] + p["faults"][i + 1:])
    for i in range(len(p["cmds"])): yield dict(p, cmds=p["cmds"][:i] + p["cmds"][i + 1:])
    for n in p["old"]: yield dict(p, old={k: v for k, v in p["old"].items() if k != n})
    for f in range(len(p["faults"])):
        op, x, kind, part = p["faults"][f]
        if part: yield dict(p, faults=p["faults"][:f] + [[op, x, kind, 0]] + p["faults"][f + 1:])
