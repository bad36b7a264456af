"""C05: a session survives any commands in any order: failures are reported and never make a later success wrong."""
import os, re
from dst import c2, gen, hist, msim, ref, sugar
from dst.core import Out, h16
from . import c01, c02

LEVEL = "exploration"
COUNTS = {"quick": 6000, "thorough": 60000}
RULE = ("one run = a random history of console commands in any order (premature, repeated, failing, with missing, broken or unwritable files, option changes, push and pop), "
        "ending in an attempt to assemble; no command may end in an internal error; every failure has a status and a message; every binary assembled on the way is "
        "loaded and judged by the reference for the specification and signal mapping in force; part of the runs replay the history as a script and check its exit status; "
        "non-trivial = a command failed and a binary was judged; distinct = by hash of history and results")
MEASURE = "hash of command history and results"
REAL = ["C2PO (console, all passes)", "C monitor library"]
STUB = ["sensors (simulated)"]
ASSUME = ["reference model (dst/ref.py) is right"]
cleanup = msim.cleanup
prepare = c01.prepare
FINISH = ["type_check", "desugar", "multi_operators_to_binary", "remove_extended_operators", "assemble --no-print @/mid.bin"]


def gen_run(r, i, tier):
    files, specs = {}, []
    bz = r.random() < .5
    for k in range(2):
        p = gen.spec(r, depth=r.choice([1, 2]), maxf=2, bz=bz if r.random() < .8 else None)
        if r.random() < .4:
            q = sugar.Sugar(r, p, p=.3)
            q.mission = -7  # no mission time: it may change in the middle of a history
            p = q.run()
            p["mission"] = None
            if p.get("needs_rewrite"): p = gen.spec(r, depth=1, maxf=2, bz=bz)
        p["rows"] = gen.rows(r, p["sigs"], 8)
        for row in p["rows"]:
            for c, (nm, t) in enumerate(p["sigs"]):
                if nm in (p.get("decl") or {}): row[c] = r.randrange(0, 5)
        files["s%d.c2po" % k] = sugar.spec_text(p)
        files["m%d.map" % k] = c2.map_text(p["sigs"], r.choice([None, r.sample(range(len(p["sigs"]) + 3), len(p["sigs"]))]))
        specs.append({x: p[x] for x in ("sigs", "ft", "pt", "rows", "bz")})
    f2, _ = hist.world(r)
    for n in ("bad.c2po", "ill.c2po", "bad.map", "f.mltl"): files[n] = f2[n]
    files["bad.c2po"] += "\n%%%\n"
    cmds = []
    if r.random() < .7:
        cmds = (["enable_booleanizer"] if specs[0]["bz"] else []) + ["parse_c2po @/s0.c2po", "parse_map @/m0.map", "type_check", "desugar"]
        r.random() < .2 and r.shuffle(cmds)
    xor = any(c02.neg_xor(sugar.plain(f)) for p in specs for _, f in msim.formulas(p))
    for _ in range(r.randrange(3, 18)):
        x = r.random()
        c = "push" if x < .04 else "pop" if x < .08 else hist.command(r, 2, [3, 2, 3, 3, 6, 1, 2, .7, .7, 1.5, .7, .4])
        if c == "to_nnf" and xor: continue
        if c == "convert_atomics_to_signals": continue  # gives up the link to the user's signals
        if c == "generate_map": c += " --output @/g.map"
        cmds.append(c)
    if r.random() < .5: cmds += ["parse_map @/m0.map"]
    tail = 0
    if r.random() < .5:  # whatever came before: a proper sequence of commands must succeed
        k = r.randrange(2)
        t = ["enable_booleanizer" if specs[k]["bz"] else "disable_booleanizer", "parse_c2po @/s%d.c2po" % k]
        for c in ("parse_map @/m%d.map" % (1 - k), "parse_map @/m.map", "parse_map @/bad.map", "push"):
            if r.random() < .2: t.append(c)
        t.append("parse_map @/m%d.map" % k)
        files["m.map"] = c2.map_text(specs[k]["sigs"], r.sample(range(len(specs[k]["sigs"])), len(specs[k]["sigs"])))
        cmds, tail = cmds + t, len(t) + len(FINISH)
    cmds += FINISH
    return {"files": files, "specs": specs, "cmds": cmds, "script": r.random() < .25, "tail": tail}


def read_map(text):
    return {l.split(":")[0]: int(l.split(":")[1]) for l in text.split() if re.match(r"\w+:\d+$", l)}


def execute(plan):
    o = Out()
    files, specs = plan["files"], plan["specs"]
    d = hist.fresh_dir(files)
    s = c2.Session(d)
    cur, mp, stack, bz = None, {}, [], False
    codes, judged = [], 0
    for n, c in enumerate(plan["cmds"]):
        for f in ("mid.bin", "g.map"):
            if os.path.exists(os.path.join(d, f)): os.unlink(os.path.join(d, f))
        try:
            so, se, bad = s.cmd(c.replace("@", d))
        except Exception as x:
            return o.fail("console-died:" + c.split()[0], "%s: %s\n%s" % (type(x).__name__, x, plan["cmds"][:n + 1]))
        if s.exited is not None: return o.fail("console-left", c)
        codes.append(s.last.name)
        w = c.split()[0]
        o.stats["sim:commands"] += 1
        if "internal:" in se: return o.fail("internal-error:" + w + ":" + kind(se), "%s\n%s\n%s" % (se[-700:], plan["cmds"][:n + 1], ""))
        if not bad and re.search(r"(^|: )error: ", se, re.M): return o.fail("error-but-success:" + w + ":" + kind(se), "%s\n%s" % (se[-600:], plan["cmds"][:n + 1]))
        if bad:
            o.stats["fault:failed_command"] += 1
            if w == "parse_map" and "does not contain all signals" in se: mp = read_map(files[c.split("/")[1]])
            if n >= len(plan["cmds"]) - plan["tail"] and c not in ("parse_map @/bad.map", "parse_map @/m%d.map" % (1 - (cur or 0)), "parse_map @/m.map") and "constant formula" not in se:
                return o.fail("proper-command-fails:" + w + ":" + kind(se or so), "%s\n%s\n%s" % ((se or so)[-400:], plan["cmds"][:n + 1], files["s%d.c2po" % (cur or 0)]))
            if not (se.strip() or so.strip()): return o.fail("silent-failure:" + w, "%s fails (%s) without a message\n%s" % (c, codes[-1], plan["cmds"][:n + 1]))
            continue
        if w == "parse_c2po":
            k = re.match(r"@/s(\d)\.c2po", c.split()[1])
            cur = int(k.group(1)) if k else None
        elif w == "parse_mltl": cur = None
        elif w == "parse_map":
            mp = read_map(files[c.split("/")[1]])
        elif w == "generate_map":
            with open(os.path.join(d, "g.map")) as f: mp = read_map(f.read())
        elif w == "push": stack.append((cur, dict(mp)))
        elif w == "pop" and stack: cur, mp = stack.pop()
        path = os.path.join(d, "mid.bin")
        if "extended operators" in se: continue  # the warning says that the monitor may not implement what was assembled
        if os.path.exists(path) and w in ("assemble", "compile") and cur is not None and judged < 3:
            p = specs[cur]
            if any(nm not in mp for nm, t in p["sigs"]):
                used = set()
                for _, f in msim.formulas(p): used |= names(f, p["sigs"])
                if any(u not in mp for u in used): return o.fail("unmapped-signal", "assembled although %s are not mapped\n%s" % (sorted(u for u in used if u not in mp), plan["cmds"][:n + 1]))
            top = max(list(mp.values()) + [0])
            ids = [mp.get(nm, top + 1 + j) for j, (nm, t) in enumerate(p["sigs"])]
            if len(set(ids)) < len(ids): continue
            with open(path, "rb") as f: b = f.read()
            q = Out()
            c01.run_and_judge(dict(p, ids=ids), b, q)
            o.stats["binaries_judged"] += q.nontrivial
            o.stats["verdicts"] += q.stats["verdicts"]
            judged += 1
            if q.viol: return o.fail(q.viol[0], "%s\nafter %s\n%s" % (q.viol[1], plan["cmds"][:n + 1], files["s%d.c2po" % cur]))
    if plan["script"] and not any(c.startswith("parse_c2po 'un") for c in plan["cmds"]):
        d = hist.fresh_dir(files)
        m = c2.c2po()
        path = os.path.join(d, "script.cmd")
        with open(path, "w") as f: f.write("# a script\n\n" + "\n".join(c.replace("@/", "") for c in plan["cmds"]) + "\n")
        import contextlib, io
        e = io.StringIO()
        cwd = os.getcwd()
        c2.reset_globals()
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(e):
                rc = m["main"].script(path)
        except SystemExit as x:
            return o.fail("script-left", repr(x))
        finally:
            os.chdir(cwd)
        want = any(x != "SUCCESS" for x in codes)
        o.stats["scripts"] += 1
        if (rc.value != 0) != want:
            return o.fail("exit-status", "script status %s although commands returned %s\n%s" % (rc, codes, plan["cmds"]))
    o.nontrivial = o.stats["binaries_judged"] > 0 and o.stats["fault:failed_command"] > 0
    o.sig = h16([plan["cmds"], codes, list(files.values())])
    return o


def kind(se):
    L = [l for l in se.strip().split("\n") if l]
    m = [l for l in L if re.match(r"[A-Z]\w*(Error|Exception)?:|\w+Error", l)]
    return h16(re.sub(r"\d+|'[^']*'", "", m[-1] if m else L[0]))[:6]


def names(f, sigs):
    if f[0] in ("a", "i", "f"): return {sigs[f[1]][0]}
    return set().union(*[names(g, sigs) for g in (f[2:] if f[0] == "sug" else f) if isinstance(g, list)] or [set()])


def shrink(plan):
    n = len(plan["cmds"]) - plan["tail"]
    for k in (8, 4, 2, 1):
        for i in range(0, n - k + 1): yield dict(plan, cmds=plan["cmds"][:i] + plan["cmds"][i + k:])
    for i in range(n + 2, len(plan["cmds"])):
        if plan["tail"] and plan["cmds"][i].startswith(("parse_map @/m.", "parse_map @/b", "push", "gen")): yield dict(plan, cmds=plan["cmds"][:i] + plan["cmds"][i + 1:], tail=plan["tail"] - 1)
    if plan["script"]: yield dict(plan, script=False)
