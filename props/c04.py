"""C04: pop restores exactly the state at the matching push, and push disturbs nothing."""
from dst import c2, gen, hist, msim, sugar
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 5000, "thorough": 60000}
RULE = ("one run = a random command history (parses, maps, checks, passes, assemblies, prints, options, failing commands) with nested push and pop, followed by "
        "observing commands; the same history without the undone segments and without push/pop, in a fresh session, must give the same observations "
        "(output, messages, status, written files); non-trivial = something was pushed and something undone; distinct = by hash of history and observations")
MEASURE = "hash of the command history and the observations"
REAL = ["C2PO (console, all passes)"]
STUB = []
ASSUME = ["a fresh session without the undone commands is what 'restored' means"]
TAIL = ["print_c2po", "print_prefix", "print_stats '%s'" % hist.STATS, "write_bounds_c @/t0.h", "print_mltl", "write_mltl @/t.mltl", "assemble --no-print @/t0.bin",
        "type_check", "desugar", "print_prefix", "optimize_cse", "print_prefix", "multi_operators_to_binary", "remove_extended_operators",
        "assemble --aux --no-print @/t1.bin", "write_bounds_c @/t1.h", "print_stats '%s'" % hist.STATS, "print_prefix"]
cleanup = msim.cleanup


def prepare(tier):
    c2.c2po()


def gen_run(r, i, tier):
    files, specs = hist.world(r)
    p = specs[0]
    start = hist.option_cmds(p) + ["parse_c2po @/s0.c2po", "parse_map @/m0.map", "type_check", "desugar"] + [r.choice(hist.PASSES) for _ in range(r.randrange(4))]
    cmds = start[:r.choice([2, 3, 4, 5, 6, 6, 7, 8, 9, 10])]
    if r.random() < .3: cmds += ["multi_operators_to_binary", "remove_extended_operators", "assemble --no-print @/mid.bin"]
    for _ in range(r.randrange(3, 16)):
        x = r.random()
        cmds.append("push" if x < .18 else "pop" if x < .33 else hist.command(r, len(specs)))
    if "push" not in cmds: cmds.insert(r.randrange(len(cmds)), "push")
    if r.random() < .8: cmds.append("pop")
    return {"files": files, "cmds": cmds, "tail": TAIL if r.random() < .7 else r.sample(TAIL, len(TAIL))}


def effective(cmds):
    st, cur, undone = [], [], 0
    for c in cmds:
        if c == "push": st.append(list(cur))
        elif c == "pop":
            if st:
                new = st.pop()
                undone += len(cur) - len(new)
                cur = new
        else: cur.append(c)
    return cur, undone


def execute(plan):
    o = Out()
    files = plan["files"]
    eff, undone = effective(plan["cmds"])
    s, d, res = hist.run(plan["cmds"], files)
    for c, x in zip(plan["cmds"], res):
        if x[2] == "DIED": return o.fail("console-died", "%s: %s" % (c, x[1]))
        if c == "push" and x[2] != "SUCCESS": return o.fail("push-failed", x[1])
    drop = lambda d: [__import__("os").unlink(__import__("os").path.join(d, n)) for n in hist.outputs(d, files)]
    drop(d)
    s, d, a = hist.run(plan["tail"], files, s, d)
    fa = hist.outputs(d, files)
    s2, d2, r2 = hist.run(eff, files)
    drop(d2)
    s2, d2, b = hist.run(plan["tail"], files, s2, d2)
    fb = hist.outputs(d2, files)
    o.stats["sim:commands"] += len(plan["cmds"]) + len(plan["tail"])
    o.stats["undone_commands"] += undone
    o.stats["pushes"] += plan["cmds"].count("push")
    o.stats["nested_or_repeated"] += plan["cmds"].count("push") > 1
    o.stats["fault:failed_commands"] += sum(x[2] != "SUCCESS" for x in res)
    for c, x, y in zip(plan["tail"], a, b):
        if x != y: return o.fail("differs:" + c.split()[0], "%s\nwith push/pop: %s\nwithout: %s\nhistory: %s" % (c, str(x)[:500], str(y)[:500], plan["cmds"]))
    for n in sorted(set(fa) | set(fb)):
        if fa.get(n) != fb.get(n): return o.fail("file-differs:" + n, "%s\nhistory: %s" % (n, plan["cmds"]))
    o.stats["tails_that_assembled"] += "t1.bin" in fa
    o.nontrivial = undone > 0
    o.sig = h16([plan["cmds"], [x for x in a]])
    return o


def shrink(plan):
    n = len(plan["cmds"])
    for k in (8, 4, 2, 1):
        for i in range(0, n - k + 1): yield dict(plan, cmds=plan["cmds"][:i] + plan["cmds"][i + k:])
    for i in range(len(plan["tail"])): yield dict(plan, tail=plan["tail"][:i] + plan["tail"][i + 1:])
    for f in list(plan["files"]):
        if f.endswith(".c2po"):
            L = plan["files"][f].split("\n")
            for i in range(len(L)):
                yield dict(plan, files=dict(plan["files"], **{f: "\n".join(L[:i] + L[i + 1:])}))
