"""C03: what a compilation produces depends on its inputs and options only."""
import random, re
from dst import c2, heap, hist, msim, serve
from dst.core import Out, h16

LEVEL = "exploration"
COUNTS = {"quick": 4000, "thorough": 50000}
RULE = ("one run = one compilation job (options, parse, map, checks, passes, prints, assembly, bounds) executed in a fresh session, and again after a random history of "
        "other commands in the same session (other specifications, failures, push/pop, options), or in another process with another hash seed, or in another "
        "working directory with relative names, or under a simulated heap (which identities expressions get, when they are given again, when garbage is collected); all messages, prints and files must be identical; non-trivial = the job assembles; distinct = by hash of history and job")
MEASURE = "hash of history, job and observations"
REAL = ["C2PO (console, all passes)", "separate compiler processes for other hash seeds"]
STUB = []
ASSUME = ["identities and hashes of expressions are simulated in the 'heap' runs only; the other runs disturb the allocator before the job instead"]
SEEDS = (1, 2024)
_srv = {}


WORDS = set("STRUCT INPUT DEFINE ENUM ATOMIC FTSPEC PTSPEC bool int float true false G F U R H O S T M xor abs sqrt pow foreach forsome forexactly foratleast foratmost rate prev".split())


def prepare(tier):
    c2.c2po()


def cleanup():
    for s in _srv.values():
        try: s.close()
        except Exception: pass
    msim.cleanup()


def server(k):
    if k not in _srv: _srv[k] = serve.Server(k)
    return _srv[k]


def gen_run(r, i, tier):
    files, specs = hist.world(r)
    p = specs[0]
    how = r.choices(["history", "seed", "cwd", "heap"], [6, 3, 1, 3])[0]
    job = hist.option_cmds(p) + ["parse_c2po @/s0.c2po", "parse_map @/m0.map" if how == "history" or r.random() < .8 else "generate_map --output @/g.map", "type_check", "desugar"]
    if "generate_map" in job[3]: job[3], job[4], job[5] = job[4], job[5], job[3]
    for _ in range(r.randrange(6)): job.append(r.choice(hist.PASSES))
    job += ["print_c2po", "print_prefix", "multi_operators_to_binary", "remove_extended_operators", "optimize_cse",
            "assemble %s --no-print @/o.bin" % r.choice(["--aux", "--no-aux"]), "assemble --print @/o2.bin", "print_mltl", "write_bounds_c @/o.h", "write_bounds_rust @/o.toml",
            "print_stats '%s'" % hist.STATS]
    h = [("push" if r.random() < .1 else hist.command(r, len(specs))) for _ in range(r.randrange(2, 20))]
    if r.random() < .2 and how in ("history", "heap"):  # a name only the other specification has
        names = sorted(set(re.findall(r"[A-Za-z_]\w*", files["s1.c2po"])) - set(re.findall(r"[A-Za-z_]\w*", files["s0.c2po"])) - WORDS)
        if names:
            n = r.choice(names)
            files["s0.c2po"] = r.choice([lambda t: t + "\nFTSPEC\n  zz0: %s;\n" % n, lambda t: t + "\nFTSPEC\n  zz0: %s == %s;\n" % (n, n), lambda t: "INPUT\n  zq: %s;\n" % n + t])(files["s0.c2po"])
            h = hist.option_cmds(specs[1]) + ["parse_c2po @/s1.c2po", "parse_map @/m1.map", "type_check"] + h
    elif r.random() < .5: h = hist.option_cmds(specs[1]) + ["parse_c2po @/s1.c2po", "parse_map @/m1.map", "type_check"] + h
    return {"files": files, "hist": h, "job": job, "how": how, "junk": r.choice([0, 0, 1000, 20000]),
            "hashseed": r.choice(SEEDS), "heap": [r.randrange(1 << 30), r.choice(heap.POLICIES), r.choice([0, 0, .01, .1])]}


def execute(plan):
    o = Out()
    a = hist.job(plan["files"], plan["job"])
    how = plan["how"]
    if how == "heap":
        with heap.Heap(*plan["heap"]) as hp: b = hist.job(plan["files"], plan["job"])
        o.stats["fault:identity_reused"] += hp.reused
        o.stats["fault:garbage_collected"] += hp.collections
    junk = [object() for _ in range(plan["junk"])][::2]
    if how == "history":
        s, d, res = hist.run(plan["hist"], plan["files"])
        s.con.state_stack.clear()
        b = hist.job(plan["files"], plan["job"], session=s)
        o.stats["fault:failed_commands"] += sum(x[2] != "SUCCESS" for x in res)
        o.stats["sim:commands"] += len(plan["hist"])
    elif how == "seed":
        b = server(plan["hashseed"]).job(files=plan["files"], cmds=plan["job"])
    elif how == "cwd":
        b = hist.job(plan["files"], plan["job"], cwd=True)
    del junk
    o.stats["how:" + how] += 1
    o.stats["sim:commands"] += 2 * len(plan["job"])
    b = [[list(x) for x in b[0]], b[1]]
    for c, x, y in zip(plan["job"], a[0], b[0]):
        if x != y: return o.fail("differs:%s:%s" % (how, c.split()[0]), "%s\nalone: %s\nhere: %s\nhistory: %s\njob: %s" % (c, str(x)[:500], str(y)[:500], plan["hist"], plan["job"]))
    for n in sorted(set(a[1]) | set(b[1])):
        if a[1].get(n) != b[1].get(n): return o.fail("file-differs:%s:%s" % (how, n), "%s\nhistory: %s\njob: %s" % (n, plan["hist"], plan["job"]))
    o.nontrivial = "o.bin" in a[1]
    o.stats["assembled"] += o.nontrivial
    o.sig = h16([plan["hist"] if how == "history" else how, a])
    return o


def shrink(plan):
    for key in ("hist", "job"):
        n = len(plan[key])
        for k in (8, 4, 2, 1):
            for i in range(0, n - k + 1): yield dict(plan, **{key: plan[key][:i] + plan[key][i + k:]})
    for f in list(plan["files"]):
        if f.endswith(".c2po"):
            L = plan["files"][f].split("\n")
            for i in range(len(L)):
                yield dict(plan, files=dict(plan["files"], **{f: "\n".join(L[:i] + L[i + 1:])}))
