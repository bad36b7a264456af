"""C08: every signal reads the column its map or trace header names; generated maps and traces fit the specification."""
import os, re
from dst import c2, gen, msim, ref, sugar
from dst.core import Out, h16
from . import r03

LEVEL = "exploration"
COUNTS = {"quick": 6000, "thorough": 90000}
RULE = ("one run = a random specification over scalar and array inputs, bound by a map file (single lines, array ranges, sparse and shared columns, unrelated and "
        "repeated names), by a generated map (used in the session that made it, or read back by another), or by the header line of the trace; then "
        "monitored by the real command line program over a trace with that layout (random, or made by generate_trace with a random seed and range) and judged by the "
        "reference; broken maps and headers (missing signal, malformed line, torn in the middle of a line, empty) must be refused; "
        "non-trivial = a verdict or a refusal; distinct = by hash of specification, binding and output")
MEASURE = "hash of specification text, binding files and output"
REAL = ["C2PO (map and trace readers and generators, compiler)", "command line program with its CSV reader"]
STUB = ["libc streams of the command line program (in-memory)"]
ASSUME = ["reference model (dst/ref.py) is right"]
cleanup = msim.cleanup


def prepare(tier):
    msim.prepare("plain", "big")


def array_forms(r, p):
    """Formulas over whole arrays or slices, with their meaning."""
    out = []
    for nm, (t, size, off, cols) in p["arrays"].items():
        if r.random() < .3: continue
        a = r.randrange(len(cols)); z = r.randrange(a, len(cols))
        rng = "%s[%d..%d]" % (nm, off + a, off + z)
        if len(cols) == size and r.random() < .4: rng, a, z = nm, 0, size - 1
        q, j = r.choice([("foreach", "&"), ("forsome", "|")])
        if t == "bool": body, each = "e", [["a", c] for c in cols[a:z + 1]]
        else:
            k = r.randrange(-3, 4)
            body = "e > %s" % (k if t == "int" else gen.fl(k))
            each = [["cmp", ">", ["i" if t == "int" else "f", c], ["ic" if t == "int" else "fc", k]] for c in cols[a:z + 1]]
        if t == "int" and r.random() < .4 and z - a + 1 < len(cols):
            w = z - a + 1
            b = r.randrange(len(cols) - w + 1)
            text = "(%s[%d..%d] %s %s[%d..%d])" % (nm, off + a, off + z, "==", nm, off + b, off + b + w - 1)
            each = [["cmp", "==", ["i", cols[a + x]], ["i", cols[b + x]]] for x in range(w)]
            j = "&"
        else: text = "%s(e: %s)(%s)" % (q, rng, body)
        out.append(["sug", text, [j] + each if len(each) > 1 else each[0]])
    return out


def gen_run(r, i, tier):
    p = gen.spec(r, maxf=2, depth=r.choice([0, 1, 2]))
    p["opts"] = {"rewrite": r.random() < .7, "cse": r.random() < .7}
    if r.random() < .6:
        for _ in range(r.randrange(1, 5)):  # more signals than the formulas use
            t = r.choice(["bool", "int", "float"]) if p["bz"] else "bool"
            p["sigs"].append(["%s%d" % (t[0], len(p["sigs"])), t])
    S = p["sigs"]
    p["arrays"] = {}
    for t in ("bool", "int", "float"):
        cols = [c for c, (n, tt) in enumerate(S) if tt == t]
        if len(cols) < 2 or r.random() < .4: continue
        cols = r.sample(cols, r.randrange(2, len(cols) + 1))
        off = r.choice([0, 0, 0, 1, 7, 8, 9, 96, 98, 99])
        if sum(a[1] for a in p["arrays"].values()) > 90: off %= 10  # stay within the signals the monitor is built for
        size = off + len(cols) + r.choice([0, 0, 1, 5])
        nm = r.choice(["ar", "Arr", "a_1", "x"]) + t[0]
        for k, c in enumerate(cols): S[c][0] = "%s[%d]" % (nm, off + k)
        p["arrays"][nm] = [t, size, off, cols]
    if p["arrays"]:
        key = "ft" if p["ft"] else "pt"
        for f in array_forms(r, p)[:2]:
            p[key].append(["arr%d" % len(p[key]), f if r.random() < .5 else ["G" if key == "ft" else "H", 0, r.randrange(1, 5), f]])
    p["n"] = r.choice([1, 3, 8, 20])
    p["mode"] = m = r.choices(["map", "genmap", "header"], [4, 2, 3])[0]
    p["bad"] = None
    names = scalars(p)
    if m == "genmap":
        p["col"] = {n: k for k, n in enumerate(names)}
        p["again"] = r.random() < .5
    elif m == "map":
        p["lines"], p["col"] = map_lines(r, p, names)
    else:
        cells = [n for n in names if n in used(p) or r.random() < .7] + ["zz%d" % k for k in range(r.randrange(3))]
        r.shuffle(cells)
        if r.random() < .2: cells.insert(0, r.choice(cells))  # a repeated name: the right-most counts
        p["col"] = {n: k for k, n in enumerate(cells)}
        p["cells"] = cells
        p["blank"] = r.choice(["", " ", "  "])
    if m != "genmap" and r.random() < .15:
        p["bad"] = r.choice(["missing", "missing", "empty", "torn"] + (["trailing", "noline", "word"] if m == "map" else []))
        p["pick"] = r.random()
    p["gtrace"] = None
    if r.random() < .35 and not p["bad"]:
        lo = r.choice([0, 0, -5, -1e-4, -3000.5, 12])
        p["gtrace"] = {"n": r.choice([1, 5, 20]), "lo": lo, "hi": lo + r.choice([0, 1, 1e-4, 10, 123456.5]), "seed": r.randrange(10**6), "prec": r.choice([None, None, 1, 3, 9])}
    rows = gen.rows(r, S, p["n"])
    share = {}
    for c, (n, t) in enumerate(S): share.setdefault(p["col"].get(n), []).append(c)
    for row in rows:
        for cs in share.values():
            for c in cs: row[c] = row[cs[0]]
    p["rows"] = rows
    p["junk"] = r.randrange(100)
    return p


def used(p):
    """Signals the specification mentions (whole arrays and slices included)."""
    t = spec_text(p).split("TSPEC", 1)[1]
    names = {n for n, _ in p["sigs"] if re.search(r"(?<![\w])" + re.escape(n) + (r"(?!\w)" if not n.endswith("]") else ""), t)}
    for nm, (ty, size, off, cols) in p["arrays"].items():
        if re.search(r"\b%s\b(?!\[\d+\])" % re.escape(nm), t): names |= {"%s[%d]" % (nm, k) for k in range(size)}
    return names


def scalars(p):
    """Names of all declared scalar signals, in order of declaration."""
    out = []
    for d in decls(p):
        ns, t = d[:-1].split(": ")
        for n in ns.split(", "): out += ["%s[%d]" % (n, k) for k in range(p["arrays"][n][1])] if n in p["arrays"] else [n]
    return out


def decls(p):
    out, arr = [], set()
    for n, t in p["sigs"]:
        nm = n.split("[")[0]
        if "[" not in n: out.append("%s: %s;" % (n, t))
        elif nm not in arr:
            arr.add(nm)
            out.append("%s: %s[%d];" % (nm, t, p["arrays"][nm][1]))
    return out


def spec_text(p):
    pr = sugar.Printer(p["sigs"])
    L = ["INPUT"] + ["  " + d for d in decls(p)]
    for kw, key in (("FTSPEC", "ft"), ("PTSPEC", "pt")):
        if p[key]: L += [kw] + ["  %s: %s;" % (lab, pr.text(f)) for lab, f in p[key]]
    return "\n".join(L) + "\n"


def map_lines(r, p, names):
    lines, col, nxt = [], {}, 0
    items, done = [], set()
    for n in names:
        a = n.split("[")[0]
        if a in p["arrays"]:
            if a in done: continue
            done.add(a)
            size = p["arrays"][a][1]
            cut = sorted(r.sample(range(1, size), min(size - 1, r.choice([0, 0, 1, 2]))))
            for x, y in zip([0] + cut, cut + [size]):
                if r.random() < .75 or y - x > 12: items.append((a, x, y))
                else: items += [("%s[%d]" % (a, k), None, None) for k in range(x, y)]
        else: items.append((n, None, None))
    r.shuffle(items)
    types = dict(map(tuple, p["sigs"]))
    for nm, x, y in items:
        nxt += r.choice([0, 0, 0, 1, 3])
        if x is None:
            same = [c for n, c in col.items() if types.get(n) == types.get(nm) and "[" not in n]
            c = r.choice(same) if same and r.random() < .1 and nm in types else nxt
            if c == nxt: nxt += 1
            col[nm] = c
            if r.random() < .06: lines.append("%s:%d" % (nm, r.randrange(40)))
            lines.append("%s:%d" % (nm, c))
        else:
            for k in range(x, y): col["%s[%d]" % (nm, k)] = nxt + k - x
            lines.append("%s[%d..%d]:%d" % (nm, x, y - 1, nxt))
            nxt += y - x
        if r.random() < .1: lines.append("other%d:%d" % (nxt, r.randrange(60)))
    return lines, col


def trace_text(p):
    """CSV text: each signal's value at its column, noise elsewhere."""
    width = max([c for c in p["col"].values()] + [0]) + 1
    at = {}
    for c, (n, t) in enumerate(p["sigs"]):
        if n in p["col"]: at[p["col"][n]] = c
    L = []
    if p["mode"] == "header":
        b = p["blank"]
        L.append("#" + b + ("," + b).join(p["cells"]))
        width = max(width, len(p["cells"]))
    for k, row in enumerate(p["rows"]):
        L.append(",".join((gen.fl(row[at[x]]) if p["sigs"][at[x]][1] == "float" else str(row[at[x]])) if x in at else str((p["junk"] + k * 7 + x) % 2) for x in range(width)))
    return "\n".join(L) + "\n"


def damage(p, text):
    """A broken binding file: None when this damage does not apply."""
    u = sorted(used(p))
    if not u: return None
    if p["mode"] == "header":
        head, rest = text.split("\n", 1)
        if p["bad"] == "empty": return "\n" + rest
        v = u[int(p["pick"] * len(u))]
        cells = [c for c in p["cells"] if c != v]
        if p["bad"] == "missing": return "#" + ",".join(cells) + "\n" + rest
        k = 1 + int(p["pick"] * (len(head) - 1))
        return head[:k] + "\n" + rest if not set(u) <= {c.strip() for c in head[1:k].split(",")} else None
    L = text.split("\n")[:-1]
    if p["bad"] == "empty": return ""
    v = u[int(p["pick"] * len(u))]
    if p["bad"] == "missing": return "".join(l + "\n" for l in L if l.split(":")[0] != v) if not any(".." in l and l.split("[")[0] == v.split("[")[0] for l in L) else None
    k = int(p["pick"] * len(L))
    if p["bad"] == "trailing": L[k] += "x3"
    elif p["bad"] == "noline": L[k] = L[k].replace(":", " ")
    elif p["bad"] == "word": L[k] = L[k].split(":")[0] + ":" + "ten"
    else:
        t = "\n".join(L)
        j = int(p["pick"] * len(t))
        t = t[:j]
        last = t.rsplit("\n", 1)[-1]
        return t if last and not re.search(r":\d+$", last) else None  # cut inside a name, or between name and number
    return "\n".join(L) + "\n"


def execute(p):
    o = Out()
    d = msim.scratch()
    fn = {k: os.path.join(d, k) for k in ("s.c2po", "s.map", "t.csv", "g.map", "g.csv", "o.bin")}
    for f in fn.values():
        if os.path.exists(f): os.unlink(f)
    text = spec_text(p)
    tr = trace_text(p)
    bind = tr if p["mode"] == "header" else "".join(x + "\n" for x in p.get("lines", []))
    if p["bad"]:
        bind = damage(p, bind)
        if bind is None:
            o.nontrivial = False; return o
    with open(fn["s.c2po"], "w") as f: f.write(text)
    if p["mode"] == "header": open(fn["t.csv"], "w").write(bind)
    elif p["mode"] == "map": open(fn["s.map"], "w").write(bind)
    s = c2.Session(d)
    show = "\n%s\n%s" % (text, bind[:1500])

    def do(*cmds):
        for c in cmds:
            so, se, bad = s.cmd(c)
            if bad:
                if "found constant formula" in se: raise msim.Skip()
                o.fail("refused:" + c.split()[0], "%s%s" % (se or so, show)); return False
        return True
    try:
        if not do(*(["enable_booleanizer"] if p["bz"] else []), "parse_c2po " + fn["s.c2po"]): return o
        if p["mode"] != "genmap":
            c = "parse_trace " + fn["t.csv"] if p["mode"] == "header" else "parse_map " + fn["s.map"]
            if p["bad"]:
                so, se, bad = s.cmd("type_check")
                so, se, bad = s.cmd(c)
                if bad and ("unexpected error" in se or "Traceback" in se): o.fail("internal-error", se + show)
                if not bad:
                    for c in ("desugar", "multi_operators_to_binary", "remove_extended_operators", "assemble --no-print " + fn["o.bin"]): so, se, bad = s.cmd(c)
                    if not bad: o.fail("broken-binding-accepted", p["bad"] + show)
                o.stats["fault:" + p["mode"] + "_" + p["bad"]] += 1
                o.sig = h16([p["bad"], text, bind])
                return o
            if not do(c): return o
        if not do("type_check", "desugar"): return o
        if p["mode"] == "genmap":
            if not used(p):  # no signal to map
                o.nontrivial = False; return o
            if not do("generate_map --output " + fn["g.map"]): return o
            got = {}
            for l in open(fn["g.map"]).read().splitlines():
                n, k = l.rsplit(":", 1)
                if n in got: return o.fail("map-repeats", n + show)
                got[n] = int(k)
            if set(p["col"]) - set(got): return o.fail("map-lacks", "%s%s" % (sorted(set(p["col"]) - set(got))[:5], show))
            if len({got[n] for n in p["col"]}) < len(p["col"]): return o.fail("map-overlaps", "%s%s" % (got, show))
            if any(got[n] != k for n, k in p["col"].items()): return o.fail("map-order", "not in the order of declaration: %s%s" % (got, show))
            if p["again"]:
                s = c2.Session(d)
                if not do(*(["enable_booleanizer"] if p["bz"] else []), "parse_c2po " + fn["s.c2po"], "parse_map " + fn["g.map"], "type_check", "desugar"): return o
        o.stats["bound_by:" + p["mode"]] += 1
        rows = p["rows"]
        if p["gtrace"]:
            g = p["gtrace"]
            c = "generate_trace --seed %d %s --output %s -- %d %s %s" % (g["seed"], "--float-precision %d" % g["prec"] if g["prec"] is not None else "", fn["g.csv"], g["n"], g["lo"], g["hi"])
            if not do(c): return o
            tr = open(fn["g.csv"]).read()
            if not do(c): return o
            if open(fn["g.csv"]).read() != tr: return o.fail("trace-not-repeatable", c + show)
            rows = read_trace(p, tr, o, show)
            if rows is None: return o
            o.stats["generated_trace"] += 1
        o2 = p["opts"]
        if not do(*((["optimize_rewrites"] if o2["rewrite"] else []) + ["remove_extended_operators"] + (["optimize_cse"] if o2["cse"] else [])),
                  "multi_operators_to_binary", "remove_extended_operators", "assemble --no-print " + fn["o.bin"]): return o
    except msim.Skip:
        o.nontrivial = False; return o
    b = open(fn["o.bin"], "rb").read()
    F = [[l, sugar.plain(f)] for l, f in msim.formulas(p)]
    R = ref.Ref(rows, len(rows) + 1)
    try: vals = [R.val(f) for _, f in F]
    except ref.Undefined:
        o.nontrivial = False; o.stats["skipped_undefined_arithmetic"] += 1
        return o
    run = msim.driver(msim.pick(b)).run(["file s.bin " + b.hex(), "file t.csv " + tr.encode().hex(), "arg s.bin", "arg t.csv", "cli"])
    o.stats["sim:trace_rows"] += len(rows)
    if run.fault: return o.fail("monitor-" + run.fault[0], run.fault[1])
    if run.rc != 0: return o.fail("exit-status", "exit %d%s\n%s" % (run.rc, show, tr[:500]))
    evs = r03.parse_out(run.out, len(F), o)
    if evs is None: return o
    msim.judge(F, vals, len(rows), evs, o, late=False)
    if o.viol: o.viol = (o.viol[0], o.viol[1] + show + "\n" + tr[:600])
    o.stats["array_inputs"] += bool(p["arrays"])
    o.sig = h16([text, bind, run.out.hex()])
    o.nontrivial = len(evs) > 0
    return o


def read_trace(p, tr, o, show):
    """Rows of the specification's signals in a generated trace, by the mapping's columns; checks number, kind and range."""
    g = p["gtrace"]
    L = tr.split("\n")
    if L and L[-1] == "": L.pop()
    head = [x.strip() for x in L[0].lstrip("#").split(",")] if L and L[0].startswith("#") else o.fail("trace-header", tr[:200]) and None
    if head is None: return None
    if len(L) - 1 != g["n"]: o.fail("trace-length", "%d rows, asked for %d%s" % (len(L) - 1, g["n"], show)); return None
    u = used(p)
    rows = []
    for l in L[1:]:
        cells = l.split(",")
        row = []
        for n, t in p["sigs"]:
            k = p["col"].get(n)
            if k is None or k >= len(cells):
                if n in u: o.fail("trace-lacks-column", "%s%s\n%s" % (n, show, tr[:500])); return None
                row.append(0); continue
            c = cells[k]
            if n in u and not any(head[k] == m for m, kk in p["col"].items() if kk == k):
                o.fail("trace-header-mismatch", "column %d is headed %s%s" % (k, head[k], show)); return None
            try: v = float(c) if t == "float" else int(c)
            except ValueError:
                o.fail("trace-value-kind", "%s of type %s: %r%s" % (n, t, c, show)); return None
            slack = 10.0 ** -(g["prec"] or 5) if t == "float" else 1
            if n in u and not (v in (0, 1) if t == "bool" else g["lo"] - slack <= v <= g["hi"] + slack):
                o.fail("trace-value-range", "%s = %r outside [%s, %s]%s" % (n, c, g["lo"], g["hi"], show)); return None
            row.append(v)
        rows.append(row)
    return rows


def shrink(p):
    for key in ("ft", "pt"):
        for i in range(len(p[key])):
            if len(p["ft"]) + len(p["pt"]) > 1 and not p["bad"]: yield dict(p, **{key: p[key][:i] + p[key][i + 1:]})
            if not sugar.has_sug(p[key][i][1]) and not p["bad"]:
                for h in msim.sub_formulas(p[key][i][1]): yield dict(p, **{key: p[key][:i] + [[p[key][i][0], h]] + p[key][i + 1:]})
    if p["gtrace"]: yield dict(p, gtrace=None)
    if p["gtrace"] and p["gtrace"]["n"] > 1: yield dict(p, gtrace=dict(p["gtrace"], n=1))
    yield from msim.shrink_rows(p)
    yield from msim.shrink_opts(p)
    if p["mode"] == "map" and not p["bad"]:
        for i, l in enumerate(p["lines"]):
            if l.startswith("other"): yield dict(p, lines=p["lines"][:i] + p["lines"][i + 1:])
