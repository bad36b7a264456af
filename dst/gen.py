"""Seeded generators: specification ASTs, their C2PO text, and sensor traces."""
import random, hashlib


def rng_for(seed, prop, i):
    return random.Random(int.from_bytes(hashlib.sha256(("%s/%s/%s" % (seed, prop, i)).encode()).digest()[:8], "big"))


def interval(r, big=False):
    c = r.random()
    if c < 0.15:
        lb = 0; ub = r.choice([0, 1, 2, 3])
    elif c < 0.25:
        lb = ub = r.choice([0, 1, 2, 4, 7, 11])
    elif c < 0.75:
        lb = r.randrange(0, 5); ub = lb + r.randrange(0, 6)
    elif c < 0.9 or not big:
        lb = r.randrange(0, 9); ub = lb + r.randrange(0, 12)
    else:
        lb = r.randrange(0, 30); ub = lb + r.randrange(0, 60)
    return lb, ub


def num_expr(r, sigs, want, depth, feats):
    """Arithmetic expression of type want ('int'/'float')."""
    cols = [i for i, (n, t) in enumerate(sigs) if t == want]
    tag = "i" if want == "int" else "f"
    if depth <= 0 or r.random() < 0.35:
        if want == "int" and feats.get("tau") and r.random() < 0.1:
            return ["tau"]
        if cols and r.random() < 0.75:
            return [tag, r.choice(cols)]
        return ["ic", const_int(r)] if want == "int" else ["fc", grid(r) if r.random() < .5 else round(r.uniform(-4, 4), 2)]
    c = r.random()
    if c < 0.6:
        op = r.choice(["+", "-", "*"])
    elif c < 0.7 and feats.get("prev"):
        init = ["ic", r.randrange(-3, 4)] if want == "int" else ["fc", float(r.randrange(-3, 4)) + 0.5]
        return ["prev", init, [tag, r.choice(cols)] if cols else num_expr(r, sigs, want, 0, feats)] if cols else num_expr(r, sigs, want, 0, feats)
    elif c < 0.8:
        return [r.choice(["neg", "abs"]), num_expr(r, sigs, want, depth - 1, feats)]
    elif want == "int" and c < 0.87:
        op = r.choice(["&", "|", "^"])
    elif c < 0.93:
        d = ["ic", r.choice([1, 2, 3, 5, -2])] if want == "int" else ["fc", r.choice([0.5, 2.0, -1.5])]
        if cols and feats.get("anydiv") and r.random() < .7: d = [tag, r.choice(cols)]
        return [r.choice(["/", "%"]) if want == "int" else "/", num_expr(r, sigs, want, depth - 1, feats), d]
    else:
        if r.random() < 0.5:
            return ["sqrt", ["abs", num_expr(r, sigs, want, depth - 1, feats)]] if want == "float" else ["abs", num_expr(r, sigs, want, depth - 1, feats)]
        return ["pow", num_expr(r, sigs, want, 0, feats), ["ic", r.choice([0, 1, 2, 3])] if want == "int" else ["fc", r.choice([1.0, 2.0, 3.0])]]
    return [op, num_expr(r, sigs, want, depth - 1, feats), num_expr(r, sigs, want, depth - 1, feats)]


def atom(r, sigs, feats):
    bools = [i for i, (n, t) in enumerate(sigs) if t == "bool"]
    nums = [t for n, t in sigs if t != "bool"]
    if bools and (not nums or not feats.get("bz") or r.random() < 0.5):
        return ["a", r.choice(bools)]
    t = r.choice(nums)
    return ["cmp", r.choice(["==", "!=", ">", "<", ">=", "<="]), num_expr(r, sigs, t, r.choice([0, 1, 1, 2]), feats),
            num_expr(r, sigs, t, r.choice([0, 0, 1]), feats)]


def near(r, lb, ub):
    """An interval related to [lb,ub]: contained, overlapping, adjacent, just apart."""
    c = r.randrange(6)
    if c == 0: return lb, ub
    if c == 1: a = r.randrange(lb, ub + 1); return a, r.randrange(a, ub + 1)
    if c == 2: a = max(0, lb - r.randrange(0, 3)); return a, ub + r.randrange(0, 3)
    if c == 3: a = ub + r.randrange(0, 4); return a, a + r.randrange(0, 4)
    if c == 4 and lb > 0: b = max(0, lb - r.randrange(0, 4)); a = max(0, b - r.randrange(0, 4)); return a, b
    a = max(0, lb + r.randrange(-2, 3)); return a, a + max(0, ub - lb + r.randrange(-1, 2))


def bait(r, past, x, y, z):
    """Shapes that optimisation, queue sizing and aggregation treat specially. x, y, z: operand makers."""
    iv = interval(r)
    jv = near(r, *iv)
    k = r.choice([3, 5, 8, 12])
    if past:
        one, two = ["H", "O"], ["S", "T"]
        slow = lambda f: [r.choice(one), k, k, f]
    else:
        one, two = ["G", "F"], ["U", "R"]
        slow = lambda f: [r.choice(one), k, k, f]
    op = r.choice(["&", "|"])
    c = r.randrange(10)
    if c <= 2:  # two related temporal operators
        o1 = r.choice(one)
        o2 = o1 if r.random() < .8 else r.choice(one)
        p = x()
        q = p if r.random() < .7 else y()
        return [op, [o1, *iv, p], [o2, *jv, q]]
    if c == 3:
        o1 = r.choice(two)
        q = y()
        return [op, [o1, iv[0], iv[1], x(), q], [o1, iv[0], max(iv[0], jv[1]), z(), q]]
    if c == 4:
        return [r.choice(one), *iv, [r.choice(one), *jv, x()]]
    if c == 5:
        return ["!", [r.choice(one), *iv, ["!", x()]]]
    if c == 6:  # operands of very different delay
        u, v = (slow(x()), y()) if r.random() < .5 else (x(), slow(y()))
        w = r.choice([0, 0, 1, 2])
        lo = r.choice([0, 0, 1, 3])
        f = [r.choice(two), lo, lo + w, u, v]
        return [op, f, slow(z())] if r.random() < .7 else f
    if c == 7:  # a fast formula shared by a fast and a slow user
        p = x()
        return [op, p, ["->", slow(y()), p]] if r.random() < .5 else [op, slow(p), [r.choice(["->", "<->", "^"]), p, y()]]
    if c == 8:
        return [r.choice(["<->", "^", "->"]), slow(x()), y()]
    return [r.choice(two), *iv, [r.choice(two), *jv, x(), y()], z()]


def formula(r, sigs, past, depth, feats, pool=None):
    if depth > 0 and r.random() < feats.get("bait", 0):
        sub = lambda: formula(r, sigs, past, r.choice([0, 0, 0, 1]), feats, pool)
        f = bait(r, past, sub, sub, sub)
        if pool is not None: pool.append(f)
        return f
    if pool and r.random() < feats.get("share", 0.15):
        return r.choice(pool)
    if depth <= 0:
        f = atom(r, sigs, feats)
        if r.random() < 0.04 and feats.get("consts"):
            f = [r.choice(["tt", "ff"])]
    else:
        sub = lambda d=1: formula(r, sigs, past, depth - d - (r.random() < 0.25), feats, pool)
        c = r.random()
        if c < 0.12: f = ["!", sub()]
        elif c < 0.24: f = ["&"] + [sub() for _ in range(r.choice([2, 2, 2, 3, 4]))]
        elif c < 0.36: f = ["|"] + [sub() for _ in range(r.choice([2, 2, 2, 3, 4]))]
        elif c < 0.42: f = ["->", sub(), sub()]
        elif c < 0.47: f = ["<->", sub(), sub()]
        elif c < 0.50: f = ["^", sub(), sub()]
        else:
            lb, ub = interval(r, feats.get("big"))
            if past:
                op = r.choice(["H", "O", "S", "S", "T", "T"])
            else:
                op = r.choice(["G", "F", "U", "U", "R", "R"])
            f = [op, lb, ub, sub()] + ([sub()] if op in "URST" else [])
    if pool is not None:
        pool.append(f)
    return f


def has_const(f):
    return f[0] in ("tt", "ff") or any(isinstance(g, list) and has_const(g) for g in f[1:])


def num_text(e, sigs):
    k = e[0]
    if k in ("i", "f"): return sigs[e[1]][0]
    if k == "sug": return e[1]
    if k == "ic": return str(e[1])
    if k == "fc": return fl(e[1])
    if k == "tau": return "TAU"
    if k == "prev": return "prev(%s, %s)" % (num_text(e[1], sigs), num_text(e[2], sigs))
    if k in ("abs", "sqrt"): return "%s(%s)" % (k, num_text(e[1], sigs))
    if k == "neg": return "(-(%s))" % num_text(e[1], sigs)
    if k == "~": return "(~(%s))" % num_text(e[1], sigs)
    return "((%s) %s (%s))" % (num_text(e[1], sigs), k, num_text(e[2], sigs))


def fl(v):
    s = repr(float(v))
    return s if "." in s and "e" not in s else "%.12f" % v


def text(f, sigs):
    """C2PO concrete syntax, fully parenthesised."""
    k = f[0]
    if k == "a": return sigs[f[1]][0]
    if k == "tt": return "true"
    if k == "ff": return "false"
    if k == "cmp": return "((%s) %s (%s))" % (num_text(f[2], sigs), f[1], num_text(f[3], sigs))
    if k == "!": return "!(%s)" % text(f[1], sigs)
    if k in ("&", "|"): return "(" + (" && " if k == "&" else " || ").join("(%s)" % text(g, sigs) for g in f[1:]) + ")"
    if k in ("->", "<->"): return "((%s) %s (%s))" % (text(f[1], sigs), k, text(f[2], sigs))
    if k == "^": return "((%s) xor (%s))" % (text(f[1], sigs), text(f[2], sigs))
    iv = "[%d,%d]" % (f[1], f[2])
    if k in "GFHO": return "%s%s(%s)" % (k, iv, text(f[3], sigs))
    return "((%s) %s%s (%s))" % (text(f[3], sigs), k, iv, text(f[4], sigs))


def spec_text(plan):
    sigs = plan["sigs"]
    by = {}
    for n, t in sigs:
        by.setdefault(t, []).append(n)
    out = ["INPUT"] + ["  %s: %s;" % (", ".join(ns), t) for t, ns in by.items()]
    for kw, key in (("FTSPEC", "ft"), ("PTSPEC", "pt")):
        if plan.get(key):
            out.append(kw)
            for lab, f in plan[key]:
                out.append("  %s: %s;" % (lab, text(f, sigs)))
    return "\n".join(out) + "\n"


def signals(r, bz, maxn=5):
    n = r.randrange(1, maxn + 1)
    sigs = []
    for i in range(n):
        t = r.choice(["bool", "bool", "int", "float"]) if bz else "bool"
        sigs.append(["%s%d" % ({"bool": "b", "int": "i", "float": "f"}[t], i), t])
    return sigs


def const_int(r):
    c = r.random()
    if c < .8: return r.randrange(-6, 7)
    if c < .95: return r.randrange(-20, 21)
    return r.choice([255, 256, 1000, -1000, 32767, 65536, 2**31 - 1, -2**31 + 1])


def grid(r):
    """Floats that often coincide, exactly or up to the comparison tolerance."""
    v = r.randrange(-6, 7) * .5
    if r.random() < .4: v += r.choice([4e-6, -4e-6, 2e-5, -2e-5])
    return v


def value(r, t, prev=None, stick=0.5):
    if prev is not None and r.random() < stick:
        return prev
    if t == "bool": return int(r.random() < 0.5)
    if t == "int":
        c = r.random()
        return r.randrange(-5, 6) if c < .75 else r.randrange(-20, 21) if c < .95 else r.choice([255, 1000, -1000, 32767])
    if r.random() < .3: return grid(r) + 0.0
    return round(r.uniform(-5, 5), r.choice([0, 1, 2])) + 0.0


def rows(r, sigs, n, stick=None):
    stick = r.choice([0.0, 0.3, 0.6, 0.85, 0.95]) if stick is None else stick
    out, prev = [], [None] * len(sigs)
    bias = [r.choice([None, None, 0.1, 0.9]) for _ in sigs]
    for _ in range(n):
        cur = []
        for (nm, t), p, b in zip(sigs, prev, bias):
            v = value(r, t, p, stick)
            if t == "bool" and b is not None and r.random() < 0.7:
                v = int(r.random() < b)
            cur.append(v)
        out.append(cur)
        prev = cur
    return out


def spec(r, bz=None, kinds=None, feats=None, maxf=3, depth=None):
    bz = r.random() < 0.45 if bz is None else bz
    feats = dict(feats or {})
    feats.setdefault("bz", bz)
    feats.setdefault("prev", r.random() < 0.4)
    feats.setdefault("tau", False)
    feats.setdefault("consts", r.random() < 0.3)
    feats.setdefault("share", r.choice([0.0, 0.1, 0.3]))
    feats.setdefault("big", r.random() < 0.2)
    feats.setdefault("bait", r.choice([0, 0, .3, .7]))
    sigs = signals(r, bz)
    kinds = kinds or r.choice(["ft", "pt", "both"])
    plan = {"sigs": sigs, "bz": bz, "ft": [], "pt": []}
    k = 0
    for key in ("ft", "pt"):
        if kinds in (key, "both"):
            pool = []
            for _ in range(r.randrange(1, maxf + 1)):
                f = formula(r, sigs, key == "pt", depth if depth is not None else r.choice([1, 2, 2, 3, 3, 4]), feats, pool)
                if f[0] in ("tt", "ff"):
                    f = atom(r, sigs, feats)
                plan[key].append(["p%d" % k, f])
                k += 1
    return plan
