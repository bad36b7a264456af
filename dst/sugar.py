"""Surface forms of specifications. A node ["sug", text, f] is printed as `text` and means f (f may contain further such nodes)."""
import re
from . import gen

PREC = {"->": 1, "<->": 1, "^l": 1, "||": 2, "&&": 3, "U": 4, "R": 4, "S": 4, "T": 4, "G": 5, "F": 5, "H": 5, "O": 5,
        "|": 6, "^": 7, "&": 8, "==": 9, "!=": 9, ">": 10, "<": 10, ">=": 10, "<=": 10, "<<": 11, ">>": 11, "+": 12, "-": 12,
        "*": 13, "/": 13, "%": 13, "pow": 13, "!": 14, "~": 14}
UNI = {"&&": "∧", "||": "∨", "!": "¬", "->": "→", "<->": "↔", "!=": "≠", ">=": "≥", "<=": "≤", "*": "•", "/": "÷"}


def plain(f):
    if f[0] == "sug": return plain(f[2])
    return [plain(g) if isinstance(g, list) else g for g in f]


def has_sug(f):
    return f[0] == "sug" or any(isinstance(g, list) and has_sug(g) for g in f[1:])


class Printer:
    """style: parens 'full' | 'min', unicode tokens or not."""

    def __init__(self, sigs, style=None):
        self.sigs, self.min, self.uni = sigs, bool(style and style.get("min")), bool(style and style.get("uni"))

    def op(self, k):
        return UNI.get(k, k) if self.uni else k

    def wrap(self, f, lim, strict, num):
        s, p = (self.n if num else self.f)(f)
        if p is None or (self.min and (p > lim or (p == lim and not strict))): return s
        return "(" + s + ")"

    def bin(self, k, key, a, b, num=False, fold=False):
        p = PREC[key]
        return "%s %s %s" % (self.wrap(a, p, False, num), self.op(k), self.wrap(b, p, True, num)), p

    def n(self, e):
        k = e[0]
        if k in ("i", "f"): return self.sigs[e[1]][0], None
        if k == "ic": return str(e[1]), None
        if k == "fc": return gen.fl(e[1]), None
        if k == "tau": return "TAU", None
        if k == "sug": return e[1], None
        if k == "prev": return "prev(%s, %s)" % (self.n(e[1])[0], self.n(e[2])[0]), None
        if k in ("abs", "sqrt"): return "%s(%s)" % (k, self.n(e[1])[0]), None
        if k == "neg": return "(-%s)" % ("(" + self.n(e[1])[0] + ")" if e[1][0] != "i" else self.n(e[1])[0]), None
        if k == "~": return "~" + self.wrap(e[1], 14, False, True), 14
        return self.bin(k, k, e[1], e[2], True)

    def f(self, f):
        k = f[0]
        if k == "a": return self.sigs[f[1]][0], None
        if k == "tt": return "true", None
        if k == "ff": return "false", None
        if k == "sug": return f[1], None
        if k == "cmp": return self.bin(f[1], f[1], f[2], f[3], True)
        if k == "!": return self.op("!") + self.wrap(f[1], 14, False, False), 14
        if k in ("&", "|"):
            kk = "&&" if k == "&" else "||"
            p = PREC[kk]
            s = [self.wrap(f[1], p, False, False)] + [self.wrap(g, p, True, False) for g in f[2:]]
            return (" %s " % self.op(kk)).join(s), p
        if k in ("->", "<->"): return self.bin(k, k, f[1], f[2])
        if k == "^": return self.bin("xor", "^l", f[1], f[2])
        iv = "[%d,%d]" % (f[1], f[2])
        if k in "GFHO": return "%s%s %s" % (k, iv, self.wrap(f[3], 5, False, False)), 5
        p = PREC[k]
        return "%s %s%s %s" % (self.wrap(f[3], p, False, False), k, iv, self.wrap(f[4], p, True, False)), p

    def text(self, f):
        return self.f(f)[0]


class Sugar:
    """Rewrites the formulas of a plan into surface forms; collects the declarations they need."""

    def __init__(self, r, plan, p=.25, counts=True):
        self.r, self.plan, self.sigs, self.p, self.counts = r, plan, plan["sigs"], p, counts
        self.defs, self.structs, self.enums = [], [], []
        self.k = 0
        self.named = {}
        self.mission = None
        self.pr = Printer(self.sigs, plan.get("style"))
        self.arr = {}
        self.instances = []  # (access text, meaning): members of structs and arrays
        if r.random() < .5: self.make_structs()
        if r.random() < .5: self.make_arrays()

    def fresh(self, s):
        self.k += 1
        return "%s_%d" % (s, self.k)

    def leaf(self, t):
        cols = [i for i, (n, tt) in enumerate(self.sigs) if tt == t and n not in (self.plan.get("decl") or {})]
        return [{"bool": "a", "int": "i", "float": "f"}[t], self.r.choice(cols)] if cols else None

    def val(self, t):
        """A small expression of type t."""
        r = self.r
        l = self.leaf(t)
        if l is None: return {"bool": None, "int": ["ic", r.randrange(-3, 9)], "float": ["fc", 1.5]}[t] if self.plan["bz"] else None
        if t == "bool" and r.random() < .3:
            m = self.leaf("bool")
            return r.choice([["&", l, m], ["|", l, m], ["!", l]])
        if t == "int" and r.random() < .3: return ["+", l, ["ic", r.randrange(0, 4)]]
        return l

    def make_structs(self):
        r = self.r
        types = ["bool"] + (["int", "float"] if self.plan["bz"] else [])
        prev = None
        for _ in range(r.choice([1, 1, 2])):
            mem = []
            for j in range(r.randrange(1, 4)):
                t = r.choice(types)
                if t == "bool" and self.leaf("bool") is None: continue
                mem.append(["m%d" % j, t])
            nested = prev is not None and r.random() < .6
            if nested: mem.append(["inner", prev[0]])
            if not mem: return
            name, nest = self.fresh("St"), prev
            self.structs.append("%s: { %s };" % (name, " ".join("%s: %s;" % (a, t) for a, t in mem)))
            for _ in range(r.choice([1, 2, 2])):
                args, acc = [], []
                for a, t in mem:
                    if a == "inner":
                        args.append(nest[2])
                        acc += [(a + "." + x, m) for x, m in nest[3]]
                    else:
                        v = self.val(t)
                        args.append(self.num_or(v, t))
                        acc.append((a, v))
                inst = self.fresh("st")
                self.defs.append([inst, "%s(%s)" % (name, ", ".join(args))])
                self.instances += [(inst + "." + x, m) for x, m in acc]
                prev = (name, mem, inst, acc)
                self.insts = getattr(self, "insts", [])
                self.insts.append((name, inst, acc))

    def num_or(self, v, t):
        return self.pr.text(v) if t == "bool" else self.pr.n(v)[0]

    def make_arrays(self):
        r = self.r
        types = ["bool"] + (["int"] if self.plan["bz"] else [])
        t = r.choice(types)
        els = [self.val(t) for _ in range(r.randrange(1, 5))]
        if None in els: return
        name = self.fresh("ar")
        self.defs.append([name, "{%s}" % ", ".join(self.num_or(v, t) for v in els)])
        self.arr[name] = (t, els)
        for i, v in enumerate(els): self.instances.append(("%s[%d]" % (name, i), v))

    def sub(self, f, var, v):
        if f == var: return v
        return [self.sub(g, var, v) if isinstance(g, list) else g for g in f]

    def aggregate(self):
        """A set aggregation over a small set, as a formula of its own."""
        r, X = self.r, ["sug", "x_", ["x_"]]
        t = r.choice(["bool", "int"]) if self.plan["bz"] else "bool"
        arrs = [n for n, (tt, e) in self.arr.items() if tt == t]
        acc = None
        if arrs and r.random() < .5:
            n = r.choice(arrs)
            els = self.arr[n][1]
            st = n
            if len(els) > 1 and r.random() < .3:
                a = r.randrange(0, len(els)); b = r.randrange(a, len(els))
                st, els = "%s[%d..%d]" % (n, a, b), els[a:b + 1]
        else:
            els = [self.val(t) for _ in range(r.randrange(1, 4))]
            if None in els: return None
            st = "{%s}" % ", ".join(self.num_or(v, t) for v in els)
        atom = X if t == "bool" else ["cmp", r.choice(["==", "!=", ">", "<", ">=", "<="]), X, ["ic", r.randrange(-3, 4)]]
        cnt = self.plan["bz"] and self.counts and r.random() < .35
        if cnt:
            # counted bodies are single comparisons or plain signals (logical operators cannot be counted)
            if t == "bool" and any(v[0] != "a" for v in els): return None
            kind = r.choice(["exactly", "atleast", "atmost"])
            n = r.randrange(0, len(els) + 2)
            return ["sug", "for%s(x_ : %s, %d)(%s)" % (kind, st, n, self.pr.text(atom)),
                    ["cnt", kind, n] + [self.sub(atom, X, v) for v in els]]
        body = atom
        past = self.past
        if r.random() < .4:
            lb, ub = gen.interval(r)
            body = [r.choice("HO" if past else "GF"), lb, ub, body]
        if r.random() < .3:
            l = self.leaf("bool")
            if l: body = [r.choice(["->", "<->"]), body, l]
        if r.random() < .25:
            l = self.leaf("bool")
            lb, ub = gen.interval(r)
            if l: body = [r.choice("ST" if past else "UR"), lb, ub, l, body]
        each = r.random() < .5
        ins = [self.sub(body, X, v) for v in els]
        return ["sug", "%s(x_ : %s)(%s)" % ("foreach" if each else "forsome", st, self.pr.text(body)),
                ["&" if each else "|"] + ins if len(ins) > 1 else ins[0]]

    def num(self, e):
        r = self.r
        if e[0] in ("i", "f") and r.random() < self.p:
            c = [x for x, m in self.instances if m == e]
            if c: return ["sug", r.choice(c), e]
        return [self.num(g) if isinstance(g, list) else g for g in e]

    def form(self, f, top=False):
        r = self.r
        if f[0] in ("a", "tt", "ff"):
            c = [x for x, m in self.instances if m == f]
            if c and r.random() < 2 * self.p: return ["sug", r.choice(c), f]
            if f[0] == "a" and self.plan["bz"] and r.random() < self.p / 8:
                self.plan["needs_rewrite"] = True
                t = ["true", self.sigs[f[1]][0]]
                r.shuffle(t)
                return ["sug", "(%s == %s)" % tuple(t), f]
            if r.random() < self.p / 3:
                a = self.aggregate()
                if a: return a
            return f
        if f[0] == "cmp":
            f = f[:2] + [self.num(f[2]), self.num(f[3])]
        else:
            f = [self.form(g) if isinstance(g, list) else g for g in f]
        if not top and r.random() < self.p:
            key = repr(f)
            if key in self.named and self.named[key][1] == self.past:
                return ["sug", self.named[key][0], f]
            name = self.fresh("d")
            self.defs.append([name, self.pr.text(f)])
            self.named[key] = (name, self.past)
            return ["sug", name, f]
        if f[0] in "GFHOURST" and r.random() < self.p:
            iv = None
            if self.mission is None and r.random() < .5: self.mission = f[2]
            if f[2] == self.mission: iv = "[%s,M]" % f[1] if r.random() < .7 or f[1] else "[M]"
            elif f[1] == 0: iv = "[%d]" % f[2]
            if iv:
                a = self.pr.wrap(f[3], 99, True, False)
                if f[0] in "GFHO": return ["sug", "(%s%s %s)" % (f[0], iv, a), f]
                return ["sug", "(%s %s%s %s)" % (a, f[0], iv, self.pr.wrap(f[4], 99, True, False)), f]
        if f[0] == "&" and len(f) == 3 and f[1][0] == f[2][0] == "cmp" and f[1][1] == f[2][1] and r.random() < .5 and not has_sug(f):
            l, m = f[1], f[2]
            if all(self.ntype(x) == "int" for x in (l[2], m[2])):
                return ["sug", "({%s, %s} %s {%s, %s})" % (self.pr.n(l[2])[0], self.pr.n(m[2])[0], l[1], self.pr.n(l[3])[0], self.pr.n(m[3])[0]), f]
        return f

    def ntype(self, e):
        """Type of a bare signal (anything else: None)."""
        return "int" if e[0] == "i" else None

    def enums_for(self):
        """Add signals of enumeration types; they are only compared with members (or each other)."""
        r, plan = self.r, self.plan
        self.ecmp = []
        if not plan["bz"] or r.random() < .6: return
        for _ in range(r.choice([1, 1, 2])):
            name = self.fresh("En")
            vals, mem, nxt = {}, [], 0
            for j in range(r.randrange(1, 5)):
                m = self.fresh("MEM")
                if r.random() < .4:
                    v = r.randrange(0, 9)
                    mem.append("%s: %d" % (m, v))
                else:
                    v, nxt = nxt, nxt + 1
                    mem.append(m)
                vals[m] = v
            self.enums.append("%s: { %s };" % (name, ", ".join(mem)))
            n = self.fresh("e")
            plan["decl"][n] = name
            c = len(self.sigs)
            self.sigs.append([n, "int"])
            for m, v in vals.items():
                for op in ("==", "!=", "<", ">="):
                    self.ecmp.append(["cmp", op, ["i", c], ["sug", m, ["ic", v]]] if r.random() < .8 else ["cmp", op, ["sug", m, ["ic", v]], ["i", c]])

    def run(self):
        r, plan = self.r, self.plan
        plan["decl"] = {}
        self.enums_for()
        for key in ("ft", "pt"):
            self.past = key == "pt"
            out = []
            for lab, f in plan[key]:
                g = self.form(f, top=True)
                if r.random() < .3:
                    a = self.aggregate()
                    if a: g = [r.choice(["&", "|"]), g, a]
                if self.ecmp and r.random() < .6:
                    c = r.choice(self.ecmp)
                    if r.random() < .5: c = [r.choice("HO" if self.past else "GF"), *gen.interval(r), c]
                    g = [r.choice(["&", "|", "<->"]), g, c]
                if out and r.random() < .3:
                    l2, f2 = r.choice(out)
                    g = [r.choice(["&", "|", "->"]), g, ["sug", l2, f2]]
                out.append([lab, g])
            plan[key] = out
        plan["defs"], plan["structs"], plan["enums"], plan["mission"] = self.defs, self.structs, self.enums, self.mission
        return plan


def spec_text(plan):
    """plan: sigs, ft, pt, optional structs, enums, defs, style, split (list of section breaks)."""
    sigs, style = plan["sigs"], plan.get("style") or {}
    pr = Printer(sigs, style)
    nl = style.get("nl", "\n")
    S = []
    if plan.get("structs"): S.append(["STRUCT"] + plan["structs"])
    if plan.get("enums"): S.append(["ENUM"] + plan["enums"])
    by = {}
    for n, t in sigs: by.setdefault((plan.get("decl") or {}).get(n, t), []).append(n)
    decl = ["%s: %s;" % (", ".join(ns), t) for t, ns in by.items()]
    if style.get("split"):
        S += [["INPUT", d] for d in decl]
    else:
        S.append(["INPUT"] + decl)
    dl = ["%s := %s;" % (n, t) for n, t in plan.get("defs", [])]
    if dl: S += [["DEFINE", d] for d in dl] if style.get("split") else [["DEFINE"] + dl]
    for kw, key in (("FTSPEC", "ft"), ("PTSPEC", "pt")):
        fs = ["%s%s;" % ("%s: " % lab if lab else "", pr.text(f)) for lab, f in plan.get(key, [])]
        if fs: S += [[kw, x] for x in fs] if style.get("split") else [[kw] + fs]
    out = []
    for s in S:
        out.append(s[0])
        for x in s[1:]:
            if style.get("comments"): out.append("  -- note: %s" % x[:20].replace(";", " "))
            out.append("  " + x)
    return nl.join(out) + nl


def shrink_sug(plan):
    def rec(f):
        if f[0] == "sug":
            yield f[2]
            for g in rec(f[2]): yield g
            return
        for i, g in enumerate(f):
            if isinstance(g, list):
                for h in rec(g): yield f[:i] + [h] + f[i + 1:]
    for key in ("ft", "pt"):
        for i, (lab, f) in enumerate(plan[key]):
            if has_sug(f):
                yield dict(plan, **{key: plan[key][:i] + [[lab, plain(f)]] + plan[key][i + 1:]})
                for h in rec(f):
                    yield dict(plan, **{key: plan[key][:i] + [[lab, h]] + plan[key][i + 1:]})
    for key in ("defs", "structs"):
        for i in range(len(plan.get(key, []))):
            x = plan[key][i]
            name = x[0] if key == "defs" else x.split(":")[0]
            if re.search(r"\b%s\b" % re.escape(name), spec_text(dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]}))): continue
            yield dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})
    if plan.get("style"):
        yield dict(plan, style={})
        for k in plan["style"]: yield dict(plan, style={a: b for a, b in plan["style"].items() if a != k})
