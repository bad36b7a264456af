"""A small egglog: reads the program that the compiler wrote, walks along its rewrites at random, prints a term."""
import random


class Reject(Exception):
    """The program is not one that egglog takes."""


def read(text):
    out, stack, i, n = [], [], 0, len(text)
    cur = out
    while i < n:
        c = text[i]
        if c in " \t\r\n": i += 1
        elif c == ";":
            while i < n and text[i] != "\n": i += 1
        elif c == "(": stack.append(cur); new = []; cur.append(new); cur = new; i += 1
        elif c == ")":
            if not stack: raise Reject("unbalanced )")
            cur = stack.pop(); i += 1
        elif c == '"':
            j = text.find('"', i + 1)
            if j < 0: raise Reject("unterminated string")
            cur.append(text[i:j + 1]); i = j + 1
        else:
            j = i
            while j < n and text[j] not in ' \t\r\n();"': j += 1
            w = text[i:j]
            cur.append(int(w) if w.lstrip("-").isdigit() else w); i = j
    if stack: raise Reject("unbalanced (")
    return out


def show(t):
    return "(%s)" % " ".join(show(x) for x in t) if isinstance(t, (list, tuple)) else str(t)


PRIM = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "min": min, "max": max}
TEST = {"<=": lambda a, b: a <= b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, ">": lambda a, b: a > b, "!=": lambda a, b: a != b}
BASE = {"i64", "String", "bool"}


class Egg:
    def __init__(self, text):
        self.sorts, self.con, self.rulesets, self.rules, self.lets, self.runs, self.target, self.fun = set(BASE), {}, set(), [], {}, [], None, {}
        for f in read(text): self.top(f)

    def datatype(self, f):
        self.sorts.add(f[1])
        for c in f[2:]: self.constructor(c[0], c[1:], f[1])

    def constructor(self, name, args, out):
        if name in self.con: raise Reject("%s already bound" % name)
        self.con[name] = (list(args), out)

    def top(self, f):
        if not isinstance(f, list) or not f: raise Reject("bad command %r" % (f,))
        k = f[0]
        if k == "sort": self.sorts.add(f[1])
        elif k == "constructor": self.constructor(f[1], f[2], f[3])
        elif k == "datatype": self.datatype(f)
        elif k == "with-dynamic-cost":
            for g in f[1:]: self.top(g)
        elif k == "ruleset": self.rulesets.add(f[1])
        elif k == "function": self.fun[f[1]] = (f[2], f[3])
        elif k == "rule": self.option(f[3:])
        elif k in ("rewrite", "birewrite"):
            opt = self.option(f[3:])
            when = opt.get(":when", [])
            dirs = [(f[1], f[2])] + ([(f[2], f[1])] if k == "birewrite" else [])
            for a, b in dirs:
                env = {}
                s = self.check(a, env, None, True)
                for w in when:
                    if w[0] == "=" and isinstance(w[1], str): env.setdefault(w[1], "i64")
                    for x in w[1:]: self.check(x, env, "i64", False)
                self.check(b, env, s, False)
                self.rules.append((opt.get(":ruleset", ""), a, b, when))
        elif k == "let":
            if f[1] in self.lets: raise Reject("%s already bound" % f[1])
            t = self.subst_lets(f[2])
            self.check(t, {}, "MLTL", False)
            self.lets[f[1]] = t
        elif k == "run-schedule":
            for g in f[1:]:
                if g[0] != "saturate" or g[1] not in self.rulesets: raise Reject("no ruleset %s" % g[1])
                self.runs.append(g[1])
        elif k == "extract":
            if f[1] not in self.lets: raise Reject("unbound %s" % f[1])
            self.target = self.lets[f[1]]
        else: raise Reject("unknown command %s" % k)

    def option(self, rest):
        o, i = {}, 0
        while i < len(rest):
            if rest[i] == ":subsume": o[":subsume"] = True; i += 1
            elif rest[i] in (":when", ":ruleset"): o[rest[i]] = rest[i + 1]; i += 2
            else: raise Reject("unknown option %s" % (rest[i],))
        if ":ruleset" in o and o[":ruleset"] not in self.rulesets: raise Reject("no ruleset %s" % o[":ruleset"])
        return o

    def subst_lets(self, t):
        if isinstance(t, list): return [t[0]] + [self.subst_lets(x) for x in t[1:]]
        if isinstance(t, str) and t.startswith("$"):
            if t not in self.lets: raise Reject("unbound %s" % t)
            return self.lets[t]
        return t

    def check(self, t, env, want, bind):
        if isinstance(t, int): s = "i64"
        elif isinstance(t, list):
            if t[0] in self.con:
                args, s = self.con[t[0]]
                if len(args) != len(t) - 1: raise Reject("%s takes %d arguments: %s" % (t[0], len(args), show(t)))
                for a, x in zip(args, t[1:]): self.check(x, env, a, bind)
            elif t[0] in PRIM:
                for x in t[1:]: self.check(x, env, "i64", bind)
                s = "i64"
            else: raise Reject("unknown function %s" % (t[0],))
        elif t in ("true", "false"): s = "bool"
        elif t.startswith('"'): s = "String"
        else:
            if t not in env:
                if not bind: raise Reject("unbound variable %s" % t)
                env[t] = want
            s = env[t]
        if want is not None and s != want: raise Reject("%s is a %s, not a %s" % (show(t), s, want))
        return s

    # ---- rewriting
    def match(self, p, t, env):
        if isinstance(p, list):
            if not isinstance(t, list) or t[0] != p[0] or len(t) != len(p): return False
            return all(self.match(a, b, env) for a, b in zip(p[1:], t[1:]))
        if isinstance(p, int) or p in ("true", "false") or p.startswith('"'): return p == t
        if p in env: return env[p] == t
        env[p] = t
        return True

    def build(self, p, env):
        if isinstance(p, list):
            if p[0] in PRIM: return PRIM[p[0]](*[self.build(x, env) for x in p[1:]])
            return [p[0]] + [self.build(x, env) for x in p[1:]]
        if isinstance(p, int) or p in ("true", "false") or p.startswith('"'): return p
        return env[p]

    def when(self, conds, env):
        for w in conds:
            if w[0] == "=":
                if isinstance(w[1], str) and w[1] not in env: env[w[1]] = self.build(w[2], env)
                elif self.build(w[1], env) != self.build(w[2], env): return False
            elif not TEST[w[0]](*[self.build(x, env) for x in w[1:]]): return False
        return True

    def steps(self, t, ruleset):
        """All (rule number, new term) one rewrite away."""
        for n, (rs, a, b, conds) in enumerate(self.rules):
            if rs != ruleset: continue
            env = {}
            if self.match(a, t, env) and self.when(conds, env): yield n, self.build(b, env)
        if t[0] in ("Var", "Bool", "Interval"): return
        for i in range(1, len(t)):
            if isinstance(t[i], list):
                for n, u in self.steps(t[i], ruleset): yield n, t[:i] + [u] + t[i + 1:]

    def walk(self, seed, many, limit):
        """A term reached by rewriting, and the rules used."""
        r = random.Random(seed)
        t, used = self.target, []
        for rs in self.runs:
            if rs == "analysis": continue
            seen = {show(t)}
            for _ in range(many):
                nxt = {}
                for n, u in self.steps(t, rs):
                    s = show(u)
                    if s not in seen and size(u) <= limit: nxt.setdefault(n, []).append((s, u))
                if not nxt: break
                n = r.choice(sorted(nxt))  # the rule first, so that frequent ones do not crowd out others
                s, t = r.choice(sorted(nxt[n]))
                seen.add(s); used.append(n)
        return t, used


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, list)) if isinstance(t, list) else 0


def formula(t):
    """The term in the form of dst/ref.py, its variables as columns of their number."""
    k = t[0]
    if k == "Var": return ["a", int(t[1].strip('"')[1:])]
    if k == "Bool": return ["tt"] if t[1] == "true" else ["ff"]
    if k == "Not": return ["!", formula(t[1])]
    if k == "Implies": return ["->", formula(t[1]), formula(t[2])]
    if k == "Equiv": return ["<->", formula(t[1]), formula(t[2])]
    if k[:3] == "And": return ["&"] + [formula(x) for x in t[1:]]
    if k[:2] == "Or": return ["|"] + [formula(x) for x in t[1:]]
    return [{"Global": "G", "Future": "F", "Until": "U", "Release": "R"}[k], t[1][1], t[1][2]] + [formula(x) for x in t[2:]]


def graph(t):
    """The JSON that egglog writes next to its input (the part that is read)."""
    nodes, classes = {}, {}

    def add(x, sort):
        n = len(nodes)
        if isinstance(x, list):
            ch = [add(c, "IntervalSort" if isinstance(c, list) and c[0] == "Interval" else "MLTL" if isinstance(c, list) else "String" if isinstance(c, str) and c[0] == '"' else "bool" if isinstance(c, str) else "i64")
                  for c in x[1:]]
            key, cls, op = "function-%d-%s" % (n, x[0]), "%s-%d" % (sort, n), x[0]
        else: key, cls, op, ch = "primitive-%d-%s" % (n, sort), "%s-%d" % (sort, n), str(x), []
        nodes[key] = {"op": op, "children": ch, "eclass": cls, "cost": 1.0, "subsumed": False}
        classes[cls] = {"type": sort}
        return key
    root = add(t, "MLTL")
    return {"nodes": nodes, "root_eclasses": [nodes[root]["eclass"]], "class_data": classes}
