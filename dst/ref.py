"""Executable reference semantics (MLTL / past-MLTL over the received trace), three-valued:
True/False once determined by the rows seen, None while the deciding rows are still to come."""
import math


def k_not(a): return None if a is None else not a
def k_and(a, b):
    if a is False or b is False: return False
    if a is None or b is None: return None
    return True
def k_or(a, b):
    if a is True or b is True: return True
    if a is None or b is None: return None
    return False
def k_iff(a, b): return None if a is None or b is None else a == b


EPS = 0.00001


class Undefined(Exception):
    """Arithmetic the specification language leaves undefined (division by zero, overflow)."""


def _i32(v):
    if not -2**31 <= v < 2**31:
        raise Undefined()
    return v


def num(e, rows, t, times=None):
    """Value of arithmetic expression e at step t. rows[t][column]; ints stay ints, floats floats."""
    k = e[0]
    if k in ("i", "f"): return rows[t][e[1]]
    if k in ("ic", "fc"): return e[1]
    if k == "tau": return times[t] if times else t
    if k == "prev":
        return num(e[1], rows, t, times) if t == 0 else num(e[2], rows, t - 1, times)
    a = num(e[1], rows, t, times)
    isint = isinstance(a, int)
    chk = _i32 if isint else _fl
    if k == "neg": return chk(-a)
    if k == "abs": return chk(abs(a))
    if k == "sqrt":
        if a < 0: raise Undefined()
        return int(math.sqrt(a)) if isint else math.sqrt(a)
    if k == "~": return ~a
    b = num(e[2], rows, t, times)
    if k == "+": return chk(a + b)
    if k == "-": return chk(a - b)
    if k == "*": return chk(a * b)
    if k == "/":
        if b == 0: raise Undefined()
        if isint:
            q = abs(a) // abs(b)
            return _i32(q if (a < 0) == (b < 0) else -q)
        return _fl(a / b)
    if k == "%":
        if b == 0: raise Undefined()
        return _i32(int(math.fmod(a, b)))
    if k == "pow":
        if isint:
            if b < 0: raise Undefined()
            return _i32(a ** b)
        try:
            v = math.pow(a, b)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undefined()
        return _fl(v)
    if k == "&": return a & b
    if k == "|": return a | b
    if k == "^": return a ^ b
    raise KeyError(k)


def _fl(v):
    if v != v or abs(v) > 1e12:
        raise Undefined()
    return v


def cmp(op, a, b):
    if isinstance(a, float) or isinstance(b, float):
        # stay clear of the documented float tolerance: undefined exactly at its edge
        d = abs(a - b)
        if abs(d - EPS) < EPS * 1e-3: raise Undefined()
        if op == "==": return d < EPS
        if op == "!=": return not d < EPS
        if op == ">": return a > b
        if op == "<": return a < b
        if op == ">=": return a > b - EPS
        if op == "<=": return a < b + EPS
    return {"==": a == b, "!=": a != b, ">": a > b, "<": a < b, ">=": a >= b, "<=": a <= b}[op]


class Ref:
    """Values of formulas over `rows` (dense), for times 0..horizon-1."""

    def __init__(self, rows, horizon, times=None):
        self.rows, self.n, self.h, self.times = rows, len(rows), horizon, times
        self.memo = {}

    def val(self, f):
        key = repr(f)
        if key not in self.memo:
            self.memo[key] = self._val(f)
        return self.memo[key]

    def _val(self, f):
        k, n, h = f[0], self.n, self.h
        if k == "a":
            return [bool(self.rows[t][f[1]]) if t < n else None for t in range(h)]
        if k == "cmp":
            return [cmp(f[1], num(f[2], self.rows, t, self.times), num(f[3], self.rows, t, self.times)) if t < n else None for t in range(h)]
        if k == "tt": return [True] * h
        if k == "ff": return [False] * h
        if k == "!": return [k_not(x) for x in self.val(f[1])]
        if k in ("&", "|"):
            op = k_and if k == "&" else k_or
            r = self.val(f[1])
            for g in f[2:]:
                r = [op(x, y) for x, y in zip(r, self.val(g))]
            return r
        if k == "->": return [k_or(k_not(x), y) for x, y in zip(self.val(f[1]), self.val(f[2]))]
        if k == "<->": return [k_iff(x, y) for x, y in zip(self.val(f[1]), self.val(f[2]))]
        if k == "^": return [k_not(k_iff(x, y)) for x, y in zip(self.val(f[1]), self.val(f[2]))]
        if k == "cnt":  # counting quantifier: op, n, operands
            cols = [self.val(g) for g in f[3:]]
            out = []
            for t in range(h):
                vs = [c[t] for c in cols]
                lo, hi = sum(v is True for v in vs), sum(v is not False for v in vs)
                if f[1] == "exactly": out.append(False if hi < f[2] or lo > f[2] else (True if lo == hi else None))
                elif f[1] == "atleast": out.append(True if lo >= f[2] else (False if hi < f[2] else None))
                else: out.append(True if hi <= f[2] else (False if lo > f[2] else None))
            return out
        lb, ub = f[1], f[2]
        x = self.val(f[3])
        y = self.val(f[4]) if len(f) > 4 else None
        out = []
        g = lambda v, t: v[t] if t < h else None
        for i in range(h):
            if k in ("G", "F"):
                op = k_and if k == "G" else k_or
                r = k == "G"
                for j in range(i + lb, i + ub + 1): r = op(r, g(x, j))
            elif k == "U":
                r = g(y, i + ub)
                for j in range(i + ub - 1, i + lb - 1, -1): r = k_or(g(y, j), k_and(g(x, j), r))
            elif k == "R":
                r = g(y, i + ub)
                for j in range(i + ub - 1, i + lb - 1, -1): r = k_and(g(y, j), k_or(g(x, j), r))
            elif k in ("H", "O"):
                op = k_and if k == "H" else k_or
                r = k == "H"
                for j in range(max(0, i - ub), i - lb + 1): r = op(r, g(x, j))
            elif k == "S":
                r = False
                for j in range(max(0, i - ub), i - lb + 1): r = k_or(g(y, j), k_and(g(x, j), r))
            elif k == "T":
                r = True
                for j in range(max(0, i - ub), i - lb + 1): r = k_and(g(y, j), k_or(g(x, j), r))
            else:
                raise KeyError(k)
            out.append(r)
        return out


def wpd(f):
    """Worst-case delay: the verdict for time t needs no row after t + wpd."""
    k = f[0]
    if k in ("a", "cmp", "tt", "ff"): return 0
    if k in ("G", "F", "U", "R"): return f[2] + max(wpd(g) for g in f[3:])
    if k in ("H", "O", "S", "T"): return max(wpd(g) for g in f[3:])
    start = 3 if k == "cnt" else 1
    return max(wpd(g) for g in f[start:])


def atoms(f, acc=None):
    acc = [] if acc is None else acc
    if f[0] in ("a", "cmp"): acc.append(f)
    else:
        for g in f[1:]:
            if isinstance(g, list): atoms(g, acc)
    return acc
