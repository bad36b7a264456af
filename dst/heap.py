"""A simulated heap for the compiler: which identity an expression gets, when the identity of a dead one is given to a new one, when garbage is collected.

The compiler keys several of its tables on id(); in the C Python that is the address, so what it computes could depend on the allocator's state. Under `Heap`
the id() that the compiler's modules see, and the hash that orders its sets of expressions, come from a seeded policy instead."""
import builtins, gc, random, sys, weakref
from . import c2

POLICIES = ("newest", "oldest", "random", "never")


class Heap:
    def __init__(self, seed, policy, collect=0.0):
        self.r, self.policy, self.collect = random.Random(seed), policy, collect
        self.ids, self.free, self.next, self.reused, self.given, self.collections = {}, [], 1, 0, 0, 0

    def id(self, o):
        a = builtins.id(o)
        e = self.ids.get(a)
        if e is not None and e[0]() is o: return e[1]
        if self.collect and self.r.random() < self.collect:
            gc.collect(0)
            self.collections += 1
        if self.free and self.policy != "never":
            k = -1 if self.policy == "newest" else 0 if self.policy == "oldest" else self.r.randrange(len(self.free))
            n = self.free.pop(k)
            self.reused += 1
        else:
            n = self.next
            self.next += 1
        def gone(_, a=a, n=n):
            if self.ids.get(a, (None, None))[1] == n: del self.ids[a]
            self.free.append(n)
        try:
            self.ids[a] = (weakref.ref(o, gone), n)
        except TypeError:
            self.free.append(n)
            return a
        self.given += 1
        return n

    def __enter__(self):
        c2.c2po()
        self.mods = [m for k, m in list(sys.modules.items()) if k.startswith("c2po.") and m is not None and "id" not in vars(m)]
        for m in self.mods: m.id = self.id
        E = c2._loaded["cpt"].Expression
        self.E, self.own_hash = E, "__hash__" in vars(E)
        salt = self.r.randrange(1, 1 << 30) * 2 + 1
        if not self.own_hash: E.__hash__ = lambda o: (self.id(o) * salt) & 0xffffffff
        self.gc = gc.isenabled()
        gc.collect()
        gc.freeze()
        gc.disable()
        return self

    def __exit__(self, *a):
        for m in self.mods: del m.id
        if not self.own_hash: del self.E.__hash__
        gc.unfreeze()
        if self.gc: gc.enable()
        self.ids.clear()
