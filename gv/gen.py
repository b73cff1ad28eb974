"""Seeded generator of client programs (nested expressions with shared subexpressions)."""
import random
from .dsl import Ex, sp, lit, sqrt, sin, cos, tan, PI, E, ent, LITS, ty, TY

ENT = {
    "vga": ["vector", "vector", "rotor", "scalar", "float", "b"],
    "pga": ["plane", "point", "vgapoint", "vector", "line", "scalar", "rotor", "translator", "float", "b", "b"],
    "pga2": ["line", "point", "vector", "scalar", "b"],
    "cga": ["point", "point", "scalar", "v", "b"],
    "cga2": ["point", "point", "scalar", "v", "b"],
}

def pick_type(r, alg):
    t = r.choice(ENT[alg])
    if t == "b":
        return ent(alg, *(r.sample(range({"vga": 8, "pga2": 8, "pga": 16, "cga2": 16, "cga": 32}[alg]), r.randint(1, 4))))
    if t == "v":
        d = {"cga": 5, "cga2": 4}[alg]
        return ent(alg, *(r.sample([1 << i for i in range(d)], r.randint(1, d))))
    return t

class Gen:
    def __init__(self, seed, alg, nin=None, depth=3, div=True, fn=True, lits=True, sand=True):
        self.r = random.Random(f"{seed}/{alg}/{depth}/{div}/{fn}")
        self.alg = alg
        self.types = [pick_type(self.r, alg) for _ in range(nin or self.r.randint(1, 3))]
        self.ins = [Ex("in", (), i) for i in range(len(self.types))]
        self.pool = []
        self.div, self.fn, self.lits, self.sand = div, fn, lits, sand
        self.depth = depth
    def leaf(self):
        r = self.r
        if self.lits and r.random() < 0.12:
            return lit(r.choice([1, 1, 2, 3]), r.choice(sorted(LITS[self.alg])))
        return r.choice(self.ins)
    def scalar(self, d):
        r = self.r
        x = self.any(d - 1)
        k = r.randrange(3)
        if k == 0:
            return sp(x, x)
        if k == 1:
            return x[r.choice([0, 1, 2])]
        return sp(x, self.any(d - 1))
    def any(self, d):
        r = self.r
        if d <= 0:
            return self.leaf()
        if self.pool and r.random() < 0.25:
            return r.choice(self.pool)
        k = r.random()
        n = r.choice([2, 3, 1, -1, -2, 5])
        if k < 0.40:
            x, y = self.any(d - 1), self.any(d - 1)
            e = r.choice([lambda: x + y, lambda: x - y])()
        elif k < 0.66:
            x, y = self.any(d - 1), self.any(d - 1)
            e = r.choice([lambda: x * y, lambda: x ^ y, lambda: x >> y, lambda: x | y, lambda: x & y, lambda: sp(x, y)])()
        elif k < 0.70 and self.sand:
            e = self.any(d - 1) % self.leaf()
        elif k < 0.90:
            x = self.any(d - 1)
            e = r.choice([lambda: -x, lambda: ~x, lambda: x.dual(), lambda: n * x, lambda: x / n, lambda: x + n, lambda: n - x,
                          lambda: x.grade(r.choice([0, 1, 2])), lambda: x[r.choice([0, 1, 2, 4, 3])]])()
        elif k < 0.96 and self.div:
            e = r.choice([lambda: self.any(d - 1) / self.scalar(d - 1), lambda: n / self.scalar(d - 1)])()
        elif self.fn:
            e = r.choice([sqrt, sin, cos, tan])(self.scalar(d - 1))
        else:
            e = self.any(d - 1) + self.leaf()
        self.pool.append(e)
        return e
    def expr(self):
        return self.any(self.depth)


class Share:
    """expressions built as a graph: every step combines values that exist already, so subexpressions repeat, nest and differ slightly"""
    def __init__(self, seed, alg, steps=6, nin=None, maxdeg=4, fn=True, lits=1, types=None, results=1, heavy=False):
        self.r = r = random.Random(f"share/{seed}/{alg}/{steps}/{maxdeg}/{fn}")
        self.alg = alg
        self.types = types or [pick_type(r, alg) for _ in range(nin or r.randint(1, 3))]
        self.nodes = [(Ex("in", (), i), 1) for i in range(len(self.types))]
        if lits and LITS[alg]:
            for _ in range(r.randint(0, 1) if lits == 1 else lits):
                self.nodes.append((lit(r.choice([1, 1, 2]), r.choice(sorted(LITS[alg]))), 1))
        self.base = len(self.nodes)
        self.maxdeg, self.fn, self.heavy = maxdeg, fn, heavy
        for _ in range(steps):
            self.step()
        self.results = results
    def pick(self, most=None):
        r = self.r
        c = [n for n in self.nodes if most is None or n[1] <= most]
        # newer values are likelier
        w = [1 + 2 * i for i in range(len(c))]
        return r.choices(c, w)[0] if c else self.nodes[0]
    def scal(self):
        r = self.r
        x, d = self.pick(self.maxdeg // 2)
        k = r.randrange(4)
        if k == 0:
            return sp(x, x), 2 * d
        if k == 1:
            y, e = self.pick(max(1, self.maxdeg - d))
            return sp(x, y), d + e
        return x[r.choice([0, 1, 2])], d
    def step(self):
        r = self.r
        k = r.random()
        if self.heavy and r.random() < 0.4:
            k = r.uniform(0.88, 1)
        if k < 0.36:
            (x, d), (y, e) = self.pick(), self.pick()
            m, n = r.choice([1, 1, 1, 2, -1, 3]), r.choice([1, 1, 2, -1])
            x, y = (x if m == 1 else m * x), (y if n == 1 else n * y)
            v = (r.choice([lambda: x + y, lambda: x - y, lambda: y + x])(), max(d, e))
        elif k < 0.68:
            x, d = self.pick(self.maxdeg - 1)
            y, e = self.pick(max(1, self.maxdeg - d))
            if d + e > self.maxdeg:
                y, e = self.nodes[0]
            v = (r.choice([lambda: x * y, lambda: y * x, lambda: x ^ y, lambda: x >> y, lambda: x | y, lambda: x & y, lambda: sp(x, y)])(), d + e)
        elif k < 0.88:
            x, d = self.pick()
            n = r.choice([2, 3, -1, -2])
            v = (r.choice([lambda: ~x, lambda: x.dual(), lambda: n * x, lambda: x / n, lambda: x + n, lambda: n - x, lambda: x.grade(r.choice([0, 1, 2])), lambda: x[r.choice([0, 1, 2, 3])], lambda: -x])(), d)
        elif k < 0.95 and self.fn is not None or self.fn is False:
            x, d = self.pick()
            y, e = self.scal()
            v = (r.choice([lambda: x / y, lambda: r.choice([1, 2, -3]) / y, lambda: y * x])(), d + 1)
        elif self.fn is None:       # polynomial operations only
            y, e = self.scal()
            v = (y, e)
        else:
            y, e = self.scal()
            v = (r.choice([sqrt, sin, cos, tan])(y), 1)
        if v[1] <= self.maxdeg:
            self.nodes.append(v)
    def expr(self):
        r = self.r
        made = self.nodes[self.base:] or self.nodes
        if self.results > 1:
            return [r.choice(self.nodes)[0] if r.random() < 0.15 else r.choice(made)[0] for _ in range(self.results)]
        top = [e for e, d in made[-3:]]
        e = top[-1]
        for x in top[:-1]:
            e = r.choice([lambda: e + x, lambda: x - e, lambda: 2 * e + x])()
        return e

def poly(seed, nv=4, deg=5, terms=4):
    """a random polynomial expression over scalars: products of sums of products"""
    r = random.Random(f"poly/{seed}")
    v = [Ex("in", (), i) for i in range(nv)]
    def mono(k):
        e = r.choice(v)
        for _ in range(r.randrange(k)):
            e = r.choice([lambda: e * r.choice(v), lambda: r.choice(v) * e])()
        n = r.choice([1, 1, 1, 2, -1, 3, -2])
        return e if n == 1 else n * e
    def sums(k, n):
        e = mono(k)
        for _ in range(n - 1):
            m = mono(k) if r.random() < 0.85 else None
            e = (e + r.choice([1, 2, -1])) if m is None else r.choice([lambda: e + m, lambda: e - m, lambda: m + e, lambda: m - e])()
        return e
    k = r.randrange(4)
    a, b = sums(max(1, deg // 2), r.randint(1, terms)), sums(max(1, deg - deg // 2), r.randint(2, terms))
    if k == 0:
        return a * b
    if k == 1:
        return a * b + sums(deg, r.randint(1, terms))
    if k == 2:
        return a * b - b * a + sums(2, 2) * mono(2)
    return (a * b) * mono(1) + (b - a) * sums(2, 2)
