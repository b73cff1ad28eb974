"""Per property: the client programs and internal obligations the solver decides.
suite(pid, thorough, seed) -> list of Prog / Harness, in the order in which they are tried."""
import itertools, random
from fractions import Fraction
from .dsl import Ex, sp, lit, sqrt, sin, cos, tan, exp, PI, E, ent, ty, LITS
from .prog import Prog, expr_prog, staged_prog, defined, HERE
from .ga import ALG, GENERIC
from .gen import Gen, Share, poly
from . import internal as I
from . import geo
from .info import INFO, ASSUME

a, b, c, d = [Ex("in", (), i) for i in range(4)]
def inp(i):
    return Ex("in", (), i)
FULL = {"vga": 8, "pga": 16, "pga2": 8, "cga": 32, "cga2": 16}
FULL.update({m: 1 << sum(v) for m, v in GENERIC.items()})
def grade(alg, *g):
    return ent(alg, *[e for e in range(FULL[alg]) if bin(e).count("1") in g])
def full(alg):
    return ent(alg, *range(FULL[alg]))

BIN = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "^": lambda x, y: x ^ y, "&": lambda x, y: x & y,
       ">>": lambda x, y: x >> y, "|": lambda x, y: x | y, "%": lambda x, y: x % y, "sp": sp}
PROD = {k: BIN[k] for k in ("*", "^", "&", ">>", "|", "sp")}
UN = {"neg": lambda x: -x, "rev": lambda x: ~x, "dual": lambda x: x.dual(), "3x": lambda x: 3 * x, "/4": lambda x: x / 4, "-2x": lambda x: -2 * x, "x+2": lambda x: x + 2,
      "5-x": lambda x: 5 - x, "x-1": lambda x: x - 1, "g0": lambda x: x.grade(0), "g1": lambda x: x.grade(1), "g2": lambda x: x.grade(2), "[0]": lambda x: x[0], "[1]": lambda x: x[1], "[3]": lambda x: x[3]}

class S:
    def __init__(self):
        self.items = []
        self.seen = set()
    def add(self, alg, types, e, **kw):
        p = expr_prog(f"p{len(self.items)}", alg, types, e, **kw)
        k = (p.desc, p.minimal)
        if k in self.seen or not defined(p):
            return None
        self.seen.add(k)
        self.items.append(p)
        return p
    def staged(self, alg, types, cuts, e, **kw):
        p = staged_prog(f"p{len(self.items)}", alg, types, cuts, e, **kw)
        if p.desc in self.seen or not defined(p):
            return None
        self.seen.add(p.desc)
        self.items.append(p)
        return p
    def raw(self, p):
        if p.desc not in self.seen:
            self.seen.add(p.desc)
            self.items.append(p)
        return p
    def h(self, *hs):
        for h in hs:
            self.items.extend(h if isinstance(h, list) else [h])

def random_progs(s, seed, n, algs, types=None, **kw):
    """n seeded programs per algebra"""
    for al in algs:
        for k in range(n):
            g = Gen(f"{seed}-{k}", al, **kw)
            e = g.expr()
            s.add(al, g.types, e)

def shared(s, seed, n, alg, steps, deg, T=None, **kw):
    """n seeded expression graphs; steps is a range of sizes"""
    for k in range(n):
        g = Share(f"{seed}-{k}", alg, steps=steps[k % len(steps)], maxdeg=deg, **kw)
        e = g.expr()
        s.add(alg, g.types, e, **({} if T is None else {"T": T[k % len(T)]}))

# ---- C01 products of blades and general multivectors ---------------------------------------
def C01(s, th, seed):
    for m in I.METRICS:
        s.h(I.blades(m))
    s.h([I.complement(m) for m in I.METRICS])
    more = [(p, v, n - p - v) for n in range(1, 5) for p in range(n + 1) for v in range(n - p + 1)] + [(2, 1, 2), (3, 2, 0), (0, 5, 0), (1, 1, 3), (4, 0, 1)]
    if th:
        more += [(p, v, n - p - v) for n in (5, 6) for p in range(n + 1) for v in range(n - p + 1)]
    for m in dict.fromkeys(more):
        if m not in I.METRICS:
            s.h(I.blades(m), I.complement(m))
    # more generators than any shipped model has, up to the eight an element number can hold
    for m, rs in (((4, 1, 1), None), ((4, 2, 1), ((85, 86), (126, 127))), ((4, 3, 1), ((170, 170), (255, 255)))):
        s.h(I.blades(m) if rs is None or th else [I.blades_range(m, False, lo, hi, f"_{lo}") for lo, hi in rs], I.complement(m))
    for al in ("vga", "pga2"):
        for k, o in PROD.items():
            s.add(al, [full(al), full(al)], o(a, b))
    for al in ("pga", "cga2"):
        for k, o in PROD.items():
            if k in ("*", "^") or th:
                s.add(al, [full(al), full(al)], o(a, b))
            for g in ([0, 1, 2, 3, 4] if th else [1, 2, 3]):
                for h in ([0, 1, 2, 3, 4] if th else [1, 2, 3]):
                    if k != "*" or th or (g, h) in ((2, 2), (2, 3)):
                        s.add(al, [grade(al, g), grade(al, h)], o(a, b))
    for g, h in itertools.product(range(6), range(6)):
        for k, o in PROD.items():
            if th or (k == "*" and (g, h) in ((1, 2), (2, 2), (3, 1), (2, 4))) or (k in ("^", ">>", "|", "&") and (g, h) in ((1, 2), (2, 2), (2, 3), (3, 1), (3, 3))):
                s.add("cga", [grade("cga", g), grade("cga", h)], o(a, b))
    for al in ("vga", "pga", "pga2", "cga2", "cga"):
        s.add(al, [full(al)], ~a)
        s.add(al, [full(al)], a.dual())
        s.add(al, [grade(al, 1), grade(al, 2)], a % b)
        s.add(al, [grade(al, 1)], a * a)
        s.add(al, [grade(al, 2)], a * ~a)
    # user-defined signatures
    for al in GENERIC:
        n = sum(GENERIC[al])
        if n > 5:
            for k, o in PROD.items():
                for g, h in ((1, 1), (1, n - 1), (n - 1, 1), (n - 1, n), (n, 1), (n - 1, n - 1), (1, 2)):
                    s.add(al, [grade(al, g), grade(al, h)], o(a, b))
            s.add(al, [full(al)], ~a)
            s.add(al, [full(al)], a.dual())
            s.add(al, [full(al)], [a.grade(n), a.grade(n - 1), a.grade(3)])
            s.add(al, [grade(al, 1), grade(al, 1)], a % b)
            continue
        f = full(al) if n <= 4 else grade(al, 1, 2)
        for k, o in PROD.items():
            if n <= 3 or th:
                s.add(al, [f, f], o(a, b))
            for g, h in itertools.product(range(n + 1), range(n + 1)):
                if n == 4 and (k in ("*", "&", "|", "sp") and (g + h) % 2 == 0 or th) or n == 5 and (g, h) in ((1, 1), (1, 2), (2, 2), (2, 3), (4, 2)):
                    s.add(al, [grade(al, g), grade(al, h)], o(a, b))
        s.add(al, [full(al)], ~a)
        s.add(al, [full(al)], a.dual())
        s.add(al, [grade(al, 1), grade(al, 1)], a % b)
        s.add(al, [grade(al, 1)], a * a)
        s.add(al, [grade(al, 1)], [a >> a, a | a, sp(a, a), a ^ a])
        s.add(al, [grade(al, 2)], a * ~a) if n > 1 else None
        s.add(al, [grade(al, 1), grade(al, 1)], (a * b) * ~(a * b))
        s.add(al, [grade(al, 1), grade(al, 1), grade(al, 1)], (a * b) * c - a * (b * c))
        s.add(al, [grade(al, 1), grade(al, 1), grade(al, 1)], a >> (b ^ c))
        for g in range(n + 1):
            s.add(al, [full(al) if n <= 4 else grade(al, g)], a.grade(g))
    if th:
        for al in ("pga", "cga2", "vga", "pga2"):
            for x, y, z in itertools.product(range(FULL[al].bit_length()), repeat=3):
                if x + y + z and (al in ("vga", "pga2")):
                    s.add(al, [grade(al, x), grade(al, y), grade(al, z)], (a * b) * c)
                    s.add(al, [grade(al, x), grade(al, y), grade(al, z)], a * (b * c))

# ---- C02 exact rational coefficients ------------------------------------------------------------
FR = [(1, 2), (2, 3), (-3, 4), (5, 6), (7, 1), (-1, 7), (9, 8), (11, 12), (-5, 9), (13, 10)]
def fr(x, q):
    n, dd = q
    x = n * x if n != 1 else x
    return x / dd if dd != 1 else x
def C02(s, th, seed):
    s.h(I.rats(1000, 31))
    s.h(I.rat_eq(6 if not th else 10))
    if th:
        s.h(I.rats(4000, 15, "w"))
        s.h(I.rats(60, 100, "d"))
    for al, t in (("vga", "vector"), ("pga", "plane"), ("cga2", "point")):
        for i, p in enumerate(FR):
            q = FR[(i * 3 + 1) % len(FR)]
            r = FR[(i * 7 + 2) % len(FR)]
            if al != "vga" and not th and i % 3:
                continue
            s.add(al, [t, t], fr(a, p) + fr(b, q))
            s.add(al, [t, t], fr(a, p) - fr(b, q))
            s.add(al, [t, t], fr(a, p) * fr(b, q))
            s.add(al, [t, t], fr(fr(a, p) + fr(b, q), r))
            s.add(al, [t, t], fr(a, p) + fr(b, q) + fr(a, r))
            s.add(al, [t, t], (fr(a, p) + fr(b, q)) * (fr(a, r) - fr(b, p)))
            s.add(al, [t, t], fr(fr(a, p) | fr(b, q), r) + 3)
    x, y, z = a, b, c
    sc = ["scalar"] * 3
    for n in (2, 3, 4, 5):
        e = x / 2 + y / 3
        r = e
        for _ in range(n - 1):
            r = r * e
        s.add("vga", sc[:2], r)
    s.add("vga", sc, (x / 2 + y / 3 + z / 5) * (x / 7 - y / 2 + z / 3))
    s.add("vga", sc, (x / 2 + 1) * (y / 3 - 1) * (z / 5 + 2))
    s.add("vga", sc, 1 / (2 * x) + 1 / (3 * y) + z / (4 * x))
    s.add("vga", sc, (x / 6 + x / 10 + x / 15) - x / 3)
    s.add("vga", sc, (x / 2 + y) / 3 / 5 / 7)
    s.add("vga", sc, -3 * (x / 2 - 2 * (y / 3 - 4 * (z / 5 - 1))))
    # beyond the exact range the coefficients are within 2e-7
    n = 0
    for dd in (31, 37, 49, 64, 81, 97, 101, 121, 127, 128):
        for nn in (1, 2, 3, 5, 7, -4, -9, 11):
            n += 1
            if not th and n % 3:
                continue
            p = s.add("vga", ["scalar", "scalar"], ((nn * x) / dd) * ((3 * y) / (dd + 4)) + ((2 * y) / dd) * (y / (dd - 1)))
            if p:
                p.approx = Fraction(1, 1000000)
    sc3 = ["scalar"] * 3
    for e in ((x / 101) * (y / 103) * (z / 107), (x / 101) * (y / 103) * (z / 107) * (x / 109), (x / 101) * (y / 103) * (z / 107) * (x / 109) * (y / 113), ((3 * x) / 37) * ((5 * y) / 41) * ((7 * z) / 43) * ((11 * x) / 47),
              x / 101 + y / 103 + x / 107 + x / 109, (x / 101 + x / 103 + x / 107) + x / 109 + x / 113, x / 1000 + x / 1001 + x / 1003, (x / 64) * (y / 64) * (z / 64), (x / 50) * (x / 50) * (x / 50) * (x / 50), ((7 * x) / 60) * ((11 * y) / 60) * ((13 * z) / 60),
              (((x / 97) * y) / 89) * z / 83, (x / 31 + y / 33) * (x / 35 - z / 37), x / 2000, (3 * x) / 4000 + (5 * y) / 3000, (x / 1023) * y + (x / 1025) * z):
        p = s.add("vga", sc3, e)
        if p:
            p.approx = Fraction(1, 1000000)
    # integers beyond small
    for e in (1000 * x + 2000 * y, 12345 * x - 54321 * y + 99999, (300 * x) * (400 * y), (x + 1000) * (y - 999), (1000000 * x) / 1000, (46341 * x) + y, 65536 * (x - y) / 32768):
        s.add("vga", sc3, e)
    if th:
        random_progs(s, seed, 60, ["vga", "pga"], depth=3, fn=False)

# ---- C03 polynomial arithmetic on multivectors ----------------------------------------------------
def C03(s, th, seed):
    s.h([h for h in I.mvs((3, 0, 0)) if th or True])
    s.h(I.mvs((2, 0, 1)) if th else [h for h in I.mvs((2, 0, 1)) if h.name.startswith(("mv_prod", "mv_scale"))])
    if th:
        s.h(I.mvs((1, 1, 1)))
    x, y, z, w = a, b, c, d
    sc = ["scalar"] * 4
    es = [(x + y) * (x + y), (x + y) * (x - y), (x + y) * (x + y) * (x + y), (x + y + z) * (x + y + z), (x - y) * (y - z) * (z - x), (x + y) * (z + w),
          (x * y + z) * (x * z + y), (x * y * z + w) * (w * x + y), (x + 1) * (y + 2) * (z + 3), (x * x + y * y) * (z * z + w * w), (x * z - y * w) * (x * w + y * z),
          (x + y) * (z + w) - (z + w) * (x + y), (x * y) * (z * w) - (w * y) * (x * z), x * x * x * x - y * y * y * y, (x - y) * (x * x + x * y + y * y), (x * y * z) * (z * y * x),
          (x + 2) * (x - 2) * (x + 3), (x * w + y * z) * (x * w - y * z), x * (y + z * (w + x * (y + 1))), ((x + y) * z + w) * ((x + z) * y + w)]
    for e in es:
        s.add("vga", sc, e)
        s.add("vga", sc, e + x)
    v = ["vector", "vector", "vector", "vector"]
    for e in (a * b * c, (a + b) * c, a * (b + c), (a + b) * (c + d), (a ^ b) * (c ^ d), (a ^ b) | (c ^ d), (a | b) * (c | d) - (a | d) * (b | c), (a ^ b ^ c) * d, (a * b) >> c, a >> (b ^ c), (a >> b) * c - (a >> c) * b,
              a * b * ~(a * b), (a + b) * (a - b), (a * b - b * a) / 2, (a * b + b * a) / 2, ((a ^ b) * c) ^ d, (a * b * c * d).grade(2), (a * b * c * d)[0], (a * a) * b, a * b * a, (a * b * a).grade(1), (a ^ b) & (c ^ d), (a & b) + (a ^ b)):
        s.add("vga", v, e)
    ents = [ent("vga", *x) for x in ((0, 1), (0, 3), (1, 6), (2, 5, 7), (0, 7), (3, 5, 6), (1, 2, 4, 7), (0, 1, 2, 3))]
    for i, (p, q) in enumerate(itertools.product(ents, ents)):
        if th or i % 2 == 0:
            s.add("vga", [p, q], (a + b) * a)
            s.add("vga", [p, q], (a * b) + (b * a))
            s.add("vga", [p, q], (a - b) ^ (a + b))
    for al, t in (("pga", ent("pga", 0, 1, 2, 8)), ("pga", ent("pga", 3, 6, 9, 12)), ("pga2", full("pga2")), ("cga2", ent("cga2", 0, 1, 4, 12)), ("cga", ent("cga", 1, 8, 16, 24))):
        for e in ((a + b) * a, a * b - b * a, (a ^ b) + (a | b) + (a >> b), a * b * a):
            s.add(al, [t, t], e)
    powers(s, th, 14)
    for k in range(300 if not th else 2000):
        s.add("vga", sc, poly(f"{seed}{k}", deg=3 + k % 4, terms=2 + k % 4))
    for al, n, dg in (("vga", 120, 5), ("pga", 60, 4), ("pga2", 60, 4), ("cga2", 40, 3), ("cga", 30, 3)):
        shared(s, f"C03{seed}", n if not th else 6 * n, al, (3, 4, 5, 6, 8), dg, fn=None)

def lookalikes():
    """pairs of subexpressions that are easily confused: same operators and shape, same fingerprint, different operands"""
    return [(b * a, c * b), (a * b, b * c), (a ^ b, b ^ a), (a ^ b ^ c, c ^ b ^ a), (a ^ b ^ c, a ^ c ^ b), (a[1], a[2]), ((a * b)[0], (a * b)[3]), ((a * b).grade(0), (a * b).grade(2)), (sp(a, b), a >> b), ((a * b).grade(2), a * b), (a[1], a),
            (b >> a, c >> b), (b | a, c | b), (~(b * a), ~(c * b)), ((b * a).dual(), (c * b).dual()), (sin(a[1]), sin(a[2])), (sqrt(a[1]), sqrt(a[4])), (a / b[1], a / b[2]), (a / sp(b, c), a / sp(b, b)), (1 / a[1], 1 / a[2]), (2 / a[1], 3 / a[1]),
            ((b * a) * c, (c * b) * c), ((a + b) * c, (b + c) * a), (c * (b * a), c * (c * b)), (sin(a[1]), cos(a[1])), (tan(2 * a[1]), tan(3 * a[1])), (a * b, a >> b), (a | b, a >> b), (~a, a), (a.dual(), ~a), (a & b, b & a), ((a + b) ^ c, (a + c) ^ b),
            (sqrt(sp(a, b)), sqrt(sp(a, c))), (sqrt(a[1] + 1), sqrt(a[1] + 2)), ((a * b) / 2, (a * b) / 3), ((a + 1) * b, (a + 2) * b), ((a - b) * c, (b - a) * c), ((2 * a + b) * c, (a + 2 * b) * c), (lit(1, "e0") * a, lit(1, "e1") * a),
            (lit(2, "e0") ^ a, lit(3, "e0") ^ a), ((a ^ b)[3], (a ^ b)[5]), (a % b, b % a), (a.grade(1), b.grade(1)), (a[1] * b, a[2] * b), (a[1] * b, b[1] * a), ((a * b)[3] * c, (a * b)[5] * c), (c / sin(a[1]), c / cos(a[1])), (c / (a[1] + b[1]), c / (a[1] - b[1]))]
LOOK = [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: 2 * x + 3 * y, lambda x, y: x + y + x, lambda x, y: (x + c) * (y + c), lambda x, y: (x + c) + (y + c), lambda x, y: x * y, lambda x, y: (x * a) + (y * a), lambda x, y: (x ^ c) - (y ^ c), lambda x, y: (x * c) * (y * c), lambda x, y: (c + x) - (c + y) + y, lambda x, y: x * a + y * b + x * b + y * a, lambda x, y: [x, y, x * y], lambda x, y: ~x + ~y]
def look(s, th, every, off, ctx=None):
    V = ["vector", "vector", "vector"]
    for i, (x, y) in enumerate(lookalikes()):
        for j, f in enumerate(LOOK):
            if (ctx is None or j in ctx) and (th or (i + j) % every == off):
                s.add("vga", V, f(x, y))

# ---- C04 linear expressions -----------------------------------------------------------------------
def lin_leaves():
    return [a, b, c]
def C04(s, th, seed):
    forms = [lambda x: x, lambda x: -x, lambda x: 2 * x, lambda x: -3 * x, lambda x: x / 2, lambda x: x / -3, lambda x: x + 1, lambda x: x - 2, lambda x: 3 - x, lambda x: 4 + x, lambda x: 0 * x, lambda x: -(2 * x), lambda x: 2 * (-x), lambda x: -(x + 1), lambda x: 2 * (x + 1), lambda x: (3 * x + 1) / 2, lambda x: 0 - x, lambda x: x / -1, lambda x: -1 - x, lambda x: x - 0, lambda x: x / 1, lambda x: 0 + x, lambda x: -1 * x, lambda x: x - -2, lambda x: (-6 * x) / -4]
    for f in forms[16:]:
        for g in forms[:4] + forms[16:]:
            s.add("vga", ["vector", "vector"], f(a) + g(b))
            s.add("vga", ["vector", "vector"], g(f(a - b)))
            s.add("vga", ["vector", "vector"], f(a) - g(a))
        for al, t in (("pga", "plane"), ("cga2", "point")):
            s.add(al, [t, t], f(a) - b)
            s.add(al, [t, t], f(a * b))
    forms = forms[:16]
    for (i, f), (j, g) in itertools.product(enumerate(forms), enumerate(forms)):
        if not th and (i * 5 + j * 3) % 4 and not (i < 4 and j < 4):
            continue
        s.add("vga", ["vector", "vector"], f(a) + g(b))
        s.add("vga", ["vector", "vector"], f(a) - g(b))
        s.add("vga", ["vector", "vector"], g(f(a) + b))
        s.add("vga", ["vector", "vector"], f(g(a)) - b + a)
    s3 = ["vector"] * 4
    L = [a, b, c, a + b, a - b, b - a, a + c, 2 * a, 3 * b, -a, a / 2, 2 * (a + b), (a + b) / 3, -(a - b), a + 1, 1 - b, lit(1, "e1"), lit(2, "e12"), a + lit(3, "e0"), lit(2, "e1") - a]
    for i, x in enumerate(L):
        for j, y in enumerate(L):
            if th or (i + 2 * j) % 3 == 0:
                s.add("vga", s3[:3], x + y)
                s.add("vga", s3[:3], x - y)
                s.add("vga", s3[:3], 2 * (x + y) - 3 * (y - x) / 2)
    look(s, th, 1, 0, (0, 1, 2, 3, 5, 10))
    magnitudes(s, True)
    def build(n):
            if n == 0:
                return r.choice(L)
            t = r.randrange(8)
            if t < 3:
                return build(n - 1) + build(r.randrange(n))
            if t < 5:
                return build(r.randrange(n)) - build(n - 1)
            if t == 5:
                return r.choice([2, -1, 3, -2]) * build(n - 1)
            if t == 6:
                return build(n - 1) / r.choice([2, 3, -2, -1])
            return r.choice([lambda x: x + 1, lambda x: 2 - x, lambda x: -x, lambda x: x - 3, lambda x: 0 - x])(build(n - 1))
    for k in range(300 if not th else 1500):
        r = random.Random(f"lin{seed}{k}")
        L = [a, b, c, d, a, b, lit(r.randint(1, 3), r.choice(sorted(LITS["vga"])))]
        s.add("vga", s3, build(3 + k % 3))
    for al, ts in (("pga", ["plane", "line", "vgapoint", "motor"]), ("pga2", ["line", "point", "vector", "line"]), ("cga", ["point"] * 4), ("cga2", ["point", "scalar", "point", "point"]), ("vga", [full("vga"), "rotor", "float", "scalar"])):
        for k in range(60 if not th else 300):
            r = random.Random(f"lin{al}{seed}{k}")
            L = [a, b, c, d, a, b, a * b, a ^ c, lit(r.randint(1, 3), r.choice(sorted(LITS[al])))]
            s.add(al, ts, build(3 + k % 3))
    for al, t in (("pga", "plane"), ("pga2", "point"), ("cga", "point"), ("cga2", "point"), ("pga", "motor")):
        for e in (a + b, a - b, 2 * a - 3 * b, (a + b) / 2 - a, -(a - b) + 1, a - a, a + b - a, 3 - (a - 2 * b), a / 2 + a / 2 - a, (a + a) + (b - b), (0 * a) + b, b + (0 * a), (a - a) + b, b - (a - a), (a - a) - b, 2 * (a - a) + 1):
            s.add(al, [t, t], e)


# ---- C05 common subexpressions ------------------------------------------------------------------
def C05(s, th, seed):
    V = ["vector", "vector", "vector"]
    subs = [a * b, a ^ b, a | b, a >> b, a + b, a * b * c, (a + b) * c, a & b, ~(a * b), (a * b).dual(), (a * b).grade(2), (a * b)[0], sp(a, b), a % b, (a ^ b) * c, (a | b) + c, 2 * (a * b), (a + 2 * b), (a * b) / 3]
    near = [b * a, b ^ a, b | a, b >> a, a - b, a * c * b, (a - b) * c, b & a, a * ~b, a * b.dual(), (a * b).grade(0), (a * b)[3], sp(b, a), b % a, a ^ (b * c), (a | c) + b, 3 * (a * b), (2 * a + b), (a * b) / 2]
    ctxs = [lambda x, y: x + y * x, lambda x, y: x * y + y * x, lambda x, y: (x + 1) * (x - y), lambda x, y: x - 2 * x * y, lambda x, y: (3 * x) * y + x / 2, lambda x, y: x * ~x + y * ~y]
    n = 0
    for i, x in enumerate(subs):
        for f in ctxs:
            n += 1
            if th or n % 3 == 0:
                s.add("vga", V, f(x, c))
            s.add("vga", V, f(x, near[i])) if th or n % 2 == 0 else None
    for i, x in enumerate(subs):
        s.add("vga", V, x + x)
        s.add("vga", V, x * a - x * b)
        s.add("vga", V, (2 * x) * a + (3 * x) * b)
        s.add("vga", V, x * x + 2 * x)
        s.add("vga", V, ((x * c) + x) * ((x * c) - x))
    q = sp(a, a)
    for x in (sp(a, b), (a * b)[0], sp(a, a), sp(a, b) + 1, 2 * sp(a, b), sqrt(q), sin(a[1]), 1 / q, cos(a[1] + b[2]), sqrt(2 * q), a[1]):
        s.add("vga", V, x * a + x * b)
        s.add("vga", V, a / x + b / x)
        s.add("vga", V, (a * b) / x + x)
        s.add("vga", V, (x * c) / (x + 1))
        s.add("vga", V, sin(x) + cos(x) * x)
        s.add("vga", V, sin(x) + sin(2 * x) + sin(x + 1))
        s.add("vga", V, x / 2 + x * x / 3 - (2 * x) / q)
    for n, (x, y) in enumerate(((a * b, a * b + c), ((a * b) * c, (a * b) * a), ((a ^ b) + c, (a ^ b) - c), (a + b, a + b + c), (a + b + c, b + c + a), (2 * a + b, a + 2 * b), (a * b - c, 2 * (a * b) - c))):
        for f in (lambda p, q: p * q, lambda p, q: p + q * p, lambda p, q: (p ^ q) + (q ^ p), lambda p, q: p * ~q - q * ~p, lambda p, q: 3 * p - 2 * q, lambda p, q: (p * q) * (p + q)):
            s.add("vga", V, f(x, y))
    for al, t in (("pga", ["plane", "plane", "vgapoint"]), ("pga2", ["line", "line", "point"]), ("cga", ["point", "point", "point"]), ("cga2", ["point", "point", "point"])):
        for e in ((a ^ b) * c + (a ^ b), (a * b) * c * ~(a * b), ((a ^ b) | c) * (a ^ b), (a + b) * c + c * (a + b), sp(a, b) * c + sp(a, b) * a, (a >> b) * (a ^ b) + (a >> b), (a * b + 1) * c - (a * b - 1) * c):
            s.add(al, t, e)
    look(s, th, 1, 0)
    random_progs(s, seed, 40 if not th else 400, ["vga"], depth=3)
    random_progs(s, seed, 14 if not th else 150, ["pga", "pga2"], depth=3)
    for al, n, dg in (("vga", 500, 4), ("pga", 150, 3), ("pga2", 150, 4), ("cga2", 80, 3), ("cga", 60, 3)):
        shared(s, f"C05{seed}", n if not th else 5 * n, al, (4, 5, 6, 8, 10, 14), dg)
    if th:
        random_progs(s, seed, 100, ["vga", "pga", "pga2", "cga2"], depth=4)

# ---- C06 composition of operations -----------------------------------------------------------------
TYPES = {"vga": ["vector", "rotor", "scalar", ent("vga", 3, 5, 6)],
         "pga": ["plane", "vgapoint", "vector", "line", "rotor", "translator", "scalar", "point", "motor"],
         "pga2": ["line", "point", "vector", "scalar"]}
def C06(s, th, seed):
    # every operation on every pair of entity types
    n = 0
    for al, ts in TYPES.items():
        for t, u in itertools.product(ts, ts):
            for k, o in BIN.items():
                n += 1
                big = k == "%" and ("motor" in (t, u) or "rotor" in (t, u))
                if th or al != "pga" and not (k in "+-" and n % 4) or n % 6 == 0 and not big:
                    s.add(al, [t, u], o(a, b))
        for t in ts:
            for i, (k, u) in enumerate(UN.items()):
                if th or (i + len(str(t))) % 3 == 0:
                    s.add(al, [t], u(a))
    # every operation composed with every operation
    V = ["vector", "vector", "vector"]
    n = 0
    for (i, f), (j, g) in itertools.product(enumerate(BIN.values()), enumerate(BIN.values())):
        s.add("vga", V, f(g(a, b), c)) if th or (i + j) % 2 else None
        s.add("vga", V, f(c, g(a, b))) if th or (i + j) % 2 == 0 else None
        s.add("pga2", ["line", "point", "line"], f(g(a, b), c)) if th or (i + j) % 3 == 0 else None
    # operands of mixed grade, so that the order and the grouping of factors matter
    MIX = [("vga", [(1, 3), (0, 2, 6), (4, 5, 7)]), ("vga", [(1, 2, 4, 7), (2, 4, 3), (0, 1, 5)]), ("pga2", [(0, 1, 6), (2, 3, 4), (1, 5, 7)]), ("pga", [(1, 6, 8), (0, 4, 12), (2, 8, 9)]), ("cga2", [(1, 6, 8), (0, 4, 12), (2, 3, 8)])]
    for m, (al, es) in enumerate(MIX):
        T = [ent(al, *x) for x in es]
        for (i, f), (j, g) in itertools.product(enumerate(BIN.values()), enumerate(BIN.values())):
            for k, e in enumerate((f(g(a, b), c), f(a, g(b, c)), f(g(b, a), c), f(b, g(c, a)))):
                if th or m == 0 and k < 2 or (i + j + k + m) % 3 == 0:
                    s.add(al, T, e)
        for (i, f), (j, g) in itertools.product(enumerate(BIN.values()), enumerate(UN.values())):
            for k, e in enumerate((f(g(a), b), f(a, g(b)), g(f(a, b)), f(g(b), g(a)))):
                if th or (i + j + k + m) % 5 == 0:
                    s.add(al, T, e)
        for e in (a ^ b ^ c, a ^ (b ^ c), (a ^ b) ^ (c ^ a), a ^ (b ^ (c ^ b)), ((a ^ b) ^ c) ^ b, a ^ ((b ^ c) ^ a), (a ^ (b ^ c)) ^ b, (a & b) & c, a & (b & c), (a & b) & (c & a), a * (b * c), (a * b) * c, a >> (b >> c), (a >> b) >> c, a | (b | c), (a | b) | c,
                  (2 * a) ^ ((3 * b) ^ (-1 * c)), (a / 2) ^ (b ^ c) ^ (c / 3), ((a + b) ^ c) ^ (a - c), (a + 1) ^ ((b - 2) ^ c), (a * b) ^ ((b * c) ^ a), a ^ ~(b ^ c), a ^ (b ^ c).dual(), ~(a ^ (b ^ c)), (a ^ (b ^ c)).grade(2)):
            s.add(al, T, e)
    for (i, f), (j, g) in itertools.product(enumerate(BIN.values()), enumerate(UN.values())):
        s.add("vga", V, f(g(a), b)) if th or (i + j) % 3 == 0 else None
        s.add("vga", V, f(a, g(b))) if th or (i + j) % 3 == 1 else None
        s.add("vga", V, g(f(a, b))) if th or (i + j) % 3 == 2 else None
    for (i, f), (j, g) in itertools.product(enumerate(UN.values()), enumerate(UN.values())):
        s.add("vga", [full("vga")], f(g(a))) if th or (i + j) % 4 == 0 else None
    random_progs(s, seed, 120 if not th else 600, ["vga", "pga", "pga2"], depth=3)
    powers(s, th)
    pow_fn(s)
    magnitudes(s)
    for al, n, dg in (("vga", 150, 4), ("pga", 200, 3), ("pga2", 150, 4)):
        shared(s, f"C06{seed}", n if not th else 5 * n, al, (3, 4, 5, 6, 8), dg)

# ---- C07 conformal model -------------------------------------------------------------------------
def C07(s, th, seed):
    for al, no, ni in (("cga2", 4, 8), ("cga", 8, 16)):
        g1, g2 = grade(al, 1), grade(al, 2)
        for k, o in BIN.items():
            s.add(al, ["point", "point"], o(a, b))
            if k != "%":
                s.add(al, [g1, "point"], o(a, b))
                s.add(al, ["point", g2], o(a, b))
            if th or al == "cga2":
                s.add(al, [g1, g1], o(a, b))
                s.add(al, [g2, g1], o(a, b))
        for k, u in UN.items():
            s.add(al, ["point"], u(a))
            s.add(al, [g2], u(a))
            s.add(al, [full(al)], u(a)) if th or al == "cga2" else None
        for nm in LITS[al]:
            s.add(al, ["point"], a + lit(2, nm))
            s.add(al, ["point"], a * lit(1, nm))
            s.add(al, ["point"], (a ^ lit(1, nm)))
        for e in range(FULL[al]):
            if th or al == "cga2" or bin(e).count("1") < 3 or e in (7, 11, 24, 28, 31):
                s.add(al, [full(al)], a[e])
                s.add(al, [grade(al, 1), grade(al, 1)], (a * b)[e]) if bin(e).count("1") in (0, 2) else None
        n_o, n_i = lit(1, "no"), lit(1, "ni")
        for e in (n_o * n_i + a * 0 if False else (n_o * n_i) * a, (n_i * n_o) + a, (n_o ^ n_i) + a, (n_o | n_i) + a, (n_o >> n_i) * a, a | n_i, a | n_o, a ^ n_i, (a ^ n_i) ^ b, ((a ^ b) ^ n_i) * lit(1, "ps"),
                  (a ^ b).dual(), (a ^ b ^ c), (a ^ b ^ c).dual(), (a ^ b ^ n_i).dual(), a[ni] + b[no], a[ni] * b, (2 * a)[ni] / 3, (a + b)[ni], (a * b * a), (a * b * a)[ni], sp(a, b), -2 * sp(a, b), sqrt(-2 * sp(a, b)),
                  a / sp(a, b), (a + b) / (a[no]), (a - b) * (a - b), (a * b)[no | ni], (a ^ b)[1 | no], (a ^ b)[1 | ni], (a ^ b)[3], sqrt(a[ni]), sin(a[ni]), 1 / a[ni], (a * b) / a[1], a.grade(1)[ni], (a * b).grade(2), (a * b * c).grade(3),
                  (a * b * c).grade(1), ~(a ^ b ^ c), (a ^ b) & (b ^ c), (a ^ b) >> c, a >> (b ^ c), (a ^ b) | (a ^ c), a % (b - c), (a - b) % c, a + b - 2 * c, (a * b) + (a * b) * c, (a * b) * ~(a * b)):
            s.add(al, ["point", "point", "point"], e)
        L = [lit(1, "e1"), lit(3, "e2"), n_o, n_i, lit(1, "ps"), lit(2, "ips")]
        for x, y in itertools.product(L, L):
            s.add(al, ["scalar"], a * (x * y)) if th or al == "cga2" else None
            s.add(al, ["scalar"], a * (x ^ y) + (x | y)) if th or al == "cga2" else None
    random_progs(s, seed, 60 if not th else 250, ["cga2", "cga"], depth=2)
    random_progs(s, seed, 40 if not th else 200, ["cga2"], depth=3)
    for al, n, dg in (("cga2", 250, 3), ("cga", 160, 3)):
        shared(s, f"C07{seed}", n if not th else 5 * n, al, (3, 4, 5, 6, 8), dg)

# ---- C08 exact cancellation ------------------------------------------------------------------------
def C08(s, th, seed):
    def m(al, t, e):
        s.add(al, t, e, minimal=True)
    V = ["vector", "vector", "vector"]
    for al, t in (("vga", "vector"), ("pga", "plane"), ("pga", "vgapoint"), ("pga", "line"), ("pga2", "line"), ("pga2", "point"), ("cga", "point"), ("cga2", "point"), ("vga", full("vga")), ("pga", "motor")):
        for k, o in PROD.items():
            m(al, [t], o(a, a))
            m(al, [t, t], o(a, b))
        m(al, [t], a - a)
        m(al, [t], a + a - 2 * a)
        m(al, [t], a * ~a)
        m(al, [t], a.grade(1))
        m(al, [t], (a * a).grade(2))
        m(al, [t], a / 2 + a / 3 - (5 * a) / 6)
    for al, t in (("vga", "vector"), ("pga", "plane"), ("pga2", "line"), ("cga2", "point"), ("cga", "point")):
        for e in ((a * b - b * a), (a * b + b * a), (a ^ b) + (b ^ a), (a | b) - (b | a), (a ^ b) - (a * b) + (a | b), (a + b) * (a + b), a * b * ~(b), (a ^ b) ^ a, (a + b) ^ (a - b), (a ^ b) >> a, a - b + b - a, (a * b).grade(2) - (a ^ b), (a * b).grade(0) - (a | b), (a * b)[0] - sp(a, b), (a + b) - (a - b), (a & b) - (b & a), ~(a * b) - b * a):
            m(al, [t, t], e)
    for e in (a * b * a, a * b * a + b, (a ^ b ^ c) + (b ^ a ^ c), (a * b * c).grade(1), (a * b * c).grade(3) - (a ^ b ^ c), (a * b * c) - (a * (b * c))):
        m("vga", V, e)
    # what cancels only if equal monomials of mixed degrees meet
    for e in (a * b * b * a, b * a * a * b, a * a * b * b, a * b * a * b, a * b * a * b * a, a * b * b * b * a, b * a * b * b, a * a * a * b, a * b * c * b * a, c * b * a * a * b * c, a * b * c * c * b, (a * b * c * a).grade(3), a * b * a * c * a, c * a * a * c * b):
        m("vga", V, e)
        m("pga2", ["line", "line", "line"], e)
    for e in (a * b * b * a, a * b * a * b, b * a * b * b):
        m("pga", ["plane", "plane"], e)
        m("cga2", ["point", "point"], e)
        m("pga2", ["line", "point"], e)
    for e in (c * a * c * b, c * a * c * a, (c * a) * (c * b) - (c * c) * (a | b), a * c * d * b * c, c * a * b * d * d * b, d * a * c * c * a):
        m("vga", ["vector", "vector", "scalar", "scalar"], e)
    # an input meets itself as the result of products, so what the two say about a monomial has to agree
    UNIT = {"vga": ["e0", "e1", "e2"], "pga": ["e1", "e2", "e3"], "pga2": ["e1", "e2"], "cga": ["e1", "e3"], "cga2": ["e1", "e2"]}
    for al, ts in TYPES.items():
        for t in list(ts) + [full(al)]:
            for i, nm in enumerate(UNIT[al]):
                if th or i == 0 or t in ("point", "plane", "line", "vgapoint", "vector", "motor", "rotor", "translator"):
                    m(al, [t], a - (a * lit(1, nm)) * lit(1, nm))
                    m(al, [t], lit(1, nm) * (lit(1, nm) * a) - a)
            m(al, [t], a - ~(~a) + lit(1, UNIT[al][0]))
            m(al, [t, "scalar"], a * b - b * a)
    for al in ("cga", "cga2"):
        m(al, ["point"], a - (a * lit(1, "e2")) * lit(1, "e2"))
        m(al, ["point"], a - lit(1, "e1") * (lit(1, "e1") * a))
        for nm in LITS[al]:
            m(al, ["point"], lit(1, nm) - (lit(1, nm) * lit(1, "e1")) * lit(1, "e1"))
            m(al, ["point"], lit(1, nm) + a - lit(1, nm))
            m(al, ["scalar"], a * lit(1, nm) - lit(1, nm) * a)
    for e in ((0 * a) / b, (a - a) / b, (0 * a) * b, 0 * (a / b), (a / b) - (a / b), (a / 2) / b - a / (2 * b)):
        m("vga", ["vector", "scalar"], e)
        m("pga", ["plane", "scalar"], e)
    for x in ("rotor",):
        m("vga", ["vector", x], a % b)
        m("vga", [x], a * ~a)
    for x in ("vgapoint", "plane", "line"):
        for r in ("translator", "rotor"):
            m("pga", [x, r], a % b)
    m("pga", ["rotor"], a * ~a); m("pga", ["translator"], a * ~a); m("pga", ["motor"], a * ~a)
    sc = ["scalar"] * 3
    for e in ((a + b) * (a - b) - a * a + b * b, a * b * c - c * b * a, (a - b) * (b - c) - a * b + a * c + b * b - b * c, (a + b) * (c + 1) - a * c - b * c - a - b, 3 * (a + b) / 2 - a - b - a / 2 - b / 2):
        m("vga", sc, e)
        m("vga", sc, e + a)
        m("vga", sc, (e * lit(1, "e1")) + lit(1, "e12"))
    # repeated subexpressions are computed once, and a cancellation across them is not visible to the library: value only
    for e in ((a + b + c) * (a + b + c) - a * a - b * b - c * c - 2 * (a * b + b * c + c * a), a * a * a - b * b * b - (a - b) * (a * a + a * b + b * b)):
        s.add("vga", sc, e)
        s.add("vga", sc, e + a)
    for n in (1, 2, 3, 5):
        m("vga", V, (n * a) * b - (n * b) * a)
        m("vga", V, (a / n) ^ (n * b))
    m("vga", V, 0 * a)
    m("vga", V, (0 * a) * b + c)
    m("vga", V, (a - a) * b)
    for al in ("pga", "pga2"):
        for nm in LITS[al]:
            m(al, ["scalar"], (a * lit(1, nm)) * lit(2, nm))
            m(al, ["scalar"], (a * lit(1, nm)) ^ lit(2, nm))
    if th:
        for al in ("vga", "pga2", "cga2"):
            ts = [grade(al, g) for g in range(FULL[al].bit_length())]
            for t, u in itertools.product(ts, ts):
                for k, o in PROD.items():
                    m(al, [t, u], o(a, b))

    def compound(e, out):
        """texts of the subexpressions the library may share"""
        if e.op in ("neg", "in", "lit", "comp", "grade") or e.op[0] == "i" and e.op[1:] in ("gp", "div"):
            for x in e.a:
                compound(x, out)
            return out
        out.append(repr_(e))
        if e.op == "rp":        # written by means of complements
            out += [f"dual{e.k}({repr_(x)})" for x in e.a]
        for x in e.a:
            compound(x, out)
        return out
    def repr_(e):
        if e.op in ("neg",) or e.op[0] == "i" and e.op[1:] in ("gp", "div"):
            return repr_(e.a[0])
        return f"{e.op}{e.k}({','.join(map(repr_, e.a))})"
    for al, n, dg in (("vga", 160, 4), ("pga", 100, 3), ("pga2", 100, 4), ("cga2", 60, 3), ("cga", 40, 2)):
        k = got = 0
        while got < (n if not th else 4 * n) and k < 40 * n:
            g = Gen(f"C08{seed}-{k}", al, depth=2 + k % 2, div=False, fn=False, sand=False)
            k += 1
            e = g.expr()
            cs = compound(e, [])
            if len(cs) == len(set(cs)) and cs:
                got += s.add(al, g.types, e, minimal=True) is not None

# ---- C13 scalar functions, constants, quotients ----------------------------------------------------
def C13(s, th, seed):
    V = ["vector", "vector"]
    args = [a[1], (a * b)[0], sp(a, b), 2 * a[2], a[1] / 3, a[1] + b[2], a[1] * b[1], -a[4], a[1] + 1, 2 - a[1], (a | b)[0], a[1] - b[1], (3 * a[1]) / 2, a.grade(1)[2], sp(a, a), (a + b)[1], (-2 * (a * b))[0]]
    for i, x in enumerate(args):
        for j, f in enumerate((sqrt, sin, cos, tan)):
            s.add("vga", V, f(x))
            if th or (i + j) % 3 == 0:
                s.add("vga", V, 2 * f(x) + 1)
                s.add("vga", V, f(x) * a)
                s.add("vga", V, f(x) * f(x) + f(x))
                s.add("vga", V, b / f(x))
                s.add("vga", V, f(2 * f(x)))
                s.add("vga", V, f(x + x))
        s.add("vga", V, 1 / x)
        s.add("vga", V, 3 / (2 * x))
        s.add("vga", V, -2 / x + 1)
        s.add("vga", V, a / x)
        s.add("vga", V, (2 * a) / (3 * x))
        s.add("vga", V, (a * b) / x + b / 2)
        s.add("vga", V, (a / x) / x)
        s.add("vga", V, a / (x / a[1]))
        s.add("vga", V, (a / x) * (b / x))
        s.add("vga", V, 1 / (1 / x + 1))
    for e in (PI * a, a / PI, PI * a[1], E * a, a / E, PI * (E * a), 2 * (PI * a), (PI * a) / 2, PI * a + 1, E * a - b, PI * a - PI * a, PI * (PI * a), sin(PI * a[1]), cos(2 * (PI * a[1])) * b, (a / PI) / 2, sqrt(PI * a[1]) * a,
              tan(E * a[1]), a * PI, sqrt(E * a[1]), PI * a - E * a, (PI * a) / E, (a * b) * PI, PI * (a * b) + a, sin((PI * a[1]) / 2) * a, (PI * a) * (PI * b), (a / PI) * (PI * b), E * (a ^ b), PI * (a + b), (PI * (a - b)).grade(1), (E * a)[1], ~(PI * (a * b)), (PI * a).dual(), PI * sqrt(a[1]), 1 / (PI * a[1])):
        s.add("vga", V, e)
    for C in (PI, E):
        for q in (2 * C, C * 3, C / 2, -1 * C, (3 * C) / 4, 2 * (C * 5), (C / 7) * -2, C):
            for f in (lambda q: q * a, lambda q: a * q, lambda q: (q * a) * b, lambda q: sin(q * a[1]) * b, lambda q: q * a + b, lambda q: (a + b) * q - a, lambda q: a / q, lambda q: q / a[1], lambda q: (q * sqrt(a[1])) * b, lambda q: q * (2 * a - b) / 3, lambda q: (q * a) * (q * b)):
                s.add("vga", V, f(q))
        for al, t in (("pga", "plane"), ("pga2", "line"), ("cga", "point"), ("cga2", "point")):
            for e in (C * a, a * C, (2 * C) * a + b, (C * a) ^ b, a / C, C / (a[1]), sin(C * a[1]) * b, (C / 2) * (a * b), [C * a, b], (C * a)[1]):
                s.add(al, [t, t], e)
    sc = ["scalar"] * 3
    for e in (a / b, (a * a) / b, (a / b) * b, a / b + b / a, a / (b * c), a / (b + c), (a + b) / (a - b), (a / b) / c, a / (b / c), 1 / (a * a), 1 / (a * b + c), (a + 1) / (b - 1), sqrt(a) * sqrt(a), sqrt(a * b) / sqrt(a), sin(a) * sin(a) + cos(a) * cos(a), sin(a) / cos(a), tan(a) * cos(a), sqrt(1 / a), sqrt(a / b), 1 / sqrt(a * a + b * b), sin(a / b), sin(a) / a, a / a, (a * b) / (b * a), sqrt(a * a + b * b + c * c), 2 / a - 2 / b, (2 / a) / 3, sin(sin(a)), cos(sqrt(a) + 1), sqrt(sin(a) + 2)):
        s.add("vga", sc, e)
    for al, t in (("pga", ["plane", "line"]), ("pga2", ["line", "point"]), ("cga2", ["point", "point"]), ("cga", ["point", "point"])):
        for x in (sp(a, a), (a * ~a)[0], a[1], (a * b)[1 if al != "cga2" else 3], sp(a, b)):
            for e in (a / x, b / sqrt(x), sin(x) * a, 2 / x, cos(x / 2) + b, (a * b) / x):
                s.add(al, t, e)
    random_progs(s, seed, 30 if not th else 300, ["vga"], depth=3, lits=False)
    for x, y in ((a[1], b), (b[1], a), (a[4], a), (a[2], b * c), (c[1], a ^ b), (b[2], a + c)):
        for e in ((y / x) * x - y, (x * y) / x - y, y / x - (2 * y) / (2 * x), (y / x) * x + c - y, (y / x) / x - (y / x) / x, ((y / x) * x) * x - x * y, (3 * y) / x - y / x - (2 * y) / x, (c * x) / x - c, (y * c) / x - y * (c / x)):
            s.add("vga", ["vector"] * 3, e)
    for x, y, z in ((a, b, c), (b, a, c), (c, a, b), (b, c, a)):
        for e in ((y / x) * x - y, (x * y) / x - y, (z * y) / x - z * (y / x), (y * z) / x - (z / x) * y, ((y / x) * z) * x - y * z, (y / x) * (x / z) - y / z, 1 / x - y / (x * 1 if False else x) / y, (x * x * y) / x - x * y, (y / x + z / x) * x - y - z, (y + z) / x - y / x - z / x, (1 / x) * x - 1, (y * (1 / x)) - y / x, ((y / x) / z) * x - y / z):
            s.add("vga", sc, e)
            s.add("vga", sc, e + x)
            s.add("vga", sc, (e * lit(1, "e1")) + x)
    nests(s, th)
    powers(s, th, 11)
    for al, n, dg in (("vga", 250, 4), ("pga", 80, 3), ("pga2", 80, 3), ("cga2", 60, 3), ("cga", 40, 2)):
        shared(s, f"C13{seed}", n if not th else 5 * n, al, (3, 4, 5, 6, 8), dg, heavy=True)

# ---- C14 several results -----------------------------------------------------------------------------
def C14(s, th, seed):
    V = ["vector", "vector", "vector"]
    E_ = [a, a * b, (a ^ b), a + b, 2 * a - b, a - a, sp(a, b), sp(a, b) * c, a / sp(b, b), sqrt(sp(a, a)), (a * b) * c, a.dual(), (a * b).grade(2), a[1], lit(1, "e1"), 3 * (a * b), (a + b) * (a + b), sin(a[1]) * b, (a * b) / 2 + 1, 0 * a]
    for i, x in enumerate(E_):
        for j, y in enumerate(E_):
            if th or (i * 3 + j) % 4 == 0:
                s.add("vga", V, [x, y])
    for i in range(40 if not th else 200):
        s.add("vga", V, [E_[(i * k + k * k + 1) % len(E_)] for k in (1, 3, 7)])
        if i % 2 == 0:
            s.add("vga", V, [E_[(i * k + 2 * k) % len(E_)] for k in (1, 2, 5, 9)])
    s.add("vga", V, [E_[k] for k in (0, 1, 2, 3, 4, 6)])
    s.add("vga", V, [E_[k] for k in (1, 5, 1, 15, 11, 19, 8)])
    for al, t in (("pga", ["plane", "plane", "vgapoint"]), ("pga2", ["line", "line", "point"]), ("cga", ["point", "point", "point"]), ("cga2", ["point", "point", "point"])):
        for e in ([a ^ b, c], [a ^ b, (a ^ b) ^ c], [a & c, a * b], [a - a, b], [a, a - a], [a * b, (a * b) * c, a * b], [sp(a, b), sp(a, b) * c, a / (sp(a, b) + 2)], [2 * (a ^ b), 3 * (a ^ b)], [a, b, c, a + b + c]):
            s.add(al, t, e)
    for al, n, dg in (("vga", 200, 4), ("pga", 80, 3), ("pga2", 80, 3), ("cga2", 60, 3), ("cga", 40, 2)):
        for m in (2, 3, 4, 6):
            shared(s, f"C14{seed}", (n if not th else 5 * n) // 4, al, (3, 4, 5, 6, 8), dg, results=m)
    # the documented std::make_tuple spelling
    for x, y in ((a, b), (a * b, (a * b) * c), (a ^ b, a | b), (2 * a, a / 3), (a - a, b), (sp(a, b), c)):
        p = s.add("vga", V, [x, y])
        if p is None:
            p = expr_prog(f"p{len(s.items)}", "vga", V, [x, y])
        q = expr_prog(f"p{len(s.items)}", "vga", V, [x, y])
        q.body = [l.replace("gal::make_tuple", "std::make_tuple") for l in q.body]
        q.desc += " [std::make_tuple]"
        s.raw(q)

# nested functions and quotients without anything in between, and monomials of high degree
def nests(s, th):
    for f in (sin, cos, sqrt, tan, lambda x: 1 / x, lambda x: 2 / x, lambda x: a / x, lambda x: x / a, lambda x: sin(2 * x), lambda x: (3 * sqrt(x)) / 2, lambda x: cos(x + 1)):
        for t in ("scalar", "float"):
            e = b
            for n in range(1, 6 if not th else 9):
                e = f(e)
                s.add("vga", [t, "scalar"], e)
                s.add("vga", ["scalar", t], [e, b]) if n < 4 else None
                s.add("vga", [t, "scalar"], e * e + b) if n < 4 else None
    fs = [sin, cos, sqrt, lambda x: 1 / x]
    for p in itertools.product(fs, repeat=3):
        s.add("vga", ["scalar"], p[0](p[1](p[2](a))))
        s.add("vga", ["vector", "vector"], p[0](p[1](p[2](a[1]))) * b)
    for al, t in (("pga", "plane"), ("pga2", "line"), ("cga2", "point"), ("cga", "point")):
        for p in itertools.product(fs, repeat=2):
            s.add(al, [t, t], p[0](p[1](p[0](a[1]))) * b)
            s.add(al, [t, "scalar"], a / p[0](p[1](b)))
def powers(s, th, top=20):
    def pw(x, n):
        r = x
        for _ in range(n - 1):
            r = r * x
        return r
    for n in range(2, top):
        s.add("vga", ["scalar", "scalar"], (pw(a, n) * pw(b, top - n)) / 2)
        s.add("vga", ["scalar", "vector"], pw(a, n) * b) if n % 2 else s.add("vga", ["float", "scalar"], pw(a, n) - b, T="float" if n < 9 else "double")
        s.add("vga", ["vector", "scalar"], a / pw(b, n))
        s.add("vga", ["scalar", "scalar"], [pw(a, n), b])
        e = b
        for _ in range(n):
            e = e / a
        s.add("vga", ["scalar", "scalar"], e) if n < 12 else None

def pow_fn(s):
    """the power function behind repeated factors"""
    for n in range(-17, 40):
        for T in ("double", "float") if abs(n) < 6 else ("double",):
            def want(c, x, n=n):
                r = c.const(1)
                for _ in range(abs(n)):
                    r = r * x[0]
                return [r if n >= 0 else c.const(1) / r]
            p = geo.P(f"power {n}", 1, f"OUT(0, gal::pow(x0, std::integral_constant<int, {n}>{{}}, std::integral_constant<int, 1>{{}}));", want, ["vga"], T)
            p.internal = True
            s.raw(p)

NUMS = [17, 97, 128, 129, 255, 256, 500, 1000, 1001, 4096, 12345, 65536, 99991, 1048577]
DENS = [7, 16, 63, 64, 100, 127, 128, 129, 200, 255, 256, 500, 511, 512, 513, 1000, 1023]
def magnitudes(s, linear=False):
    """numbers large enough to notice a narrow field or a lost digit"""
    for i, n in enumerate(NUMS):
        s.add("vga", ["vector", "vector"], n * a - b)
        s.add("vga", ["vector", "vector"], (a + b) - n)
        s.add("vga", ["vector", "vector"], (n * (a - b)) / 11)
        s.add("pga", ["plane", "plane"], (n * a + -n * b) / 3)
        if not linear:
            s.add("vga", ["vector", "vector"], (n * a) * b)
            s.add("vga", ["vector", "vector"], -n * (a * b) / 13)
            s.add("vga", ["vector", "vector"], [(n * (a * b)) / 13, a * b])
            s.add("pga2", ["line", "point"], (a ^ (n * b)) + n)
            s.add("vga", ["scalar", "vector"], (a - n) * (b + lit(3, "e1")))
    for i, n in enumerate(DENS):
        s.add("vga", ["vector", "vector"], a / n - b)
        s.add("vga", ["vector", "vector"], (a + b) / -n)
        s.add("pga", ["plane", "plane"], (NUMS[i % 9] * a + b) / n)
        s.add("cga2", ["point", "point"], a - (DENS[-i] * b) / n)
        if not linear:
            s.add("vga", ["vector", "vector"], (a / n) * b)
            s.add("vga", ["vector", "vector"], (a * b) / n + b * a)
            s.add("pga2", ["line", "point"], (a & b) / n + 1)

# ---- C16 size -----------------------------------------------------------------------------------------
def C16(s, th, seed):
    pow_fn(s)
    def chain(op, xs):
        r = xs[0]
        for x in xs[1:]:
            r = op(r, x)
        return r
    def rchain(op, xs):
        r = xs[-1]
        for x in reversed(xs[:-1]):
            r = op(x, r)
        return r
    ins = [inp(i) for i in range(12)]
    sc = ["scalar"] * 12
    for n in (2, 3, 4, 5, 6, 8, 10, 12):
        V = ["vector"] * n
        s.add("vga", V, chain(lambda x, y: x + y, ins[:n]))
        s.add("vga", V, rchain(lambda x, y: x - y, ins[:n]))
        s.add("vga", V, chain(lambda x, y: 2 * x - y, ins[:n]))
        s.add("vga", sc[:n], chain(lambda x, y: x * y, ins[:n]))
        s.add("vga", sc[:n], rchain(lambda x, y: x * y + 1, ins[:n])) if n <= 8 else None
        s.add("vga", sc[:n], chain(lambda x, y: (x + y) / 2, ins[:n]))
        s.add("vga", sc[:n], [ins[i] + i for i in range(n)])
        s.add("vga", sc[:n], chain(lambda x, y: x + y, [ins[i] * ins[(i + 1) % n] for i in range(n)]))
        s.add("vga", sc[:n], chain(lambda x, y: x - y, [(i + 1) * ins[i] for i in reversed(range(n))]))
        s.add("vga", V[:n], chain(lambda x, y: x + y, [ins[i][1 << (i % 3)] for i in range(n)]))
    for n in range(2, 25):
        pw = chain(lambda x, y: x * y, [a] * n)
        s.add("vga", ["scalar"], pw)
        s.add("vga", ["scalar", "scalar"], (pw * b) / 3 - a) if n % 2 else s.add("vga", ["float", "scalar"], 1 / pw + b)
        s.add("vga", ["scalar"], pw, T="float") if n < 14 else None
    x = a
    for n in (4, 6, 8, 10, 14):
        s.add("vga", ["scalar"], chain(lambda x, y: x * y, [a] * n))
        s.add("vga", ["scalar", "scalar"], chain(lambda x, y: x * y, [a, b] * (n // 2)))
        s.add("vga", ["scalar"], chain(lambda x, y: x + y, [chain(lambda p, q: p * q, [a] * k) if k > 1 else a for k in range(1, n // 2 + 1)]))
        s.add("vga", ["scalar", "scalar"], chain(lambda x, y: x * y, [a + k * b for k in range(1, n // 2 + 1)]))
        s.add("vga", ["vector"] * 2, chain(lambda x, y: x * y, [a, b] * (n // 2))) if n <= 6 else None
        e = a
        for k in range(n):
            e = (e + b) / 2 if k % 2 else 2 * (e - 1)
        s.add("vga", ["scalar", "scalar"], e)
        e = a
        for k in range(n):
            e = ~e if k % 3 == 0 else (-e if k % 3 == 1 else e.dual())
        s.add("vga", [full("vga")], e)
        e = a[1]
        for k in range(min(n, 6)):
            e = sin(e) if k % 2 else cos(e + k)
        s.add("vga", ["vector"], e)
    nests(s, th)
    for n in (2, 3, 4):
        V = ["vector"] * n
        s.add("vga", V, chain(lambda x, y: x ^ y, ins[:n]))
        s.add("vga", V, chain(lambda x, y: x & y, ins[:n]))
        s.add("vga", V, chain(lambda x, y: x * y, ins[:n]))
        s.add("pga", ["plane"] * n, chain(lambda x, y: x ^ y, ins[:n]))
        s.add("pga", ["vgapoint"] * n, chain(lambda x, y: x & y, ins[:n]))
        s.add("pga2", ["line"] * n, chain(lambda x, y: x ^ y, ins[:n]))
        s.add("cga2", ["point"] * n, chain(lambda x, y: x ^ y, ins[:n]))
        s.add("cga", ["point"] * n, chain(lambda x, y: x ^ y, ins[:n])) if n < 4 or th else None
    for n in (5, 9, 16):
        # many repeated subexpressions
        t = [(ins[i % 3] * ins[(i + 1) % 3]) * (i + 1 if False else ins[i % 2]) for i in range(n)]
        s.add("vga", sc[:3], chain(lambda x, y: x + y, t))
        t = [1 / (ins[i % 3] + i) for i in range(min(n, 9))]
        s.add("vga", sc[:3], chain(lambda x, y: x + y, t))
        s.add("vga", ["vector"] * 3, chain(lambda x, y: x + y, [(ins[i % 3] * ins[(i + 1) % 3])[0] * ins[i % 3] for i in range(n)]))
    for al, t in (("pga", "plane"), ("pga2", "line"), ("cga2", "point"), ("cga", "point")):
        for n in (6, 10):
            s.add(al, [t] * n, chain(lambda x, y: x + y, ins[:n]))
            s.add(al, [t] * n, rchain(lambda x, y: x - 2 * y, ins[:n]))
            s.add(al, [t] * n, [ins[n - 1 - i] for i in range(n)])
    for t, u in (("motor", "motor"), ("motor", "line")):
        s.add("pga", [t, u], a * b)
        s.add("pga", [t, u], a * b * ~a) if th else None
    s.add("pga", ["vgapoint", "rotor", "translator"], (a % b) % c) if th else None
    s.add("vga", ["vector", "rotor", "rotor"], (a % b) % c) if th else None
    random_progs(s, seed, 8 if not th else 60, ["vga"], depth=5, nin=3)
    for al, n, st, dg in (("vga", 150, (14, 18, 24, 30, 40), 4), ("pga", 60, (10, 14, 18), 3), ("pga2", 60, (12, 16, 24), 3), ("cga2", 40, (10, 12, 14), 3), ("cga", 20, (8, 10), 2)):
        shared(s, f"C16{seed}", n if not th else 4 * n, al, st, dg, nin=3)
        shared(s, f"C16r{seed}", (n if not th else 4 * n) // 5, al, st, dg, nin=4, results=7)

# ---- C17 literals -------------------------------------------------------------------------------------
def C17(s, th, seed):
    for al in (m for m in LITS if LITS[m]):
        t = {"vga": "vector", "pga": "plane", "pga2": "line", "cga": "point", "cga2": "point"}[al]
        names = sorted(LITS[al])
        for nm in names:
            s.add(al, ["scalar"], a + lit(1, nm))
            s.add(al, ["scalar"], a * lit(3, nm))
            s.add(al, [t], a - lit(2, nm))
            s.add(al, [t], lit(1, nm) * a)
            s.add(al, [t], (a ^ lit(2, nm)) / 2)
            s.add(al, [t], [lit(7, nm), a])
        for i, x in enumerate(names):
            for j, y in enumerate(names):
                if th or (i + j) % 3 == 0:
                    s.add(al, ["scalar"], a * (lit(1, x) * lit(2, y)))
                if th or (i + j) % 3 == 1:
                    s.add(al, ["scalar"], a + (lit(3, x) ^ lit(1, y)) - lit(1, x))
                if th:
                    s.add(al, ["scalar"], a + (lit(3, x) | lit(1, y)) * lit(2, x))
        shared(s, f"C17{seed}", 60 if not th else 300, al, (3, 4, 5, 6), 3, lits=3, fn=None, nin=1)
        s.add(al, ["scalar"], a + lit(0, names[0]))
        s.add(al, ["scalar"], a + lit(1000, names[-1]) / 7)

# ---- C18 inputs ------------------------------------------------------------------------------------------
def C18(s, th, seed):
    for al, ts in (("vga", ["vector", "rotor", "scalar", "float", ent("vga", 0, 6), ent("vga", 1, 2, 4)]), ("pga", ["plane", "vgapoint", "line", "float", "translator", ent("pga", 3, 12)]),
                   ("pga2", ["line", "point", "float", "scalar"]), ("cga", ["point", "float", "scalar", ent("cga", 8, 16)]), ("cga2", ["point", "float", "scalar", ent("cga2", 4, 8)])):
        for T in ("double", "float"):
            for i, (x, y) in enumerate(itertools.product(ts, ts)):
                if T == "float" and not th and i % 2:
                    continue
                s.add(al, [x, y], a + 2 * b, T=T)
                s.add(al, [x, y], b * a, T=T) if th or i % 2 else None
                s.add(al, [x, y], b, T=T)
                s.add(al, [x, y], a, T=T)
            for i, t in enumerate(itertools.product(ts, repeat=3)):
                if not th and i % 19:
                    continue
                s.add(al, t, a - 2 * c + 3 * b, T=T)
                s.add(al, t, c + 1, T=T)
                s.add(al, t, [c, b, a], T=T)
                s.add(al, t, (a + c) * b, T=T) if th else None
    for t in (["float", "float"], ["float", "vector"], ["vector", "float", "float"], ["float", "float", "float", "vector"], ["scalar", "float"], ["float", "rotor"]):
        n = len(t)
        for e in (inp(0) * inp(n - 1), inp(n - 1) / inp(0) if t[0] != "vector" else inp(0) / inp(1), sin(inp(0)) if t[0] in ("float", "scalar") else cos(inp(1)), inp(n - 1) - inp(0), 3 * inp(0) + 1):
            s.add("vga", t, e)
            s.add("vga", t, e, T="float")
    # inputs that hold nothing, before and between the others
    for al, ts in (("vga", ["vector", ent("vga"), "float"]), ("pga", ["plane", ent("pga"), "vgapoint"]), ("pga2", ["point", ent("pga2")]), ("cga2", ["point", ent("cga2"), "scalar"]), ("cga", [ent("cga"), "point"])):
        for T in ("double", "float"):
            for i, t in enumerate(itertools.product(ts, repeat=3)):
                s.add(al, t, c - 2 * b + a, T=T)
                s.add(al, t, [c, a], T=T) if i % 3 == 0 else None
                s.add(al, t, b + 3, T=T) if i % 3 == 1 else None
                s.add(al, t, (a + b) ^ c, T=T) if i % 3 == 2 else None
    # inputs of many components
    for al, ts in (("pga", [full("pga"), "motor", ent("pga", *range(1, 12)), "float"]), ("cga", [full("cga"), grade("cga", 2), ent("cga", *range(3, 30, 2)), "scalar"]), ("cga2", [full("cga2"), "point", grade("cga2", 1, 2)]), ("vga", [full("vga"), "rotor", "float"]), ("pga2", [full("pga2"), "point"])):
        for T in ("double", "float"):
            for i, t in enumerate(itertools.product(ts, repeat=2)):
                s.add(al, t, b, T=T)
                s.add(al, t, a - 2 * b, T=T)
                s.add(al, list(t) + [ts[i % len(ts)]], c + a, T=T)
                s.add(al, list(t) + [ts[(i + 1) % len(ts)]], [c, b], T=T)
            for e in range(FULL[al]):
                s.add(al, [ts[1], full(al)], b[e] + 1, T=T) if e % 3 == 0 or th else None
    # same entity passed twice, unused inputs
    V = ["vector"] * 4
    for e in (a, b, c, d, a + d, d - b, b * c, [d, c], [b, d, a], sp(d, b), (c ^ a) + d):
        s.add("vga", V, e)
    random_progs(s, seed, 8 if not th else 100, ["vga", "pga", "pga2"], depth=2, nin=3)
    for al in ("vga", "pga", "pga2", "cga2", "cga"):
        for m in (4, 5, 6):
            shared(s, f"C18{seed}", 24 if not th else 120, al, (3, 4, 6), 2, T=("double", "float"), nin=m, lits=0, fn=None if m == 5 else True)

# ---- C19 computed results as arguments -----------------------------------------------------------------
def inner(e):
    """operation nodes below the root, innermost first"""
    out, seen = [], set()
    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        for y in x.a:
            go(y)
        if x.a:
            out.append(x)
    for x in (e if isinstance(e, list) else [e]):
        for y in x.a:
            go(y)
    return out

def C19(s, th, seed):
    V = {"vga": ["vector", "vector", "rotor"], "pga": ["plane", "vgapoint", "line"], "pga2": ["line", "point", "line"], "cga2": ["point", "point", "point"], "cga": ["point", "point", "point"]}
    def leaves():
        return [a * b, a ^ b, a | b, a & b, a >> b, sp(a, b), a + b, 2 * a - b / 3, ~(a * b), (a * b).dual(), a.dual(), a % b, a - a, a * 0 if False else 0 * a, (a - a) + 3, 1 + 0 * b, (a * b)[0], (a * b).grade(2), a[1], (a ^ b) ^ c, a * b - b * a, (a - a) * b + c, sqrt(sp(a, a) + sp(b, b)), a / (1 + sp(a, a)), (a * b) / 7]
    for al, ts in V.items():
        n = len(leaves())
        for i in range(n):
            for j, g in enumerate((lambda x: x, lambda x: x + a, lambda x: x * b, lambda x: c * x + x, lambda x: ~x - 2 * x, lambda x: [x, a + x], lambda x: x.dual() ^ a, lambda x: x * x + 1, lambda x: (x ^ a) + (x | b), lambda x: x[0] * a + x.grade(1))):
                if th or al == "vga" and (i + j) % 2 == 0 or (i + j) % (3 if al != "cga" else 6) == 0:
                    if al in ("pga", "cga") and leaves()[i].op == "sand":
                        continue
                    x = leaves()[i]
                    s.staged(al, ts, [x], g(x))
        for i in range(n):
            for j in range(n):
                if (i * 7 + j) % (5 if th else 23 if al != "cga" else 41) == 0:
                    x, y = leaves()[i], leaves()[j]
                    if "sand" in (x.op, y.op):
                        continue
                    s.staged(al, ts, [x, y], x + 2 * y)
                    s.staged(al, ts, [(x, y)], y - x * 3 if False else y - 3 * x + a)
                    z = x + y
                    s.staged(al, ts, [x, z], z * x if al != "cga" else z - x)
        # an earlier result appears again, unused results, results of results
        x = a ^ b
        y = x * c
        z = x + y
        s.staged(al, ts, [x, y, z], z - y - x)
        s.staged(al, ts, [x, y], a + b)
        s.staged(al, ts, [(x, a - a, y)], [x, y, a])
    for al, t, x, as_ in (("vga", ["vector"] * 3, a + 2 * b, "vector"), ("vga", ["vector"] * 3, sp(a, b) * c, "vector"), ("vga", ["vector"] * 3, (a - a), "vector"), ("vga", ["vector"] * 3, (a ^ b).dual(), "vector"),
                          ("pga", ["vgapoint"] * 3, (a & b) & c, "plane"), ("pga", ["vgapoint"] * 3, a & b, "line"), ("pga", ["plane"] * 3, a ^ b, "line"), ("pga", ["plane"] * 3, (a ^ b) ^ c, "point"), ("pga", ["plane"] * 3, a * b, "motor"), ("pga", ["plane"] * 3, a + b, "plane"),
                          ("pga", ["rotor", "translator", "scalar"], a * b, "motor"), ("pga", ["vgapoint"] * 3, a - b, "vector"), ("pga2", ["point"] * 3, a & b, "line"), ("pga2", ["point"] * 3, a - b, "vector"), ("pga2", ["line"] * 3, a - 3 * b, "line")):
        for g in (lambda v: v, lambda v: v + v * c, lambda v: 2 * v - a, lambda v: (v ^ c) + v, lambda v: [v, b], lambda v: v * v):
            s.staged(al, t, [[x, as_]], g(x))
    for al, n, dg in (("vga", 300, 4), ("pga", 100, 3), ("pga2", 150, 4), ("cga2", 80, 3), ("cga", 60, 3)):
        for k in range(n if not th else 5 * n):
            r = random.Random(f"C19{seed}{al}{k}")
            g = Share(f"C19{seed}-{k}", al, steps=(3, 4, 5, 6, 8)[k % 5], maxdeg=dg, results=1 + k % 2 * (k % 3), fn=None if k % 7 == 3 else True)
            e = g.expr()
            nodes = inner(e)
            if not nodes:
                continue
            pos = sorted(r.sample(range(len(nodes)), min(len(nodes), 1 + k % 3)))
            cuts = [nodes[i] for i in pos]
            if k % 4 == 3 and len(cuts) > 1:
                cuts = [tuple(cuts[:2])] + cuts[2:]
            s.staged(al, g.types, cuts, e, **({"T": "float"} if k % 7 == 3 else {}))

def C15(s, th, seed):
    s.h(I.bits(), I.containers(), I.crc())
    for n in (2, 3, 4, 5, 6):
        s.h(I.sorts(n))
    s.h(I.sorts(7, 2), I.sorts(8, 8, True), I.sorts(9, 1))
    if th:
        s.h(I.sorts(7), I.sorts(8, 2), I.sorts(10, 10, True))
    for n in range(1, 7):
        for p in range(n + 1):
            for v in range(n - p + 1):
                s.h(I.spans((p, v, n - p - v)))

def C09(s, th, seed):
    for p in geo.conversions(th):
        s.raw(p)
def C10(s, th, seed):
    for p in geo.geometry(th):
        s.raw(p)
    for p in geo.geometry2(th):
        s.raw(p)
def C11(s, th, seed):
    for p in geo.normalize(th):
        s.raw(p)
def C12(s, th, seed):
    for p in geo.explog(th):
        s.raw(p)
def C20(s, th, seed):
    for p in geo.texts(th):
        s.raw(p)

def C21(s, th, seed):
    for n in (1, 2, 3):
        for f in (0, 1, 2, 3):
            s.h(I.ids_step(n, f))
    s.h(I.ids_history(2, 3), I.ids_history(3, 3))
    if th:
        s.h(I.ids_step(4, 4), I.ids_history(2, 4))

ALL = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}

# a share of the client programs of other properties that also fall under this one
from .info import CROSS

def suite(pid, thorough, seed):
    s = S()
    ALL[pid](s, thorough, seed)
    if pid in CROSS:
        every, others = CROSS[pid]
        for o in others.split():
            t = S()
            ALL[o](t, thorough, seed)
            ps = [x for x in t.items if isinstance(x, Prog) and not x.approx and not x.minimal and not x.internal]
            for i, p in enumerate(ps):
                if (i + int(o[1:])) % every == 0:
                    s.raw(p)
    names = set()
    for i, x in enumerate(s.items):
        if isinstance(x, Prog):
            x.name = f"{pid}_{i}"
    return s.items
