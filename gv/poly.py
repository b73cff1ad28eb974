"""Exact real arithmetic for symbolic execution: rational functions over Q in the program inputs and in opaque
transcendental values (sqrt, sin, cos, tan, atan2).  Monomials are packed exponent vectors (10 bits per variable)."""
from fractions import Fraction
import math
import z3

W = 10
MASK = (1 << W) - 1

class Blowup(Exception):
    pass

LIMIT = 60000

def norm(c):
    return c.numerator if c.__class__ is Fraction and c.denominator == 1 else c

def p_const(c):
    c = norm(c)
    return {0: c} if c else {}

def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r

def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if m == 0:
            return dict(b) if c == 1 else {k: norm(v * c) for k, v in b.items()}
        return {k + m: norm(v * c) for k, v in b.items()}
    r = {}
    g = r.get
    for m, c in a.items():
        for k, v in b.items():
            t = m + k
            r[t] = g(t, 0) + c * v
    if len(r) > LIMIT:
        raise Blowup("polynomial too large")
    return {k: norm(v) for k, v in r.items() if v}

def p_scale(a, c):
    c = norm(c)
    return {k: norm(v * c) for k, v in a.items()} if c else {}

def p_pow(a, n):
    r = {0: 1}
    for _ in range(n):
        r = p_mul(r, a)
    return r

def p_vars(a):
    o = 0
    for m in a:
        o |= m
    r = []
    i = 0
    while o:
        if o & MASK:
            r.append(i)
        o >>= W
        i += 1
    return r

class Ctx:
    """variables, opaque functions and denominator factors of one program"""
    def __init__(self):
        self.names = []
        self.index = {}
        self.opaque = []            # (fn, args(tuple RF), var)
        self.factors = []           # normalised polys
        self.fidx = {}
        self.assumed = []           # z3 facts
        self.z = {}
        self.trig = {}              # arg key -> {fn: var}
        self.consts = {}

    def var(self, name):
        i = self.index.get(name)
        if i is None:
            i = self.index[name] = len(self.names)
            self.names.append(name)
        return RF(self, {1 << (W * i): 1}, ())

    def const(self, c):
        return RF(self, p_const(c), ())

    def factor(self, p):
        """register poly as a denominator factor: returns (scale, id)"""
        lead = p[max(p)]
        inv = Fraction(1) / lead
        q = p_scale(p, inv)
        k = frozenset(q.items())
        i = self.fidx.get(k)
        if i is None:
            i = self.fidx[k] = len(self.factors)
            self.factors.append(q)
        return lead, i

    # ---- opaque functions ----
    def fn(self, name, *args):
        args = tuple(args)
        if name in ("sin", "cos", "tan") and args[0].n and args[0].n[max(args[0].n)] < 0:
            # parity
            r = self.fn(name, -args[0])
            return r if name == "cos" else -r
        for f, a, v in self.opaque:
            if f == name and all(self.same(x, y) for x, y in zip(a, args)):
                return RF(self, {1 << (W * v): 1}, ())
        if name in ("cos", "sin", "tan") and not args[0].n:
            return self.const(1 if name == "cos" else 0)
        if name == "sqrt" and not args[0].d and (not args[0].n or list(args[0].n) == [0]):
            c = Fraction(args[0].n.get(0, 0))
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return self.const(Fraction(n, d))
        r = self.var(f"{name}#{len(self.opaque)}")
        v = len(self.names) - 1
        self.opaque.append((name, args, v))
        return r

    def same(self, a, b):
        d = a - b
        return not self.reduce(d.n)

    # ---- normal form modulo s^2 = arg, cos^2 = 1 - sin^2 ----
    def reduce(self, p):
        for f, a, v in reversed(self.opaque):
            if f == "sqrt":
                sub = a[0]
            elif f == "cos":
                s = None
                for f2, a2, v2 in self.opaque:
                    if f2 == "sin" and not (a2[0] - a[0]).n:
                        s = v2
                if s is None:
                    continue
                sub = RF(self, {0: 1, 2 << (W * s): -1}, ())
            else:
                continue
            sh = W * v
            top = max((m >> sh) & MASK for m in p) if p else 0
            if top < 2:
                continue
            den = {0: 1}
            for i, e in sub.d:
                den = p_mul(den, p_pow(self.factors[i], e))
            k = top // 2
            npow = [{0: 1}]
            dpow = [{0: 1}]
            for _ in range(k):
                npow.append(p_mul(npow[-1], sub.n)); dpow.append(p_mul(dpow[-1], den))
            byp = {}
            for m, c in p.items():
                e = (m >> sh) & MASK
                byp.setdefault(e, {})[m - (e << sh) + ((e & 1) << sh)] = c
            r = {}
            for e, q in byp.items():
                h = e // 2
                r = p_add(r, p_mul(p_mul(q, npow[h]), dpow[k - h]))
            p = r
        return p

    # ---- z3 ----
    def zvar(self, i):
        z = self.z.get(i)
        if z is None:
            z = self.z[i] = z3.Real(self.names[i].replace("#", "_"))
        return z

    def zpoly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            fs = [] if c == 1 and m else [z3.RealVal(str(c))]
            i = 0
            while m:
                e = m & MASK
                if e:
                    v = self.zvar(i)
                    fs.extend([v] * e)
                m >>= W
                i += 1
            ts.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def zden(self, d):
        r = []
        for i, e in d:
            t = self.zpoly(self.factors[i])
            r.extend([t] * e)
        return r

    def side(self):
        """facts about denominators, opaque values and constants"""
        out = list(self.assumed)
        for f in self.factors:
            out.append(self.zpoly(f) != 0)
        groups = {}
        for f, a, v in self.opaque:
            z = self.zvar(v)
            groups.setdefault(f, []).append((a, z))
            if f == "sqrt":
                den = self.zden(a[0].d)
                lhs = z3.Product([z, z] + den)
                out += [lhs == self.zpoly(a[0].n), z >= 0]
            if f in ("sin", "cos"):
                out += [z <= 1, z >= -1]
        for fa, a, va in self.opaque:
            if fa == "sin":
                for fb, b, vb in self.opaque:
                    if fb == "cos" and self.same(a[0], b[0]):
                        x, y = self.zvar(va), self.zvar(vb)
                        out.append(x * x + y * y == 1)
        for f, l in groups.items():
            for i in range(len(l)):
                for j in range(i):
                    eq = []
                    for x, y in zip(l[i][0], l[j][0]):
                        eq.append(self.zeq(x, y))
                    out.append(z3.Implies(z3.And(eq), l[i][1] == l[j][1]))
        if "pi" in self.index:
            z = self.zvar(self.index["pi"])
            out += [z > z3.Q(314159, 100000), z < z3.Q(314160, 100000)]
        if "e" in self.index:
            z = self.zvar(self.index["e"])
            out += [z > z3.Q(271828, 100000), z < z3.Q(271829, 100000)]
        return out

    def zeq(self, a, b):
        d = a - b
        return self.zpoly(d.n) == 0

    def cross(self, a, b):
        """numerators of a and b over their common denominator"""
        l, r = dict(a.d), dict(b.d)
        an, bn = a.n, b.n
        for i in set(l) | set(r):
            m = max(l.get(i, 0), r.get(i, 0))
            if m > l.get(i, 0):
                an = p_mul(an, p_pow(self.factors[i], m - l.get(i, 0)))
            if m > r.get(i, 0):
                bn = p_mul(bn, p_pow(self.factors[i], m - r.get(i, 0)))
        return an, bn

class RF:
    __slots__ = ("x", "n", "d")
    def __init__(self, x, n, d):
        self.x, self.n, self.d = x, n, d        # d: sorted tuple of (factor id, exponent)

    def lift(self, o):
        return o if isinstance(o, RF) else self.x.const(o)

    def __add__(self, o, s=1):
        o = self.lift(o)
        if not o.n:
            return self
        if not self.n:
            return o if s == 1 else -o
        if self.d == o.d:
            return RF(self.x, p_add(self.n, o.n, s), self.d).tidy()
        l, r = dict(self.d), dict(o.d)
        a, b = self.x.cross(self, o)
        d = {i: max(l.get(i, 0), r.get(i, 0)) for i in set(l) | set(r)}
        return RF(self.x, p_add(a, b, s), tuple(sorted(d.items()))).tidy()
    __radd__ = __add__
    def __sub__(self, o):
        return self.__add__(o, -1)
    def __rsub__(self, o):
        return self.lift(o) - self
    def __neg__(self):
        return RF(self.x, {k: -v for k, v in self.n.items()}, self.d)
    def __mul__(self, o):
        o = self.lift(o)
        if not self.n or not o.n:
            return self.x.const(0)
        d = self.d
        if o.d:
            if d:
                t = dict(d)
                for i, e in o.d:
                    t[i] = t.get(i, 0) + e
                d = tuple(sorted(t.items()))
            else:
                d = o.d
        return RF(self.x, p_mul(self.n, o.n), d).tidy()
    __rmul__ = __mul__
    def tidy(self):
        """cancel monomial factors"""
        if not self.d or not self.n:
            return self if self.n else RF(self.x, {}, ())
        d = None
        n = self.n
        for i, e in self.d:
            f = self.x.factors[i]
            if len(f) == 1:
                (m, _), = f.items()
                sh = m.bit_length() - 1
                low = min((k >> sh) & MASK for k in n)
                c = min(low, e)
                if c:
                    n = {k - (c << sh): v for k, v in n.items()}
                    if d is None:
                        d = dict(self.d)
                    d[i] -= c
        if d is None:
            return self
        return RF(self.x, n, tuple(sorted((i, e) for i, e in d.items() if e)))
    def inv(self):
        if not self.n:
            raise ZeroDivisionError
        num = {0: 1}
        for i, e in self.d:
            num = p_mul(num, p_pow(self.x.factors[i], e))
        d = {}
        p = self.n
        # split off monomial content
        low = None
        for v in p_vars(p):
            sh = W * v
            e = min((m >> sh) & MASK for m in p)
            if e:
                p = {m - (e << sh): c for m, c in p.items()}
                _, i = self.x.factor({1 << sh: 1})
                d[i] = d.get(i, 0) + e
        if len(p) == 1 and 0 in p:
            num = p_scale(num, Fraction(1) / p[0])
        else:
            lead, i = self.x.factor(p)
            d[i] = d.get(i, 0) + 1
            num = p_scale(num, Fraction(1) / lead)
        return RF(self.x, num, tuple(sorted(d.items()))).tidy()
    def __truediv__(self, o):
        return self * self.lift(o).inv()
    def __rtruediv__(self, o):
        return self.lift(o) * self.inv()
    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and 0 in self.n))
    def cval(self):
        return Fraction(self.n.get(0, 0))
    def numeric(self, env):
        """evaluate with env: var index -> number"""
        def ev(p):
            s = 0
            for m, c in p.items():
                t = c if c.__class__ is int else c
                i = 0
                while m:
                    e = m & MASK
                    if e:
                        t = t * env(i) ** e
                    m >>= W
                    i += 1
                s = s + t
            return s
        r = ev(self.n)
        for i, e in self.d:
            r = r / ev(self.x.factors[i]) ** e
        return r
