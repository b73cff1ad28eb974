"""Floating point values as exact rational functions (poly.RF).  IR constants are read back as the simplest rational
within half an ulp, or as a rational multiple of products of pi and e."""
from fractions import Fraction
import math, struct
import z3
from . import poly
from .symex import Unsupported, lowerb, isint, sgn, UNDEF, Cat

def ulp(d, w):
    if w == 32:
        m, e = math.frexp(d)
        return math.ldexp(1.0, e - 24)
    return math.ulp(d)

def simplest(fr, tol, lim):
    """simplest fraction within tol of fr with denominator <= lim, else None"""
    c = fr.limit_denominator(lim)
    if abs(c - fr) <= tol:
        # look for a smaller denominator (limit_denominator gives the closest, not the simplest)
        k = 1
        while k < lim:
            c2 = fr.limit_denominator(k)
            if abs(c2 - fr) <= tol:
                return c2
            k *= 4
        return c
    return None

class RFDomain:
    def __init__(self):
        self.ctx = None             # set per program
        self.notes = []
        self.wide = False           # the program computes in double precision: rounding to single is a loss
    def narrow(self, X, a):
        a = self.lift(a)
        if not self.wide or not a.n:
            return a
        self.losses += 1
        return a * (self.ctx.const(1) + self.ctx.var(f"loss{self.losses}"))
    def reset(self):
        self.losses = 0
        self.ctx = poly.Ctx()
        self.cc = {}
    # constants are kept symbolic until used: compiled code is shared by every program of a module
    def const(self, fr, w):
        return FC(fr, w)
    def lift(self, a):
        if a.__class__ is poly.RF:
            return a
        if a.__class__ is FC:
            k = (a.v, a.w)
            r = self.cc.get(k)
            if r is None:
                r = self.cc[k] = self.rational(a.v, a.w)
            return r
        if isinstance(a, int):              # raw bits (zero-initialised or copied constant memory)
            if a == 0:
                return self.ctx.const(0)
            w = 32 if a < (1 << 32) else 64
            d = struct.unpack("<f" if w == 32 else "<d", a.to_bytes(w // 8, "little"))[0]
            if d != d or d in (math.inf, -math.inf):
                raise Unsupported("non-finite constant")
            return self.lift(FC(Fraction(d), w))
        if isinstance(a, Fraction):
            return self.ctx.const(a)
        if a is UNDEF or isinstance(a, Cat):
            raise Unsupported("floating point operand is uninitialised")
        raise Unsupported(f"float operand {type(a)}")
    def rational(self, fr, w):
        if not isinstance(fr, Fraction):
            raise Unsupported("non-finite constant")
        if fr == 0:
            return self.ctx.const(0)
        d = float(fr)
        # single-precision maths folded into a double constant has 24 significant bits
        tol = Fraction(ulp(d, w)) * 2
        lim = 2000000 if w == 64 else 3000
        if fr.denominator <= (1 << 20):
            return self.ctx.const(fr)
        c = simplest(fr, tol, lim)
        if c is not None:
            return self.ctx.const(c)
        PI = Fraction(314159265358979323846264338327950288419716939937510, 10**50)
        E = Fraction(271828182845904523536028747135266249775724709369995, 10**50)
        tol2 = tol * 4
        # float32 pi/e constants widened: compare at their own precision
        for i, j in ((1, 0), (0, 1), (-1, 0), (0, -1), (2, 0), (1, 1), (0, 2), (1, -1), (-1, 1), (3, 0), (0, 3), (2, 1), (1, 2), (-2, 0), (0, -2), (4, 0)):
            b = PI**i * E**j
            q = simplest(fr / b, tol2 / abs(b), 2000 if w == 64 else 60)
            if q is not None and q != 0 and abs(q.numerator) < 100000:
                r = self.ctx.const(q)
                for nm, k in (("pi", i), ("e", j)):
                    v = self.ctx.var(nm)
                    for _ in range(abs(k)):
                        r = r * v if k > 0 else r / v
                return r
        if w == 64:
            # constants folded into one sum: p + q*pi or p + q*e
            for nm, b in (("pi", PI), ("e", E)):
                for dp in (1, 2, 3):
                    for np_ in range(-12 * dp, 12 * dp + 1):
                        if np_ == 0 or (dp > 1 and np_ % dp == 0):
                            continue
                        p = Fraction(np_, dp)
                        q = simplest((fr - p) / b, tol2 * 2 / b, 24)
                        if q is not None and q != 0 and abs(q.numerator) < 200:
                            return self.ctx.const(p) + self.ctx.const(q) * self.ctx.var(nm)
        return self.ctx.const(fr)
    def bin(self, X, op, a, b, w):
        a, b = self.lift(a), self.lift(b)
        if op == "fadd":
            return a + b
        if op == "fsub":
            return a - b
        if op == "fmul":
            return a * b
        if op == "fdiv":
            try:
                return a / b
            except ZeroDivisionError:
                raise Unsupported("division by exact zero")
        raise Unsupported(op)
    def neg(self, X, a):
        return -self.lift(a)
    def cmp(self, X, c, a, b):
        d = self.lift(a) - self.lift(b)
        if c in ("uno",):
            return 0
        if c in ("ord",):
            return 1
        if c == "true":
            return 1
        if c == "false":
            return 0
        c = c[1:]
        if d.is_const():
            v = d.cval()
            return int({"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[c])
        n = self.ctx.zpoly(d.n)
        den = self.ctx.zden(d.d)
        if c in ("eq", "ne"):
            t = n
        else:
            t = z3.Product([n] + den) if den else n
        self.flush(X)
        return lowerb({"eq": t == 0, "ne": t != 0, "lt": t < 0, "le": t <= 0, "gt": t > 0, "ge": t >= 0}[c])
    def flush(self, X):
        """assert facts about opaque values before a branch decision"""
        for f in self.ctx.side():
            X.pc.append(f); X.solver.add(f)
        X.model = None
    def from_int(self, X, a, w, signed):
        if isint(a):
            return self.ctx.const(sgn(a, w) if signed else a)
        raise Unsupported("sitofp symbolic")
    def to_int(self, X, a, w, signed):
        raise Unsupported("fptosi")
    def call(self, X, name, args):
        args = [self.lift(a) if not isint(a) else a for a in args]
        if name in ("sqrt", "sin", "cos", "tan", "atan2"):
            return self.ctx.fn(name, *args)
        if name == "fabs":
            a = args[0]
            return -a if X.branch(self.cmp_b(X, "olt", a, self.ctx.const(0))) else a
        if name in ("pow", "powi"):
            b = args[1]
            if isint(b):
                e = Fraction(sgn(b, 32))
            elif b.is_const():
                e = b.cval()
            else:
                raise Unsupported("pow symbolic exponent")
            return self.power(args[0], e)
        raise Unsupported("float call " + name)
    def power(self, a, e):
        if e.denominator == 2:
            a = self.ctx.fn("sqrt", a)
            e = e * 2
        if e.denominator != 1:
            raise Unsupported(f"pow exponent {e}")
        n = e.numerator
        r = self.ctx.const(1)
        for _ in range(abs(n)):
            r = r * a
        return self.ctx.const(1) / r if n < 0 else r
    def cmp_b(self, X, c, a, b):
        r = self.cmp(X, c, a, b)
        return z3.BoolVal(bool(r)) if isint(r) else r
    def select(self, X, c, a, b):
        return a if X.branch(c) else b

class FC:
    """an uninterpreted IR floating constant"""
    __slots__ = ("v", "w")
    def __init__(self, v, w):
        self.v, self.w = v, w
