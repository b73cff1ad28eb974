"""Expression DSL: one term yields both the C++ text given to the library and the oracle's value for it."""
from fractions import Fraction
from .ga import ALG, GENERIC

class Undefined(Exception):
    """the mathematical value is not defined / outside the supported fragment"""

class Ex:
    __slots__ = ("op", "a", "k")
    def __init__(self, op, a=(), k=None):
        self.op, self.a, self.k = op, a, k
    def _b(op, r=False):
        def f(self, o):
            if isinstance(o, int):
                return Ex("i" + op, (self,), (o, "r")) if not r else Ex("i" + op, (self,), (o, "l"))
            return Ex(op, (self, o))
        return f
    __add__ = _b("add"); __radd__ = _b("add", True)
    __sub__ = _b("sub"); __rsub__ = _b("sub", True)
    __mul__ = _b("gp"); __rmul__ = _b("gp", True)
    __truediv__ = _b("div"); __rtruediv__ = _b("div", True)
    __xor__ = _b("ep"); __and__ = _b("rp"); __rshift__ = _b("lc"); __or__ = _b("sip"); __mod__ = _b("sand")
    def __neg__(self):
        return Ex("neg", (self,))
    def __invert__(self):
        return Ex("rev", (self,))
    def dual(self):
        return Ex("dual", (self,))
    def __getitem__(self, e):
        return Ex("comp", (self,), e)
    def grade(self, g):
        return Ex("grade", (self,), g)
    def size(self):
        return 1 + sum(x.size() for x in self.a)

def fn(n):
    return lambda x: Ex(n, (x,))
sqrt, sin, cos, tan, exp, dual = fn("sqrt"), fn("sin"), fn("cos"), fn("tan"), fn("exp"), fn("dual")
def sp(a, b):
    return Ex("sp", (a, b))
def lit(n, name):
    return Ex("lit", (), (n, name))
PI, E = Ex("const", (), "PI"), Ex("const", (), "E")

BIN = {"add": "+", "sub": "-", "gp": "*", "div": "/", "ep": "^", "rp": "&", "lc": ">>", "sip": "|", "sand": "%"}

def cpp(x, names, cut=None):
    """cut: id(node) -> name of a variable that already holds its value"""
    if cut and id(x) in cut:
        return cut[id(x)]
    cpp_ = lambda y, n: cpp(y, n, cut)
    return cpp1(x, names, cpp_)

def cpp1(x, names, cpp):
    o = x.op
    if o == "in":
        return names[x.k]
    if o in BIN:
        return f"({cpp(x.a[0], names)} {BIN[o]} {cpp(x.a[1], names)})"
    if o[0] == "i" and o[1:] in BIN:
        n, side = x.k
        t = cpp(x.a[0], names)
        n = f"({n})" if n < 0 else str(n)
        return f"({t} {BIN[o[1:]]} {n})" if side == "r" else f"({n} {BIN[o[1:]]} {t})"
    if o == "neg":
        return f"(-{cpp(x.a[0], names)})"
    if o == "rev":
        return f"(~{cpp(x.a[0], names)})"
    if o == "dual":
        return f"(!{cpp(x.a[0], names)})"
    if o == "comp":
        return f"({cpp(x.a[0], names)}[{x.k}])"
    if o == "grade":
        return f"({cpp(x.a[0], names)}.select_grade({x.k}))"
    if o in ("sqrt", "sin", "cos", "tan", "exp"):
        return f"{o}({cpp(x.a[0], names)})"
    if o == "sp":
        return f"scalar_product({cpp(x.a[0], names)}, {cpp(x.a[1], names)})"
    if o == "lit":
        return f"({x.k[0]}_{x.k[1]})"
    if o == "const":
        return "gal::" + x.k
    raise KeyError(o)

LITS = {
    "vga": {"e0": 1, "e1": 2, "e2": 4, "e01": 3, "e02": 5, "e12": 6, "e012": 7, "ps": 7, "ips": -7},
    "pga": {"e0": 1, "e1": 2, "e2": 4, "e3": 8, "e01": 3, "e02": 5, "e03": 9, "e12": 6, "e13": 10, "e23": 12,
            "e012": 7, "e013": 11, "e023": 13, "e123": 14, "e0123": 15, "ps": 15},
    "pga2": {"e0": 1, "e1": 2, "e2": 4, "e01": 3, "e02": 5, "e12": 6, "e012": 7, "ps": 7},
    "cga2": {"e1": 1, "e2": 2, "no": 4, "ni": 8, "ps": 15, "ips": -15},
    "cga": {"e1": 1, "e2": 2, "e3": 4, "no": 8, "ni": 16, "ps": 31, "ips": -31},
}

def scalar_of(v):
    for e, c in v.items():
        if e and not czero(c):
            raise Undefined("scalar expected")
    return v.get(0)

def czero(c):
    return not c.n

def value(x, alg, ctx, inputs, memo=None):
    """oracle value (natural basis)"""
    if memo is None:
        memo = {}
    r = memo.get(id(x))
    if r is not None:
        return r[0]
    A = alg
    rec = lambda y: value(y, alg, ctx, inputs, memo)
    o = x.op
    if o == "in":
        r = A.to_natural(inputs[x.k])
    elif o == "add":
        r = A.add(rec(x.a[0]), rec(x.a[1]))
    elif o == "sub":
        r = A.add(rec(x.a[0]), rec(x.a[1]), -1)
    elif o == "gp":
        r = A.prod("gp", rec(x.a[0]), rec(x.a[1]))
    elif o == "ep":
        r = A.ep(rec(x.a[0]), rec(x.a[1]))
    elif o == "rp":
        r = A.dual(A.ep(A.dual(rec(x.a[0])), A.dual(rec(x.a[1]))))
    elif o in ("lc", "sip", "sp"):
        r = A.prod(o, rec(x.a[0]), rec(x.a[1]))
    elif o == "sand":
        b = rec(x.a[1])
        r = A.prod("gp", A.prod("gp", b, rec(x.a[0])), A.rev(b))
    elif o == "div":
        d = scalar_of(rec(x.a[1]))
        if d is None or czero(d):
            raise Undefined("division by zero")
        i = 1 / d
        r = {e: c * i for e, c in rec(x.a[0]).items()}
    elif o[0] == "i" and o[1:] in BIN:
        n, side = x.k
        v = rec(x.a[0])
        k = o[1:]
        if k == "add":
            r = A.add(v, {0: ctx.const(n)})
        elif k == "sub":
            r = A.add(v, {0: ctx.const(-n)}) if side == "r" else A.add({0: ctx.const(n)}, v, -1)
        elif k == "gp":
            r = A.scale(v, n)
        elif k == "div":
            if side == "r":
                if n == 0:
                    raise Undefined("div 0")
                r = A.scale(v, Fraction(1, n))
            else:
                d = scalar_of(v)
                if d is None or czero(d):
                    raise Undefined("division by zero")
                r = {0: n / d}
        else:
            raise KeyError(o)
    elif o == "neg":
        r = A.scale(rec(x.a[0]), -1)
    elif o == "rev":
        r = A.rev(rec(x.a[0]))
    elif o == "dual":
        r = A.dual(rec(x.a[0]))
    elif o == "comp":
        v = A.to_null(rec(x.a[0])) if A.null else rec(x.a[0])
        r = {0: v[x.k]} if x.k in v else {}
    elif o == "grade":
        r = {e: c for e, c in rec(x.a[0]).items() if bin(e).count("1") == x.k}
    elif o in ("sqrt", "sin", "cos", "tan"):
        s = scalar_of(rec(x.a[0]))
        if s is None:
            s = ctx.const(0)
        if o == "sqrt" and s.is_const() and s.cval() < 0:
            raise Undefined("root of a negative constant")
        r = {0: ctx.fn(o, s)}
    elif o == "lit":
        n, nm = x.k
        e = LITS[A.name][nm]
        r = A.to_natural({abs(e): ctx.const(n if e > 0 else -n)})
    elif o == "const":
        r = {0: ctx.var("pi" if x.k == "PI" else "e")}
    else:
        raise KeyError(o)
    r = {e: c for e, c in r.items() if not czero(c)}
    memo[id(x)] = (r, x)
    return r

# ---- input entity types: C++ type, number of fields, meaning of the fields (null basis for the conformal algebra) ----
class Ty:
    def __init__(self, alg, name, cpp, n, meaning):
        self.alg, self.name, self.cpp, self.n, self.meaning = alg, name, cpp, n, meaning

def ent(alg, *els):
    els = tuple(sorted(els))
    ns = alg
    return Ty(alg, "ent" + "_".join(map(str, els)), f"gal::entity<gal::{ns}::{ns}_algebra, T{''.join(', ' + str(e) for e in els)}>", len(els),
              lambda f: {e: f[i] for i, e in enumerate(els)})

def mk(alg, name, els):
    return Ty(alg, name, f"gal::{alg}::{name}<T>", len(els), lambda f: {e: (f[i] if s > 0 else -f[i]) for i, (e, s) in enumerate(els)})

TY = {}
def reg(t):
    TY[(t.alg, t.name)] = t
for a in ("vga", "pga", "pga2", "cga", "cga2"):
    reg(Ty(a, "scalar", f"gal::scalar<gal::{a}::{a}_algebra, T>", 1, lambda f: {0: f[0]}))
    reg(Ty(a, "float", "T", 1, lambda f: {0: f[0]}))
reg(mk("vga", "vector", [(1, 1), (2, 1), (4, 1)]))
# rotor fields: cos, sin, x, y, z;  R = cos - sin (x e12 - y e02 + z e01)
reg(Ty("vga", "rotor", "gal::vga::rotor<T>", 5, lambda f: {0: f[0], 3: -(f[1] * f[4]), 5: f[1] * f[3], 6: -(f[1] * f[2])}))
reg(mk("pga", "plane", [(1, 1), (2, 1), (4, 1), (8, 1)]))
reg(mk("pga", "point", [(7, 1), (11, 1), (13, 1), (14, 1)]))
reg(Ty("pga", "vgapoint", "gal::vga::point<T>", 3, lambda f: {7: -f[2], 11: f[1], 13: -f[0], 14: f[0].x.const(1)}))
reg(Ty("pga", "vector", "gal::pga::vector<T>", 3, lambda f: {7: -f[2], 11: f[1], 13: -f[0]}))
reg(Ty("pga", "line", "gal::pga::line<T>", 6, lambda f: {3: -f[3], 5: -f[4], 9: -f[5], 12: -f[0], 10: f[1], 6: -f[2]}))
reg(mk("pga", "motor", [(0, 1), (3, 1), (5, 1), (6, 1), (9, 1), (10, 1), (12, 1), (15, 1)]))
reg(Ty("pga", "rotor", "gal::pga::rotor<T>", 5, lambda f: {0: f[0], 6: f[1] * f[4], 10: -(f[1] * f[3]), 12: f[1] * f[2]}))
reg(Ty("pga", "translator", "gal::pga::translator<T>", 4,
       lambda f: {0: f[0].x.const(1), 3: f[0] * f[1] * Fraction(-1, 2), 5: f[0] * f[2] * Fraction(-1, 2), 9: f[0] * f[3] * Fraction(-1, 2)}))
reg(mk("pga2", "line", [(1, 1), (2, 1), (4, 1)]))
reg(Ty("pga2", "point", "gal::pga2::point<T>", 2, lambda f: {3: f[1], 5: -f[0], 6: f[0].x.const(1)}))
reg(Ty("pga2", "vector", "gal::pga2::vector<T>", 2, lambda f: {3: f[1], 5: -f[0]}))
reg(Ty("cga2", "point", "gal::cga2::point<T>", 2,
       lambda f: {1: f[0], 2: f[1], 4: f[0].x.const(1), 8: (f[0] * f[0] + f[1] * f[1]) * Fraction(1, 2)}))
reg(Ty("cga", "point", "gal::cga::point<T>", 3,
       lambda f: {1: f[0], 2: f[1], 4: f[2], 8: f[0].x.const(1), 16: (f[0] * f[0] + f[1] * f[1] + f[2] * f[2]) * Fraction(1, 2)}))

for a in GENERIC:
    LITS[a] = {}
    reg(Ty(a, "scalar", f"gal::scalar<gal::{a}::{a}_algebra, T>", 1, lambda f: {0: f[0]}))
    reg(Ty(a, "float", "T", 1, lambda f: {0: f[0]}))

def ty(alg, name):
    if isinstance(name, Ty):
        return name
    return TY[(alg, name)]
