"""Symbolic executor for LLVM IR (clang output of the real gal headers + a harness).

Integers are python ints (concrete) or z3 bit-vectors of the exact machine width; i1 may be a z3 Bool.
Pointers are flat 64-bit addresses (object id << 32 | 0x10000+offset).  Floating point values live in a
pluggable domain (exact reals; see Domain classes).  Branches on symbolic conditions fork: exploration is by
re-execution with a decision prefix; the SMT solver decides feasibility of every new decision and every assertion.
"""
import time, struct
from fractions import Fraction
import z3
from . import llir
from .llir import layout

M64 = (1 << 64) - 1
OFF0 = 0x10000

class Unsupported(Exception):
    pass
class MemError(Exception):
    pass
class PathEnd(Exception):       # assumption violated / path infeasible
    pass
class Budget(Exception):
    pass
class Violation(Exception):
    def __init__(self, msg, model=None):
        super().__init__(msg)
        self.msg, self.model = msg, model

class _Undef:
    def __repr__(self):
        return "undef"
UNDEF = _Undef()

class Cat:
    """opaque concatenation of memory parts (little endian order) whose members are not all integers"""
    __slots__ = ("parts",)
    def __init__(self, parts):
        self.parts = parts      # [(size_bytes, value)]

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def bv(x, w):
    if x.__class__ is int:
        return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if x is UNDEF:
        raise Unsupported("undef operand")
    return x

def lower(e):
    """simplify a z3 bitvector; return python int if constant"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e

def lowerb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e

def isint(x):
    return x.__class__ is int

# ---- slow-path integer operations -------------------------------------------------
def i_bin(X, op, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, Cat) or isinstance(b, Cat):
        return cat_bin(X, op, a, b, w)
    if isint(a) and isint(b):
        return i_conc(X, op, a, b, w)
    if w == 1:
        A = tobool(a); B = tobool(b)
        if op == "and":
            return lowerb(z3.And(A, B))
        if op == "or":
            return lowerb(z3.Or(A, B))
        if op in ("xor", "add", "sub"):
            return lowerb(z3.Xor(A, B))
        raise Unsupported("i1 " + op)
    if op == "mul":
        if isint(a) and a in (0, 1):
            return b if a else 0
        if isint(b) and b in (0, 1):
            return a if b else 0
    A = bv(a, w); B = bv(b, w)
    if op == "add":
        r = A + B
    elif op == "sub":
        r = A - B
    elif op == "mul":
        r = A * B
    elif op == "and":
        r = A & B
    elif op == "or":
        r = A | B
    elif op == "xor":
        r = A ^ B
    elif op == "shl":
        r = A << B
    elif op == "lshr":
        r = z3.LShR(A, B)
    elif op == "ashr":
        r = A >> B
    elif op in ("sdiv", "udiv") and not isint(b) and (b.get_id(), key(a)) in X.divmap:
        return X.divmap[(b.get_id(), key(a))][0]
    elif op == "sdiv":
        X.require(B != 0, "division by zero"); r = A / B
    elif op == "udiv":
        X.require(B != 0, "division by zero"); r = z3.UDiv(A, B)
    elif op == "urem":
        X.require(B != 0, "division by zero"); r = z3.URem(A, B)
    elif op == "srem":
        X.require(B != 0, "division by zero"); r = z3.SRem(A, B)
    else:
        raise Unsupported(op)
    return lower(r)

def i_conc(X, op, a, b, w):
    m = (1 << w) - 1
    if op == "add":
        return (a + b) & m
    if op == "sub":
        return (a - b) & m
    if op == "mul":
        return (a * b) & m
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "shl":
        return (a << b) & m if b < w else 0
    if op == "lshr":
        return a >> b if b < w else 0
    if op == "ashr":
        return (sgn(a, w) >> min(b, w - 1)) & m
    if b == 0:
        raise MemError("division by zero")
    if op == "udiv":
        return a // b
    if op == "urem":
        return a % b
    sa, sb = sgn(a, w), sgn(b, w)
    q = abs(sa) // abs(sb)
    if (sa < 0) != (sb < 0):
        q = -q
    if op == "sdiv":
        return q & m
    if op == "srem":
        return (sa - q * sb) & m
    raise Unsupported(op)

def cat_bin(X, op, a, b, w):
    if isinstance(a, Cat) and op == "lshr" and isint(b) and b % 8 == 0:
        n = b // 8
        parts = list(a.parts)
        while n and parts and parts[0][0] <= n:
            n -= parts[0][0]; parts.pop(0)
        if n == 0:
            return mkcat(parts + [(b // 8, 0)])
    if op == "or":
        # disjoint or of (zext low) | (x << k)
        pa = parts_of(a, w); pb = parts_of(b, w)
        bounds = []
        def expand(ps):
            out, o = {}, 0
            for s, v in ps:
                out[o] = (s, v); o += s
            return out
        ea, eb = expand(pa), expand(pb)
        res, o = [], 0
        tot = w // 8
        while o < tot:
            ca, cb = ea.get(o), eb.get(o)
            if ca and (ca[1].__class__ is not int or ca[1] != 0):
                res.append(ca); o += ca[0]
            elif cb and (cb[1].__class__ is not int or cb[1] != 0):
                res.append(cb); o += cb[0]
            elif ca and cb:
                s = min(ca[0], cb[0]); res.append((s, 0)); o += s
            else:
                raise Unsupported("cat or")
        return mkcat(res)
    if isinstance(a, Cat) and op == "shl" and isint(b) and b % 8 == 0:
        n = w // 8 - b // 8
        out, tot = [(b // 8, 0)], 0
        for s, v in a.parts:
            if tot + s > n:
                break
            out.append((s, v)); tot += s
        return mkcat(out)
    raise Unsupported("cat " + op)

def parts_of(a, w):
    if isinstance(a, Cat):
        return a.parts
    if isint(a):
        return [(1, (a >> (8 * i)) & 255) for i in range(w // 8)]
    return [(w // 8, a)]

def mkcat(parts):
    if len(parts) == 1:
        return parts[0][1]
    return Cat(parts)

def key(a):
    return a if isint(a) else ("t", a.get_id())

def gcd_summary(X, name, args):
    """std::gcd on int32: contract used when an argument is symbolic"""
    m, n = args
    if isint(m) and isint(n):
        import math
        return math.gcd(abs(sgn(m, 32)), abs(sgn(n, 32)))
    ck = (key(m), key(n))
    if ck in X.gcdmap:
        return X.gcdmap[ck][0]
    M, N = bv(m, 32), bv(n, 32)
    k = len(X.gcdmap)
    nb = X.opts.get("gcd_bits", 32)
    def small(nm, sg):
        if nb >= 31:
            return z3.BitVec(nm, 32)
        v = z3.BitVec(nm, nb)
        return z3.SignExt(32 - nb, v) if sg else z3.ZeroExt(32 - nb, v)
    g, a, b = small(f"gcd{k}", False), small(f"gcdp{k}", True), small(f"gcdq{k}", True)
    L = lambda t: z3.SignExt(32, t)
    nz = z3.Or(M != 0, N != 0)
    c = z3.And(z3.Implies(z3.Not(nz), z3.And(g == 0, a == 0, b == 0)),
               z3.Implies(nz, z3.And(g >= 1, L(g) * L(a) == L(M), L(g) * L(b) == L(N),
                                     (a == 0) == (M == 0), (b == 0) == (N == 0), (a < 0) == (M < 0), (b < 0) == (N < 0))),
               L(a) * L(N) == L(b) * L(M), a * N == b * M,
               z3.Implies(g == 1, z3.And(a == M, b == N)),
               z3.Implies(M == 0, z3.Or(g == N, g == -N)), z3.Implies(N == 0, z3.Or(g == M, g == -M)),
               # even arguments have an even gcd (needed for parity reasoning)
               z3.Implies(z3.And(nz, z3.Extract(0, 0, M) == 0, z3.Extract(0, 0, N) == 0), z3.Extract(0, 0, g) == 0),
               z3.Implies(z3.And(N > 0), g <= N), z3.Implies(z3.And(M > 0), g <= M))
    X.gcdmap[ck] = (g, m, n)
    X.divmap[(g.get_id(), key(m))] = (a, m, g)
    X.divmap[(g.get_id(), key(n))] = (b, n, g)
    X.pc.append(c)
    X.solver.add(c)
    X.model = None
    return g

GCD_SUMMARY = (lambda n: n.startswith("@_ZSt3gcdIiiE"), gcd_summary)

def tobool(a):
    if isint(a):
        return z3.BoolVal(bool(a))
    if isinstance(a, z3.BoolRef):
        return a
    if a is UNDEF:
        raise Unsupported("undef condition")
    return a != 0

def i_cmp(X, c, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isint(a) and isint(b):
        if c == "eq":
            return int(a == b)
        if c == "ne":
            return int(a != b)
        if c[0] == "s":
            a, b = sgn(a, w), sgn(b, w)
        c = c[1:]
        return int(a < b if c == "lt" else a <= b if c == "le" else a > b if c == "gt" else a >= b)
    if w == 1:
        A, B = tobool(a), tobool(b)
        if c == "eq":
            return lowerb(A == B)
        if c == "ne":
            return lowerb(A != B)
        raise Unsupported("icmp i1 " + c)
    A, B = bv(a, w), bv(b, w)
    r = {"eq": lambda: A == B, "ne": lambda: A != B, "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B),
         "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B), "slt": lambda: A < B, "sle": lambda: A <= B,
         "sgt": lambda: A > B, "sge": lambda: A >= B}[c]()
    return lowerb(r)

def i_trunc(a, w, w2):
    if isint(a):
        return a & ((1 << w2) - 1)
    if a is UNDEF:
        return a
    if isinstance(a, Cat):
        n, out = w2 // 8, []
        for s, v in a.parts:
            if s <= n:
                out.append((s, v)); n -= s
            else:
                if n:
                    if isint(v):
                        out.append((n, v & ((1 << (8 * n)) - 1))); n = 0
                    elif isinstance(v, z3.BitVecRef):
                        out.append((n, lower(z3.Extract(8 * n - 1, 0, v)))); n = 0
                    else:
                        raise Unsupported("cat trunc")
                break
            if n == 0:
                break
        return mkcat(out)
    r = z3.Extract(w2 - 1, 0, a)
    if w2 == 1:
        return lowerb(r == 1)
    return lower(r)

def i_ext(a, w, w2, signed):
    if isint(a):
        return (sgn(a, w) & ((1 << w2) - 1)) if signed else a
    if a is UNDEF:
        return a
    if isinstance(a, z3.BoolRef):
        return z3.If(a, z3.BitVecVal(((1 << w2) - 1) if signed else 1, w2), z3.BitVecVal(0, w2))
    if isinstance(a, z3.BitVecRef):
        return lower(z3.SignExt(w2 - w, a) if signed else z3.ZeroExt(w2 - w, a))
    if not signed:                      # opaque (float bits)
        return Cat([(w // 8, a), ((w2 - w) // 8, 0)])
    raise Unsupported("sext opaque")

# ---- float domains -----------------------------------------------------------------
class RealDomain:
    """floating point as exact reals: Fraction or z3 Real"""
    def narrow(self, X, a):
        return a
    def const(self, fr, w):
        return fr
    def lift(self, a):
        if isinstance(a, Fraction):
            return z3.RealVal(str(a))
        if isinstance(a, int):
            return z3.RealVal(a)
        return a
    def bin(self, X, op, a, b, w):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if op == "fdiv":
                if b == 0:
                    raise Unsupported("float div by zero")
                return a / b
        A, B = self.lift(a), self.lift(b)
        return {"fadd": lambda: A + B, "fsub": lambda: A - B, "fmul": lambda: A * B, "fdiv": lambda: A / B}[op]()
    def neg(self, X, a):
        return -a
    def cmp(self, X, c, a, b):
        A, B = self.lift(a), self.lift(b)
        c = c[1:]
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            A, B = a, b
            return int({"eq": A == B, "ne": A != B, "lt": A < B, "le": A <= B, "gt": A > B, "ge": A >= B}[c])
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "lt": lambda: A < B, "le": lambda: A <= B, "gt": lambda: A > B, "ge": lambda: A >= B}[c]()
        return lowerb(r)
    def from_int(self, X, a, w, signed):
        if isint(a):
            return Fraction(sgn(a, w) if signed else a)
        return z3.ToReal(z3.BV2Int(bv(a, w), signed))
    def to_int(self, X, a, w, signed):
        if isinstance(a, Fraction):
            n = abs(a.numerator) // a.denominator
            return (-n if a < 0 else n) & ((1 << w) - 1)
        raise Unsupported("fptosi symbolic")
    def call(self, X, name, args):
        raise Unsupported("float call " + name)
    def select(self, X, c, a, b):
        return z3.If(c, self.lift(a), self.lift(b))

# ---- function compilation ------------------------------------------------------------
def fp_const(text, ty):
    if text.startswith("0x"):
        d = struct.unpack(">d", bytes.fromhex(text[2:].rjust(16, "0")))[0]
    else:
        d = float(text)
    if d != d or d in (float("inf"), float("-inf")):
        return d
    return Fraction(d)

class Compiled:
    __slots__ = ("name", "entry", "blocks", "nregs", "params", "names")

_MIN = "__min__"

class Machine:
    """Holds a parsed module and compiled functions (shared by all paths)"""
    def __init__(self, mod, domain=None, externs=None, summaries=None):
        self.mod = mod
        self.dom = domain or RealDomain()
        self.compiled = {}
        self.externs = externs or {}
        self.summaries = summaries if summaries is not None else [GCD_SUMMARY]     # list of (predicate(name), handler)
        self.executed = set()

    def get(self, name):
        c = self.compiled.get(name)
        if c is None:
            f = self.mod.funcs[name]
            llir.parse_blocks(self.mod, f)
            c = self.compile(f)
            self.compiled[name] = c
        self.executed.add(name)
        return c

    def compile(self, f):
        regs = {}
        def R(n):
            i = regs.get(n)
            if i is None:
                i = regs[n] = len(regs)
            return i
        for n, _ in f.params:
            R(n)
        consts = []
        src = []
        bidx = {l: i for i, l in enumerate(f.order)}
        phis = {l: [it for it in ins if it.op == "phi"] for l, ins in f.blocks.items()}
        def K(v):
            consts.append(v)
            return f"C[{len(consts)-1}]"
        def val(o):
            k = o.k
            if k == "reg":
                return f"r[{R(o.v)}]"
            if k == "int":
                return str(o.v & ((1 << max(o.ty.n, 1)) - 1)) if o.ty.k == "int" else str(o.v)
            if k == "fp":
                c = fp_const(o.v, o.ty)
                return K(self.dom.const(c, 32 if o.ty.k == "float" else 64))
            if k == "glob":
                return f"X.gaddr({o.v!r})"
            if k == "zero":
                if o.ty.k in ("float", "double"):
                    return K(self.dom.const(Fraction(0), 64))
                if o.ty.k in ("int", "ptr"):
                    return "0"
                return K(zero_agg(self, o.ty))
            if k == "undef":
                if o.ty.k in ("struct", "array", "vec"):
                    return K(undef_agg(o.ty))
                return "UNDEF"
            if k == "agg":
                return "[" + ",".join(val(x) for x in o.v) + "]"
            if k == "cgep":
                bt, ops = o.v
                return gep(bt, ops)
            if k == "ccast":
                op, v, t2 = o.v
                if op in ("ptrtoint", "inttoptr", "bitcast"):
                    return val(v)
            if k == "cbin":
                op, a, b = o.v
                return f"i_bin(X,{op!r},{val(a)},{val(b)},{o.ty.n})"
            if k == "meta":
                return "None"
            raise Unsupported("operand " + k)
        def gep(bt, ops):
            base = val(ops[0])
            const, terms = 0, []
            t = None
            for i, o in enumerate(ops[1:]):
                if i == 0:
                    t = bt
                    sz = layout(bt).size
                else:
                    if t.k == "struct":
                        layout(t)
                        const += t.offs[o.v]
                        t = t.fs[o.v]
                        continue
                    t = t.e
                    sz = layout(t).size
                if o.k == "int":
                    const += sgn(o.v & ((1 << o.ty.n) - 1), o.ty.n) * sz
                elif o.k == "zero":
                    pass
                else:
                    terms.append((val(o), sz, o.ty.n))
            if not terms:
                if const == 0:
                    return base
                return f"padd({base},{const})"
            return f"pgep(X,{base},{const},({','.join(f'({a},{s},{w})' for a, s, w in terms)},))"
        def edge(frm, to, ind):
            ps = phis[to]
            s = ""
            if ps:
                vs, ts = [], []
                for ph in ps:
                    for v, l in ph.x:
                        if l == frm:
                            vs.append(val(v)); break
                    else:
                        raise Unsupported("phi edge")
                    ts.append(f"r[{R(ph.res)}]")
                s = ind + ",".join(ts) + (" = " if len(ts) == 1 else " = ") + ",".join(vs) + "\n"
            return s + ind + f"return {bidx[to]}\n"
        for l in f.order:
            src.append(f"def b{bidx[l]}(X,r):\n")
            body = []
            ind = "  "
            for it in f.blocks[l]:
                op = it.op
                if op == "phi":
                    continue
                d = f"r[{R(it.res)}]" if it.res else None
                o = it.ops
                if op in llir.BIN:
                    if it.ty.k == "vec":
                        body.append(f"{ind}{d} = v_bin(X,{op!r},{val(o[0])},{val(o[1])},{it.ty.e.k!r},{it.ty.e.n})\n")
                    elif op[0] == "f":
                        w = 32 if it.ty.k == "float" else 64
                        body.append(f"{ind}{d} = X.dom.bin(X,{op!r},{val(o[0])},{val(o[1])},{w})\n")
                    else:
                        w = it.ty.n
                        m = (1 << w) - 1
                        if op in ("add", "sub", "mul", "and", "or", "xor"):
                            sym = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}[op]
                            mask = f"&{m}" if op in ("add", "sub", "mul") else ""
                            nsw = "nsw" in it.flags
                            slow = f"i_nsw(X,{op!r},a,b,{w})" if nsw and self_nsw else f"i_bin(X,{op!r},a,b,{w})"
                            body.append(f"{ind}a={val(o[0])};b={val(o[1])}\n{ind}{d} = (a{sym}b){mask} if a.__class__ is int and b.__class__ is int else {slow}\n")
                        else:
                            body.append(f"{ind}{d} = i_bin(X,{op!r},{val(o[0])},{val(o[1])},{w})\n")
                elif op == "fneg":
                    if it.ty.k == "vec":
                        body.append(f"{ind}{d} = [X.dom.neg(X,e) for e in {val(o[0])}]\n")
                    else:
                        body.append(f"{ind}{d} = X.dom.neg(X,{val(o[0])})\n")
                elif op == "icmp":
                    w = it.ty.n if it.ty.k == "int" else 64
                    if it.ty.k == "vec":
                        raise Unsupported("vec icmp")
                    if it.x in ("eq", "ne"):
                        s = "==" if it.x == "eq" else "!="
                        body.append(f"{ind}a={val(o[0])};b={val(o[1])}\n{ind}{d} = (1 if a{s}b else 0) if a.__class__ is int and b.__class__ is int else i_cmp(X,{it.x!r},a,b,{w})\n")
                    elif it.x[0] == "u":
                        s = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[it.x[1:]]
                        body.append(f"{ind}a={val(o[0])};b={val(o[1])}\n{ind}{d} = (1 if a{s}b else 0) if a.__class__ is int and b.__class__ is int else i_cmp(X,{it.x!r},a,b,{w})\n")
                    else:
                        body.append(f"{ind}{d} = i_cmp(X,{it.x!r},{val(o[0])},{val(o[1])},{w})\n")
                elif op == "fcmp":
                    body.append(f"{ind}{d} = X.dom.cmp(X,{it.x!r},{val(o[0])},{val(o[1])})\n")
                elif op in llir.CAST:
                    st = it.x
                    a = val(o[0])
                    if op in ("ptrtoint", "inttoptr", "freeze", "addrspacecast"):
                        body.append(f"{ind}{d} = {a}\n")
                    elif op == "bitcast":
                        if st.k == "vec" or it.ty.k == "vec":
                            body.append(f"{ind}{d} = v_bitcast({a},{K(st)},{K(it.ty)})\n")
                        else:
                            body.append(f"{ind}{d} = {a}\n")
                    elif op == "trunc":
                        body.append(f"{ind}{d} = i_trunc({a},{st.n},{it.ty.n})\n")
                    elif op in ("zext", "sext"):
                        body.append(f"{ind}{d} = i_ext({a},{st.n},{it.ty.n},{op=='sext'})\n")
                    elif op == "fptrunc" and st.k != "vec":
                        body.append(f"{ind}{d} = X.dom.narrow(X,{a})\n")
                    elif op in ("fpext", "fptrunc"):
                        body.append(f"{ind}{d} = {a}\n")
                    elif op in ("sitofp", "uitofp"):
                        if st.k == "vec":
                            body.append(f"{ind}{d} = [X.dom.from_int(X,e,{st.e.n},{op[0]=='s'}) for e in {a}]\n")
                        else:
                            body.append(f"{ind}{d} = X.dom.from_int(X,{a},{st.n},{op[0]=='s'})\n")
                    elif op in ("fptosi", "fptoui"):
                        body.append(f"{ind}{d} = X.dom.to_int(X,{a},{it.ty.n},{op=='fptosi'})\n")
                    else:
                        raise Unsupported(op)
                elif op == "jmp":
                    body.append(edge(l, it.x, ind))
                elif op == "br":
                    body.append(f"{ind}c={val(o[0])}\n{ind}if c.__class__ is not int: c = X.branch(c)\n{ind}if c:\n{edge(l, it.x[0], ind+'  ')}{ind}else:\n{edge(l, it.x[1], ind+'  ')}")
                elif op == "switch":
                    body.append(f"{ind}c={val(o[0])}\n{ind}if c.__class__ is not int: c = X.switch(c,{it.ty.n},{tuple(v & ((1<<it.ty.n)-1) for v, _ in it.x[1])!r})\n")
                    for v, t in it.x[1]:
                        body.append(f"{ind}if c=={v & ((1<<it.ty.n)-1)}:\n{edge(l, t, ind+'  ')}")
                    body.append(edge(l, it.x[0], ind))
                elif op == "ret":
                    body.append(f"{ind}X.ret = {val(o[0]) if o else 'None'}\n{ind}return -1\n")
                elif op == "unreachable":
                    body.append(f"{ind}X.unreachable()\n")
                elif op == "alloca":
                    n = val(o[0]) if o else "1"
                    body.append(f"{ind}{d} = X.alloc({layout(it.ty).size}*{n})\n")
                elif op == "load":
                    t = layout(it.ty)
                    if t.k in ("struct", "array", "vec"):
                        body.append(f"{ind}{d} = X.load_agg({val(o[0])},{K(t)})\n")
                    else:
                        w = t.n if t.k == "int" else 0
                        body.append(f"{ind}{d} = X.load({val(o[0])},{t.size},{w})\n")
                elif op == "store":
                    t = layout(it.ty)
                    if t.k in ("struct", "array", "vec"):
                        body.append(f"{ind}X.store_agg({val(o[1])},{val(o[0])},{K(t)})\n")
                    else:
                        w = t.n if t.k == "int" else 0
                        body.append(f"{ind}X.store({val(o[1])},{t.size},{val(o[0])},{w})\n")
                elif op == "gep":
                    body.append(f"{ind}{d} = {gep(it.ty, o)}\n")
                elif op == "select":
                    t = it.ty
                    isf = t.k in ("float", "double")
                    w = t.n if t.k == "int" else 64
                    body.append(f"{ind}c={val(o[0])}\n{ind}a={val(o[1])};b={val(o[2])}\n{ind}{d} = (a if c else b) if c.__class__ is int else X.select(c,a,b,{w},{isf})\n")
                elif op == "call":
                    nm = it.x.v if it.x.k == "glob" else None
                    args = ",".join(val(a) for a in o)
                    if nm is None:
                        body.append(f"{ind}t = X.call_ptr({val(it.x)},[{args}])\n")
                    elif nm.startswith(("@llvm.lifetime", "@llvm.dbg", "@llvm.experimental.noalias", "@llvm.assume", "@llvm.stacksave", "@llvm.stackrestore", "@llvm.donothing")):
                        continue
                    elif nm.startswith("@llvm."):
                        ws = [a.ty.n if a.ty.k == "int" else 0 for a in o]
                        body.append(f"{ind}t = X.intrinsic({nm!r},[{args}],{ws!r})\n")
                    else:
                        body.append(f"{ind}t = X.call({nm!r},[{args}])\n")
                    if d:
                        body.append(f"{ind}{d} = t\n")
                elif op == "extractvalue":
                    body.append(f"{ind}{d} = {val(o[0])}{''.join(f'[{i}]' for i in it.x)}\n")
                elif op == "insertvalue":
                    body.append(f"{ind}{d} = agg_insert({val(o[0])},{val(o[1])},{it.x!r})\n")
                elif op == "extractelement":
                    body.append(f"{ind}{d} = {val(o[0])}[{val(o[1])}]\n")
                elif op == "insertelement":
                    body.append(f"{ind}{d} = agg_insert({val(o[0])},{val(o[1])},[{val(o[2])}])\n")
                elif op == "shufflevector":
                    body.append(f"{ind}{d} = v_shuffle({val(o[0])},{val(o[1])},{val(o[2])})\n")
                else:
                    raise Unsupported(op)
            src.append(f"  X.tick({len(f.blocks[l])})\n" + "".join(body))
        env = dict(C=consts, UNDEF=UNDEF, i_bin=i_bin, i_cmp=i_cmp, i_trunc=i_trunc, i_ext=i_ext, padd=padd, pgep=pgep, agg_insert=agg_insert, v_bin=v_bin, v_shuffle=v_shuffle, v_bitcast=v_bitcast, i_nsw=i_nsw)
        exec(compile("".join(src), f.name, "exec"), env)
        c = Compiled()
        c.name = f.name
        c.blocks = [env[f"b{i}"] for i in range(len(f.order))]
        c.nregs = len(regs)
        c.params = len(f.params)
        return c

self_nsw = False
def i_nsw(X, op, a, b, w):
    return i_bin(X, op, a, b, w)

def zero_agg(m, t):
    if t.k == "struct":
        return [zero_agg(m, f) for f in t.fs]
    if t.k in ("array", "vec"):
        return [zero_agg(m, t.e) for _ in range(t.n)]
    if t.k in ("float", "double"):
        return m.dom.const(Fraction(0), 64)
    return 0

def undef_agg(t):
    if t.k == "struct":
        return [undef_agg(f) for f in t.fs]
    if t.k in ("array", "vec"):
        return [undef_agg(t.e) for _ in range(t.n)]
    return UNDEF

def agg_insert(a, v, idx):
    a = list(a)
    if len(idx) == 1:
        a[idx[0]] = v
    else:
        a[idx[0]] = agg_insert(a[idx[0]], v, idx[1:])
    return a

def v_bin(X, op, a, b, k, n):
    if op[0] == "f":
        return [X.dom.bin(X, op, x, y, 64) for x, y in zip(a, b)]
    return [i_bin(X, op, x, y, n) for x, y in zip(a, b)]

def v_shuffle(a, b, m):
    s = list(a) + (list(b) if isinstance(b, list) else [UNDEF] * len(a))
    return [s[i] if isint(i) else UNDEF for i in m]

def v_bitcast(a, st, dt):
    if st.k == "vec" and dt.k == "int":
        return mkcat([(st.e.size, x) for x in a])
    if st.k == "int" and dt.k == "vec":
        out = []
        for i in range(dt.n):
            out.append(i_trunc(i_bin(None, "lshr", a, i * dt.e.size * 8, st.n) if i else a, st.n, dt.e.size * 8))
        return out
    if st.k == "vec" and dt.k in ("double", "float"):
        return mkcat([(st.e.size, x) for x in a])
    if dt.k == "vec" and isinstance(a, Cat):
        return [v for _, v in a.parts]
    if st.k == "vec" and dt.k == "vec" and st.n == dt.n:
        return a
    raise Unsupported("vector bitcast")

def padd(p, c):
    if p.__class__ is int:
        return (p + c) & M64
    if p is UNDEF:
        return p
    return lower(p + c)

def pgep(X, base, const, terms):
    off = const
    sym = None
    for v, s, w in terms:
        if v.__class__ is int:
            off += sgn(v, w) * s
        elif v is UNDEF:
            raise Unsupported("undef gep")
        else:
            e = bv(v, w)
            if w < 64:
                e = z3.SignExt(64 - w, e)
            e = e * s
            sym = e if sym is None else sym + e
    if sym is None:
        return padd(base, off)
    r = lower((base if base.__class__ is not int else z3.BitVecVal(base, 64)) + sym + z3.BitVecVal(off & M64, 64))
    if not isint(r) and isint(base):
        X.symbase[r.get_id()] = (base, r)
    return r

# ---- one path ------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = self.steps = self.checks = self.asserts = 0
        self.solver_time = 0.0
        self.unknown = self.cvc5 = 0
        self.reached = set()

def cvc5_check(solver, secs):
    """second solver for queries z3 gives up on (bit-vector multiplication)"""
    import subprocess, re
    txt = solver.to_smt2().replace("(check-sat)", "")
    names = sorted(set(re.findall(r"\(declare-fun (\S+) \(\)", txt)))
    q = "(set-option :produce-models true)\n(set-logic ALL)\n" + re.sub(r"\(set-info[^\n]*\n", "", txt) + "\n(check-sat)\n"
    q += "".join(f"(get-value ({n}))\n" for n in names)
    try:
        o = subprocess.run(["cvc5", "--lang", "smt2", f"--tlimit={int(secs * 1000)}"], input=q, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 10).stdout
    except subprocess.TimeoutExpired:
        return z3.unknown, None
    first = o.split("\n", 1)[0].strip()
    if first == "unsat":
        return z3.unsat, None
    if first != "sat":
        return z3.unknown, None
    vals = dict(re.findall(r"\(\((\S+) (#b[01]+|true|false)\)\)", o))
    m = z3.Solver()
    m.set("timeout", 10000)
    m.add(solver.assertions())
    seen = {}
    def walk(e, done=set()):
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in done:
                continue
            done.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                seen[x.decl().name()] = x
            st.extend(x.children())
    done = set()
    for a in solver.assertions():
        walk(a, done)
    for n, v in vals.items():
        x = seen.get(n)
        if x is None:
            continue
        m.add(x == (z3.BoolVal(v == "true") if v in ("true", "false") else z3.BitVecVal(int(v[2:], 2), len(v) - 2)))
    if m.check() == z3.sat:
        return z3.sat, m.model()
    return z3.unknown, None

class Exec:
    """state of one path"""
    def __init__(self, mach, prefix, model, stats, opts):
        self.m, self.dom = mach, mach.dom
        self.prefix, self.taken = prefix, []
        self.model = model
        self.stats, self.opts = stats, opts
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("solver_ms", 20000))
        self.pc = []
        self.mem, self.sizes, self.ro = {}, {}, set()
        self.nobj = 1
        self.gmap = {}
        self.pending = []
        self.ret = None
        self.inputs = []          # (name, z3 var or int)
        self.emits = []
        self.symbase = {}
        self.steps = 0
        self.maxsteps = opts.get("max_steps", 20_000_000)
        self.depth = 0
        self.deadline = opts.get("deadline")
        self.vars = {}
        self.divmap, self.gcdmap = {}, {}

    # -- control
    def tick(self, n):
        self.steps += n
        if self.steps > self.maxsteps:
            raise Budget("steps")
        if self.deadline and (self.steps & 0xfff) < n and time.time() > self.deadline:
            raise Budget("time")
    def check(self, *extra):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Budget("time")
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        mdl = self.solver.model() if r == z3.sat else None
        if r == z3.unknown and self.opts.get("cvc5"):
            r, mdl = cvc5_check(self.solver, self.opts["cvc5"])
            self.stats.cvc5 += 1
        self.solver.pop()
        self.stats.checks += 1
        self.stats.solver_time += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, mdl
    def assume(self, c):
        if isint(c):
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
            if len(self.taken) >= len(self.prefix):
                r, m = self.check()
                if r == z3.unsat:
                    raise PathEnd()
                self.model = m
    def require(self, c, msg):
        r, m = self.check(z3.Not(c))
        if r == z3.sat:
            raise Violation(msg, m)
    def getmodel(self):
        if self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                raise PathEnd()
            self.model = m
        return self.model
    def branch(self, c):
        if c is UNDEF:
            raise Unsupported("branch on undef")
        c = tobool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            cc = c if v else z3.Not(c)
            self.pc.append(cc); self.solver.add(cc)
            return v
        m = self.getmodel()
        if m is not None:
            v = 1 if z3.is_true(m.eval(c, model_completion=True)) else 0
        else:
            v = 1
        r, m2 = self.check(z3.Not(c) if v else c)
        if r != z3.unsat:
            self.pending.append((self.taken + [1 - v], m2))
        cc = c if v else z3.Not(c)
        self.taken.append(v)
        self.pc.append(cc); self.solver.add(cc)
        return v
    def switch(self, c, w, cases):
        c = bv(c, w)
        for v in cases:
            if self.branch(c == v):
                return v
        return -1
    def choose(self, lo, hi):
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = lo
            for k in range(hi, lo, -1):
                self.pending.append((self.taken + [k], self.model))
        self.taken.append(v)
        return v
    def concretize(self, e, limit=300):
        if isint(e):
            return e
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self.pc.append(e == v); self.solver.add(e == v)
            return v
        vals = []
        blk = []
        while True:
            r, m = self.check(*blk)
            if r != z3.sat:
                if r == z3.unknown:
                    raise Budget("concretize unknown")
                break
            v = m.eval(e, model_completion=True).as_long()
            vals.append((v, m))
            blk.append(e != v)
            if len(vals) > limit:
                raise Budget("concretize limit")
        if not vals:
            raise PathEnd()
        for v, m in vals[1:]:
            self.pending.append((self.taken + [v], m))
        v, m = vals[0]
        self.model = m
        self.taken.append(v)
        self.pc.append(e == v); self.solver.add(e == v)
        return v
    def select(self, c, a, b, w, isf):
        if c is UNDEF:
            raise Unsupported("select on undef")
        if isinstance(c, list):
            return [self.select(x, p, q, w, isf) if not isint(x) else (p if x else q) for x, p, q in zip(c, a, b)]
        if a is b:
            return a
        if isf:
            if self.dom.__class__ is RealDomain:
                return self.dom.select(self, c, a, b)
            return a if self.branch(c) else b
        if a.__class__ in (list, Cat) or b.__class__ in (list, Cat) or a is UNDEF or b is UNDEF:
            return a if self.branch(c) else b
        if w == 1:
            return lowerb(z3.If(c, tobool(a), tobool(b)))
        if w == 64 and isint(a) and isint(b) and a > 0xffffffff and b > 0xffffffff:
            return a if self.branch(c) else b      # pointers: fork
        if not (isint(a) or isinstance(a, z3.BitVecRef)) or not (isint(b) or isinstance(b, z3.BitVecRef)):
            return a if self.branch(c) else b
        if self.opts.get("fork"):
            return a if self.branch(c) else b
        return lower(z3.If(c, bv(a, w), bv(b, w)))
    def unreachable(self):
        raise Violation("undefined behaviour: unreachable code executed", None)

    # -- memory
    def alloc(self, size, name=None):
        self.nobj += 1
        o = self.nobj
        self.mem[o] = {}
        self.sizes[o] = size
        return (o << 32) | OFF0
    def gaddr(self, name):
        a = self.gmap.get(name)
        if a is not None:
            return a
        if name in self.m.mod.funcs or name in self.m.mod.decls:
            a = self.alloc(8)
            self.gmap[name] = a
            self.gmap[a] = name
            return a
        if name not in self.m.mod.globals:
            raise Unsupported("global " + name)
        init = llir.glob_init(self.m.mod, name)
        if init is None:
            raise Unsupported("external global " + name)
        t, v = init
        layout(t)
        a = self.alloc(t.size)
        self.gmap[name] = a
        self.init(a, t, v)
        if self.m.mod.globals[name][2]:
            self.ro.add(a >> 32)
        return a
    def init(self, a, t, v):
        layout(t)
        if v.k == "undef":
            return
        if v.k == "zero":
            if t.k in ("float", "double"):
                self.store(a, t.size, self.dom.const(Fraction(0), 64), 0)
            elif t.k in ("struct",):
                for f, o in zip(t.fs, t.offs):
                    self.init(a + o, f, v)
            elif t.k in ("array", "vec"):
                for i in range(t.n):
                    self.init(a + i * t.e.size, t.e, v)
            else:
                self.store(a, t.size, 0, 0)
            return
        if v.k == "cstr":
            s = v.v[2:-1]
            i = j = 0
            while i < len(s):
                if s[i:i + 2] == "\\\\":
                    ch = 92; i += 2
                elif s[i] == "\\":
                    ch = int(s[i + 1:i + 3], 16); i += 3
                else:
                    ch = ord(s[i]); i += 1
                self.store(a + j, 1, ch, 8); j += 1
            return
        if v.k == "agg":
            if t.k == "struct":
                for f, o, x in zip(t.fs, t.offs, v.v):
                    self.init(a + o, f, x)
            else:
                for i, x in enumerate(v.v):
                    self.init(a + i * t.e.size, t.e, x)
            return
        if v.k == "int":
            self.store(a, t.size, v.v & ((1 << t.n) - 1), t.n)
            return
        if v.k == "fp":
            self.store(a, t.size, self.dom.const(fp_const(v.v, t), 32 if t.k == "float" else 64), 0)
            return
        if v.k == "glob":
            self.store(a, 8, self.gaddr(v.v), 64); return
        if v.k == "cgep":
            bt, ops = v.v
            base = self.gaddr(ops[0].v)
            off, t2 = 0, None
            for i, o in enumerate(ops[1:]):
                if i == 0:
                    off += o.v * layout(bt).size; t2 = bt
                elif t2.k == "struct":
                    layout(t2); off += t2.offs[o.v]; t2 = t2.fs[o.v]
                else:
                    t2 = t2.e; off += o.v * layout(t2).size
            self.store(a, 8, base + off, 64); return
        raise Unsupported("init " + v.k)
    def loc(self, a, size, what):
        if a is UNDEF:
            raise MemError(what + " through undefined pointer")
        if not isint(a):
            a = self.concretize(a)
        o = a >> 32
        off = (a & 0xffffffff) - OFF0
        sz = self.sizes.get(o)
        if sz is None:
            raise MemError(f"{what} through null or invalid pointer")
        if off < 0 or off + size > sz:
            raise MemError(f"{what} out of bounds: offset {off} size {size} of object of {sz} bytes")
        return o, off
    def load(self, a, size, w):
        if not isint(a) and a is not UNDEF:
            b = self.symbase.get(a.get_id())
            if b and (b[0] >> 32) in self.ro and w:
                return self.load_table(a, b[0], size, w)
        o, off = self.loc(a, size, "read")
        c = self.mem[o].get(off)
        if c is not None and c[0] == size:
            v = c[1]
        else:
            v = self.load_slow(self.mem[o], off, size)
        if w == 1:
            if isint(v):
                return v & 1
            if isinstance(v, z3.BitVecRef):
                return lowerb(z3.Extract(0, 0, v) == 1)
        return v
    def load_table(self, a, base, size, w):
        o = base >> 32
        cells = self.mem[o]
        n = self.sizes[o] // size
        r = z3.BitVecVal(0, w)
        lo = z3.BitVecVal((o << 32) | OFF0, 64)
        idx = lower(z3.UDiv(a - lo, z3.BitVecVal(size, 64)))
        self.require(z3.ULT(a - lo, z3.BitVecVal(self.sizes[o], 64)), "out-of-bounds table read")
        for i in range(n):
            c = cells.get(i * size)
            if c is None or c[0] != size or not isint(c[1]):
                return self.load(self.concretize(a), size, w)
            r = z3.If(idx == i, z3.BitVecVal(c[1], w), r)
        return lower(r)
    def load_slow(self, cells, off, size):
        parts, pos, end = [], off, off + size
        while pos < end:
            c = cells.get(pos)
            if c is not None:
                if pos + c[0] <= end:
                    parts.append((c[0], c[1])); pos += c[0]
                    continue
                n = end - pos
                parts.append((n, self.part(c[1], c[0], 0, n))); pos = end
                continue
            for back in range(1, 64):
                c = cells.get(pos - back)
                if c is not None:
                    if c[0] > back:
                        n = min(c[0] - back, end - pos)
                        parts.append((n, self.part(c[1], c[0], back, n))); pos += n
                        break
                    c = None
                    break
            if c is None:
                parts.append((1, UNDEF)); pos += 1
        if len(parts) == 1:
            return parts[0][1]
        if all(p[1] is UNDEF for p in parts):
            return UNDEF
        if all(isint(p[1]) for p in parts):
            v = s = 0
            for n, x in parts:
                v |= x << s; s += 8 * n
            return v
        if all(isint(p[1]) or isinstance(p[1], z3.BitVecRef) for p in parts):
            return lower(z3.Concat(*[bv(x, 8 * n) for n, x in reversed(parts)]))
        return Cat(parts)
    def part(self, v, size, o, n):
        if v is UNDEF:
            return v
        if isint(v):
            return (v >> (8 * o)) & ((1 << (8 * n)) - 1)
        if isinstance(v, z3.BoolRef):
            v = bv(v, 8 * size)
        if isinstance(v, z3.BitVecRef):
            return lower(z3.Extract(8 * (o + n) - 1, 8 * o, v))
        if isinstance(v, Cat):
            pos = 0
            out = []
            for s, x in v.parts:
                if pos >= o and pos + s <= o + n:
                    out.append((s, x))
                elif pos < o + n and pos + s > o:
                    a = max(o, pos); b = min(o + n, pos + s)
                    out.append((b - a, self.part(x, s, a - pos, b - a)))
                pos += s
            return mkcat(out)
        if o == 0 and n == size:
            return v
        raise Unsupported("partial access to a floating-point cell")
    def store(self, a, size, v, w):
        o, off = self.loc(a, size, "write")
        if o in self.ro:
            raise MemError("write to constant")
        cells = self.mem[o]
        if w == 1 and isinstance(v, z3.BoolRef):
            v = bv(v, 8)
        if v.__class__ is Cat:
            pos = off
            for s, x in v.parts:
                self.put(cells, pos, s, x); pos += s
            return
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        self.put(cells, off, size, v)
    def put(self, cells, off, size, v):
        self.clear(cells, off, size)
        cells[off] = (size, v)
    def clear(self, cells, off, size):
        # remove / split overlapping cells
        for back in range(1, 64):
            c = cells.get(off - back)
            if c is not None:
                if c[0] > back:
                    s, x = c
                    del cells[off - back]
                    cells[off - back] = (back, self.part(x, s, 0, back))
                    if s > back + size:
                        n = s - back - size
                        cells[off + size] = (n, self.part(x, s, back + size, n))
                break
        pos, end = off, off + size
        while pos < end:
            c = cells.get(pos)
            if c is not None:
                del cells[pos]
                if pos + c[0] > end:
                    n = pos + c[0] - end
                    cells[end] = (n, self.part(c[1], c[0], end - pos, n))
                pos += c[0]
            else:
                pos += 1
    def memcpy(self, d, s, n):
        n = self.concretize(n)
        if n == 0:
            return
        so, soff = self.loc(s, n, "read")
        do, doff = self.loc(d, n, "write")
        sc = self.mem[so]
        got = []
        pos, end = soff, soff + n
        while pos < end:
            c = sc.get(pos)
            if c is not None:
                if pos + c[0] <= end:
                    got.append((pos - soff, c[0], c[1])); pos += c[0]
                else:
                    got.append((pos - soff, end - pos, self.part(c[1], c[0], 0, end - pos))); pos = end
            else:
                if pos == soff:
                    v = None
                    for back in range(1, 64):
                        c = sc.get(pos - back)
                        if c is not None:
                            if c[0] > back:
                                k = min(c[0] - back, end - pos)
                                v = (pos - soff, k, self.part(c[1], c[0], back, k))
                            break
                    if v:
                        got.append(v); pos += v[1]
                        continue
                pos += 1
        dc = self.mem[do]
        self.clear(dc, doff, n)
        for p, sz, v in got:
            dc[doff + p] = (sz, v)
    def memset(self, d, b, n):
        n = self.concretize(n)
        if n == 0:
            return
        b = self.concretize(b) if b is not UNDEF else UNDEF
        o, off = self.loc(d, n, "write")
        cells = self.mem[o]
        self.clear(cells, off, n)
        if b is UNDEF:
            return
        pos, end = off, off + n
        w8 = int.from_bytes(bytes([b]) * 8, "little")
        while pos + 8 <= end:
            cells[pos] = (8, w8); pos += 8
        while pos < end:
            cells[pos] = (1, b); pos += 1
    def load_agg(self, a, t):
        layout(t)
        if t.k == "struct":
            return [self.load_agg(padd(a, o), f) for f, o in zip(t.fs, t.offs)]
        if t.k in ("array", "vec"):
            return [self.load_agg(padd(a, i * t.e.size), t.e) for i in range(t.n)]
        return self.load(a, t.size, t.n if t.k == "int" else 0)
    def store_agg(self, a, v, t):
        layout(t)
        if t.k == "struct":
            for f, o, x in zip(t.fs, t.offs, v):
                self.store_agg(padd(a, o), x, f)
        elif t.k in ("array", "vec"):
            if isinstance(v, Cat):
                v = [x for _, x in v.parts]
            for i in range(t.n):
                self.store_agg(padd(a, i * t.e.size), v[i], t.e)
        elif v is not UNDEF:
            self.store(a, t.size, v, t.n if t.k == "int" else 0)

    # -- calls
    def call(self, name, args):
        h = self.m.externs.get(name)
        if h is not None:
            return h(self, args)
        for pred, hh in self.m.summaries:
            if pred(name):
                r = hh(self, name, args)
                if r is not NotImplemented:
                    return r
        f = self.m.mod.funcs.get(name)
        if f is None:
            return self.external(name, args)
        c = self.m.get(name)
        self.depth += 1
        if self.depth > 200:
            raise Budget("recursion")
        r = [UNDEF] * c.nregs
        r[:len(args)] = args
        bl = c.blocks
        i = 0
        try:
            while True:
                i = bl[i](self, r)
                if i < 0:
                    break
        finally:
            self.depth -= 1
        return self.ret
    def call_ptr(self, p, args):
        if isint(p) and p in self.gmap:
            return self.call(self.gmap[p], args)
        raise Unsupported("indirect call")
    def external(self, name, args):
        n = name[1:]
        if n in ("sin", "cos", "tan", "sqrt", "atan2", "sinf", "cosf", "tanf", "sqrtf", "atan2f", "pow", "powf", "fabs", "fabsf"):
            return self.dom.call(self, n.rstrip("f") if n not in () else n, args)
        if n in ("memcpy", "memmove"):
            self.memcpy(args[0], args[1], args[2]); return args[0]
        if n == "memset":
            self.memset(args[0], i_trunc(args[1], 32, 8), args[2]); return args[0]
        if n == "_Znwm":
            return self.alloc(self.concretize(args[0]), "heap")
        if n in ("_ZdlPv", "_ZdlPvm"):
            return None
        raise Unsupported("external " + name)
    def intrinsic(self, nm, a, ws):
        b = nm.split(".")
        k = b[1]
        w = ws[0] if ws else 0
        if k in ("memcpy", "memmove"):
            return self.memcpy(a[0], a[1], a[2])
        if k == "memset":
            return self.memset(a[0], a[1], a[2])
        if k in ("umin", "umax", "smin", "smax"):
            c = i_cmp(self, {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k], a[0], a[1], w)
            return (a[0] if c else a[1]) if isint(c) else self.select(c, a[0], a[1], w, False)
        if k == "ctpop":
            if isint(a[0]):
                return bin(a[0]).count("1")
            s = z3.BitVecVal(0, w)
            for i in range(w):
                s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, a[0]))
            return lower(s)
        if k in ("ctlz", "cttz"):
            if isint(a[0]):
                x = a[0]
                if x == 0:
                    return w
                return w - x.bit_length() if k == "ctlz" else (x & -x).bit_length() - 1
            r = z3.BitVecVal(w, w)
            rng = range(w) if k == "ctlz" else range(w - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i if k == "ctlz" else i, w), r)
            return lower(r)
        if k == "abs":
            if isint(a[0]):
                return abs(sgn(a[0], w)) & ((1 << w) - 1)
            x = a[0]
            return lower(z3.If(x < 0, -x, x))
        if k in ("fshl", "fshr"):
            if isint(a[2]):
                s = a[2] % w
                if s == 0:
                    return a[0] if k == "fshl" else a[1]
                if k == "fshr":
                    s = w - s
                return i_bin(self, "or", i_bin(self, "shl", a[0], s, w), i_bin(self, "lshr", a[1], w - s, w), w)
        if k in ("uadd", "sadd", "umul", "smul", "usub", "ssub") and b[2] == "with":
            return self.with_ov(k, a, w)
        if k == "usub" and b[2] == "sat":
            c = i_cmp(self, "ugt", a[0], a[1], w)
            d = i_bin(self, "sub", a[0], a[1], w)
            return (d if c else 0) if isint(c) else self.select(c, d, 0, w, False)
        if k == "fabs":
            return self.dom.call(self, "fabs", a)
        if k == "fmuladd" or k == "fma":
            return self.dom.bin(self, "fadd", self.dom.bin(self, "fmul", a[0], a[1], 64), a[2], 64)
        if k in ("sqrt", "sin", "cos", "tan", "pow", "powi"):
            return self.dom.call(self, k, a)
        if k == "is":
            return 1
        if k == "trap":
            raise Violation("trap executed", None)
        if k == "bswap" and isint(a[0]):
            return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
        raise Unsupported("intrinsic " + nm)
    def with_ov(self, k, a, w):
        op = {"add": "add", "mul": "mul", "sub": "sub"}[k[1:]]
        r = i_bin(self, op, a[0], a[1], w)
        if isint(a[0]) and isint(a[1]):
            x, y = (a[0], a[1]) if k[0] == "u" else (sgn(a[0], w), sgn(a[1], w))
            full = x + y if op == "add" else x - y if op == "sub" else x * y
            got = r if k[0] == "u" else sgn(r, w)
            return [r, int(full != got)]
        A, B = bv(a[0], w), bv(a[1], w)
        ext = z3.ZeroExt if k[0] == "u" else z3.SignExt
        A2, B2 = ext(w, A), ext(w, B)
        full = A2 + B2 if op == "add" else A2 - B2 if op == "sub" else A2 * B2
        return [r, lowerb(full != ext(w, bv(r, w)))]

# ---- exploration -----------------------------------------------------------------------
class Result:
    def __init__(self):
        self.status = "ok"       # ok | violation | incomplete | unsupported
        self.msg = ""
        self.model = None
        self.stats = Stats()
        self.viols = []
        self.functions = []
        self.wall = 0.0

def std_externs():
    ext = {}
    def vp_int(X, a):
        i, lo, hi = a[0], sgn(a[1], 32), sgn(a[2], 32)
        if lo == hi:
            v = lo & 0xffffffff
        else:
            v = z3.BitVec(f"x{i}", 32)
            # keep the high bits syntactically constant to ease bit-blasting
            n = max(abs(lo), abs(hi) + 1).bit_length() + 1
            if lo >= 0:
                n = max(hi.bit_length(), 1)
            if n < 31:
                s = z3.BitVec(f"x{i}", n)
                v = z3.SignExt(32 - n, s) if lo < 0 else z3.ZeroExt(32 - n, s)
            if f"x{i}" not in X.vars:
                X.vars[f"x{i}"] = v
                X.inputs.append((i, v))
            X.assume(z3.And(v >= lo, v <= hi))
            return v
        X.inputs.append((i, v))
        return v
    def vp_choose(X, a):
        v = X.choose(sgn(a[1], 32), sgn(a[2], 32))
        X.inputs.append((a[0], v & 0xffffffff))
        return v & 0xffffffff
    def vp_assume(X, a):
        c = a[0]
        X.assume(tobool(c) if not isint(c) else c)
        return None
    def vp_assert(X, a):
        c, i = a[0], a[1]
        X.stats.asserts += 1
        X.stats.reached.add(i)
        if c is UNDEF:
            raise Unsupported("assert on undef")
        if isint(c):
            if not c:
                raise Violation(f"assertion {i}", X.getmodel())
            return None
        r, m = X.check(z3.Not(tobool(c)))
        if r == z3.sat:
            raise Violation(f"assertion {i}", m)
        if r == z3.unknown:
            raise Budget("assertion unknown")
        return None
    def vp_concrete(X, a):
        return X.concretize(a[0])
    def vp_emit(X, a):
        X.emits.append(tuple(a))
        return None
    ext["@vp_int"] = vp_int
    ext["@vp_choose"] = vp_choose
    ext["@vp_assume"] = vp_assume
    ext["@vp_assert"] = vp_assert
    ext["@vp_concrete"] = vp_concrete
    ext["@vp_emit"] = vp_emit
    return ext

def explore(mach, entry, opts, on_path=None):
    """explore all paths of `entry`; on_path(X) may raise Violation"""
    res = Result()
    st = res.stats
    t0 = time.time()
    work = [([], None)]
    opts = dict(opts)
    if opts.get("budget"):
        opts["deadline"] = t0 + opts["budget"]
    while work:
        prefix, model = work.pop()
        X = Exec(mach, prefix, model, st, opts)
        try:
            X.call(entry, [])
            st.paths += 1
            st.steps += X.steps
            if on_path:
                on_path(X)
        except PathEnd:
            pass
        except Violation as v:
            res.status = "violation"
            res.msg = v.msg
            m = v.model
            if m is None:
                try:
                    m = X.getmodel()
                except PathEnd:
                    m = None
                    res.status = "ok"
            if res.status == "violation":
                res.model = [(i, (m.eval(v2, model_completion=True).as_signed_long() if m is not None and not isint(v2) else sgn(v2, 32))) for i, v2 in X.inputs]
                res.path = X
                break
        except MemError as e:
            try:
                m = X.getmodel()
                res.status, res.msg = "violation", "memory: " + str(e)
                res.model = [(i, (m.eval(v2, model_completion=True).as_signed_long() if m is not None and not isint(v2) else sgn(v2, 32))) for i, v2 in X.inputs]
                break
            except PathEnd:
                pass
        except Budget as e:
            res.status, res.msg = "incomplete", str(e)
            break
        except Unsupported as e:
            res.status, res.msg = "unsupported", str(e)
            break
        work.extend(X.pending)
        if opts.get("max_paths") and st.paths >= opts["max_paths"] and work:
            res.status, res.msg = "incomplete", "path limit"
            break
    res.functions = sorted(mach.executed)
    res.wall = time.time() - t0
    return res
