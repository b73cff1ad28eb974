"""compute() programs: compile with clang to LLVM IR, execute symbolically, let the SMT solver compare with the oracle."""
import os, subprocess, time, tempfile, shutil, math, random, hashlib, json
from fractions import Fraction
import z3
from . import llir, symex, poly, dsl
from .rfdomain import RFDomain
from .ga import ALG, GENERIC

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = ["-I", os.path.join(REPO, "public"), "-I", HERE, "-I", os.path.join(REPO, "samples", "pudding"), "-I", os.path.join(REPO, "samples", "pudding", "public", "pudding")]
CLANG = ["clang++", "-isystem", os.path.join(HERE, "shadow"), "-std=c++17", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
         "-ffp-contract=off", "-fno-exceptions", "-fno-math-errno", *[f"-fno-builtin-{f}{x}" for f in ("sin", "cos", "tan", "sqrt", "atan2", "pow") for x in ("", "f")], "-fconstexpr-steps=200000000", "-fconstexpr-depth=2048", "-ftemplate-depth=2048",
         "-fbracket-depth=2048", "-w", "-S", "-emit-llvm"]
GCC = ["g++", "-std=c++17", "-O1", "-ffp-contract=off", "-fconstexpr-ops-limit=1000000000", "-fconstexpr-loop-limit=10000000", "-ftemplate-depth=2048", "-w"]

def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, "timeout"

class Prog:
    """one client program.  body(src) is C++ for the function body; oracle(ctx, reals) -> list of {element: RF} (null basis)"""
    def __init__(self, name, alg, nreal, body, oracle, desc, T="double", headers=None, pre="", nin=None, minimal=False, tol=None, exact=None):
        self.name, self.alg, self.nreal, self.body, self.oracle, self.desc, self.T = name, alg, nreal, body, oracle, desc, T
        self.headers = headers or {alg}
        self.pre = pre
        self.minimal = minimal      # also require that the result carries no component that is identically zero
        self.tol = tol
        self.approx = None          # allowed absolute error for inputs in [-1, 1] (coefficients outside the exact range)
        self.cands = None           # optional concrete inputs for the replay
        self.internal = alg in GENERIC   # uses names a refactoring may change: not compiling is then no finding
        self.assume = None          # optional: (ctx, reals) -> list of z3 facts

def expr_prog(name, alg, types, exprs, T="double", minimal=False, tuple_ret=None):
    """types: list of type names; exprs: Ex or list of Ex (multi-result)"""
    types = [dsl.ty(alg, t) for t in types]
    multi = isinstance(exprs, (list, tuple))
    es = list(exprs) if multi else [exprs]
    names = [f"a{i}" for i in range(len(types))]
    def consts(e):
        return e.op == "const" or any(map(consts, e.a))
    lines = (["using namespace gal;"] if any(map(consts, es)) else []) + [f"using T = {T};", f"using namespace gal::{alg};", "using gal::sqrt; using gal::sin; using gal::cos; using gal::tan; using gal::exp; using gal::scalar_product;"]
    k = 0
    hdr = {alg}
    for i, t in enumerate(types):
        fs = [f"(T)vp_real({k + j})" for j in range(t.n)]
        if "vga::" in t.cpp:
            hdr.add("vga")
        if t.name == "float":
            lines.append(f"T v{i} = {fs[0]};")
        elif t.name == "rotor":
            lines.append(f"{t.cpp} v{i}{{T(0), {', '.join(fs[2:])}}}; v{i}[0] = {fs[0]}; v{i}[1] = {fs[1]};")
        else:
            lines.append(f"{t.cpp} v{i}{{{', '.join(fs)}}};")
        k += t.n
    body = [dsl.cpp(e, names) for e in es]
    ret = body[0] if not multi else f"gal::make_tuple({', '.join(body)})"
    # a bare parameter/identical expression is fine as well
    lines.append(f"auto r = gal::{alg}::compute([]({', '.join('auto ' + n for n in names)}) {{ return {ret}; }}, {', '.join(f'v{i}' for i in range(len(types)))});")
    lines.append("vp::result(r);")
    A = ALG[alg]
    def oracle(ctx, reals):
        ins, k = [], 0
        for t in types:
            ins.append(t.meaning(reals[k:k + t.n]))
            k += t.n
        memo = {}
        return [A.to_null(dsl.value(e, A, ctx, ins, memo)) for e in es]
    desc = f"{alg}[{','.join(t.name for t in types)}] {ret}" + ("" if T == "double" else f" ({T})")
    p = Prog(name, alg, k, lines, oracle, desc, T=T, headers=hdr, minimal=minimal)
    return p

def staged_prog(name, alg, types, cuts, final, T="double"):
    """the same value computed in several calls: every node of cuts is computed by a call of its own, whose result - whatever its type -
    is handed to the later calls"""
    p = expr_prog(name, alg, types, final, T=T)
    multi = isinstance(final, (list, tuple))
    types = [dsl.ty(alg, t) for t in types]
    names = [f"a{i}" for i in range(len(types))]
    lines = p.body[:-2]
    cut = {}
    args, pars = [f"v{i}" for i in range(len(types))], list(names)
    txt = []
    def call(var, ret):
        lines.append(f"auto {var} = gal::{alg}::compute([]({', '.join('auto ' + n for n in pars)}) {{ return {ret}; }}, {', '.join(args)});")
    for k, x in enumerate(cuts):
        if isinstance(x, tuple):       # several at once
            call(f"t{k}", "gal::make_tuple(" + ", ".join(dsl.cpp(y, names, cut) for y in x) + ")")
            txt.append("(" + ", ".join(dsl.cpp(y, names, cut) for y in x) + ")")
            for j, y in enumerate(x):
                lines.append(f"auto const& s{k}_{j} = std::get<{j}>(t{k});")
            new = [(f"s{k}_{j}", f"b{k}_{j}", y) for j, y in enumerate(x)]
        else:
            as_ = None
            if isinstance(x, list):     # [node, type]: converted to a named entity first
                x, as_ = x
            call(f"s{k}" if not as_ else f"u{k}", dsl.cpp(x, names, cut))
            if as_:
                lines.append(f"{dsl.ty(alg, as_).cpp} s{k} = u{k};")
            txt.append(dsl.cpp(x, names, cut) + (f" as {as_}" if as_ else ""))
            new = [(f"s{k}", f"b{k}", x)]
        for a, b, y in new:
            args.append(a)
            pars.append(b)
            cut[id(y)] = b
    es = list(final) if multi else [final]
    body = [dsl.cpp(e, names, cut) for e in es]
    ret = body[0] if not multi else f"gal::make_tuple({', '.join(body)})"
    call("r", ret)
    lines.append("vp::result(r);")
    p.body = lines
    p.desc = f"{alg}[{','.join(t.name for t in types)}] " + " ; ".join(txt) + " ; " + ret + ("" if T == "double" else f" ({T})")
    return p

def source(progs):
    hs = set()
    for p in progs:
        hs |= p.headers
    gen = sorted(h for h in hs if h in GENERIC)
    s = "".join(f"#include <gal/{h}.hpp>\n" for h in sorted(hs - set(gen)) or ["vga"]) + '#include "vp.hpp"\n'
    for h in gen:
        s += f"""namespace gal {{ namespace {h} {{ using {h}_algebra = gal::algebra<gal::metric<{', '.join(map(str, GENERIC[h]))}>>;
template <typename L, typename... D> auto compute(L l, D const&... d) {{ return ::gal::detail::compute<{h}_algebra>(l, d...); }} }} }}
"""
    for i, p in enumerate(progs):
        s += p.pre
        s += f'// {p.desc}\nextern "C" void P{i}()\n{{\n    ' + "\n    ".join(p.body) + "\n}\n"
    return s

class PR:
    """result for one program"""
    __slots__ = ("name", "desc", "status", "msg", "queries", "solver_s", "steps", "paths", "comps", "nontrivial", "model", "fns", "wall", "detail")
    def __init__(self, p):
        self.name, self.desc = p.name, p.desc
        self.status, self.msg = "ok", ""
        self.queries = self.steps = self.paths = self.comps = 0
        self.solver_s = self.wall = 0.0
        self.nontrivial = False
        self.model = None
        self.fns = 0
        self.detail = None

def ext_real():
    ext = symex.std_externs()
    def vp_real(X, a):
        return X.dom.ctx.var(f"x{a[0]}")
    def vp_res(X, a):
        X.emits.append((symex.sgn(a[0], 32), symex.sgn(a[1], 32), a[2]))
    def vp_slots(X, a):
        X.slots = a[0]
    ext["@vp_real"], ext["@vp_res"], ext["@vp_slots"] = vp_real, vp_res, vp_slots
    return ext

def decide(p, dom, X, out, solver_ms):
    """compare the path's results with the oracle"""
    ctx = dom.ctx
    reals = [ctx.var(f"x{i}") for i in range(p.nreal)]
    try:
        exp = p.oracle(ctx, reals)
    except dsl.Undefined as e:
        out.status, out.msg = "undefined", str(e)
        return
    slots = getattr(X, "slots", None)
    if slots != len(exp):
        out.status, out.msg = "violation", f"{slots} results instead of {len(exp)}"
        out.model = ("shape",)
        return
    act = [{} for _ in exp]
    for s, e, v in X.emits:
        if e in act[s]:
            out.status, out.msg = "violation", f"element {e} reported twice"
            return
        act[s][e] = dom.lift(v)
    diffs = []
    zero = ctx.const(0)
    prs = []
    for s in range(len(exp)):
        for e in sorted(set(exp[s]) | set(act[s])):
            a, b = act[s].get(e, zero), exp[s].get(e, zero)
            prs.append((s, e, a, b))
            if b.n:
                out.nontrivial = True
    out.comps += len(prs)
    base = ctx.side() if (ctx.opaque or ctx.factors or ctx.index.get("pi") is not None or ctx.index.get("e") is not None) else []
    S = z3.Solver()
    S.set("timeout", solver_ms)
    S.add(base)
    if X.pc:
        S.add(X.pc)
    if p.assume:
        S.add(p.assume(ctx, reals))
    ors = []
    if p.approx:
        eps = z3.RealVal(str(p.approx))
        for i in range(p.nreal):
            v = ctx.zvar(ctx.index[f"x{i}"])
            S.add(v <= 1, v >= -1)
        for s, e, a, b in prs:
            df = a - b
            if df.d:
                out.status, out.msg = "undecided", "quotient in an approximate program"
                return
            z = ctx.zpoly(df.n)
            ors += [z > eps, z < -eps]
        prs = []
    for s, e, a, b in prs:
        L, R = ctx.cross(a, b)
        d = poly.p_add(L, R, -1)
        red = ctx.reduce(d) if d else d
        if d and not red:
            # equal only modulo the defining relations: state the reduced obligation
            ors.append(ctx.zpoly(red) != 0)
        elif not d:
            ors.append(ctx.zpoly(L) != ctx.zpoly(R))
        else:
            ors.append(ctx.zpoly(red) != 0)
    t = time.time()
    r = z3.unsat
    if ors:
        S.add(z3.Or(ors) if len(ors) > 1 else ors[0])
        r = S.check()
        out.queries += 1
    out.solver_s += time.time() - t
    if r == z3.sat:
        m = S.model()
        vals = []
        for i in range(p.nreal):
            v = m.eval(ctx.zvar(ctx.index[f"x{i}"]), model_completion=True)
            try:
                vals.append(Fraction(v.as_fraction()))
            except Exception:
                try:
                    vals.append(Fraction(v.approx(20).as_fraction()))
                except Exception:
                    vals.append(Fraction(0))
        out.status, out.msg = "violation", "result differs from the oracle"
        out.model = vals
        return
    if r == z3.unknown:
        out.status, out.msg = "undecided", "solver: " + S.reason_unknown()
        return
    if p.minimal:
        for s in range(len(exp)):
            for e in act[s]:
                if not exp[s].get(e, zero).n:
                    out.status, out.msg, out.model = "violation", f"component {e} is identically zero but is part of the result", ("extra", s, e)
                    return

def execute(progs, ll, opts):
    mod = llir.parse_module(ll)
    dom = RFDomain()
    mach = symex.Machine(mod, domain=dom, externs=ext_real())
    outs = []
    for i, p in enumerate(progs):
        out = PR(p)
        t0 = time.time()
        dom.wide = p.T == "double"
        dom.reset()
        mach.executed = set()
        stop = []
        def on_path(X, p=p, out=out):
            if out.status == "ok":
                decide(p, dom, X, out, opts.get("solver_ms", 20000))
        # every path re-executes from scratch: give each a fresh variable context
        class D:
            pass
        try:
            res = explore1(mach, dom, f"@P{i}", {"budget": opts.get("budget", 60), "solver_ms": 10000, "max_steps": 3000000, "max_paths": 64}, on_path)
            out.steps, out.paths = res.stats.steps, res.stats.paths
            out.queries += res.stats.checks
            out.solver_s += res.stats.solver_time
            if out.status == "ok" and res.status != "ok":
                out.status = "undecided" if res.status in ("incomplete", "unsupported") else "undecided-ub"
                out.msg = res.msg
        except poly.Blowup as e:
            out.status, out.msg = "undecided", str(e)
        except dsl.Undefined as e:
            out.status, out.msg = "undefined", str(e)
        out.fns = len(mach.executed)
        out.wall = time.time() - t0
        outs.append(out)
    return outs

def explore1(mach, dom, entry, opts, on_path):
    # reset the algebraic context for every re-execution
    orig = symex.Exec.__init__
    def init(self, *a, **k):
        orig(self, *a, **k)
        dom.reset()
    symex.Exec.__init__ = init
    try:
        return symex.explore(mach, entry, opts, on_path)
    finally:
        symex.Exec.__init__ = orig

def emit_ir(src, work, tag, timeout=300):
    f = os.path.join(work, tag + ".cpp")
    with open(f, "w") as h:
        h.write(src)
    o = os.path.join(work, tag + ".ll")
    rc, txt = run(CLANG + INC + [f, "-o", o], timeout)
    if rc != 0:
        return None, txt
    with open(o) as h:
        s = h.read()
    os.unlink(o)
    return s, ""

def check_batch(args):
    """worker: a list of programs -> list of PR"""
    progs, opts, work, tag = args
    ll, txt = emit_ir(source(progs), work, tag)
    if ll is None:
        if len(progs) > 1:
            out = []
            for i, p in enumerate(progs):
                out += check_batch(([p], opts, work, f"{tag}_{i}"))
            return out
        out = PR(progs[0])
        out.status, out.msg = "compile" if not progs[0].internal else "skipped", txt[-3000:]
        return [out]
    try:
        return execute(progs, ll, opts)
    except RecursionError:
        outs = []
        for p in progs:
            o = PR(p); o.status, o.msg = "undecided", "recursion"; outs.append(o)
        return outs

# ---- concrete replay -----------------------------------------------------------------------
MAIN = r'''
#include <cstdio>
#include <cstdlib>
#include <vector>
static std::vector<double> g_in;
extern "C" double vp_real(int i) { return i < (int)g_in.size() ? g_in[i] : 0.0; }
extern "C" void vp_res(int s, int e, double v) { std::printf("R %d %d %.17g\n", s, e, v); }
extern "C" void vp_slots(int n) { std::printf("N %d\n", n); }
extern "C" void P0();
int main(int c, char** v) { for (int i = 1; i < c; ++i) g_in.push_back(std::atof(v[i])); P0(); return 0; }
'''

class Dom(Exception):
    pass

def numeric_expected(p, vals):
    ctx = poly.Ctx()
    reals = [ctx.var(f"x{i}") for i in range(p.nreal)]
    exp = p.oracle(ctx, reals)
    cache = {}
    def env(i):
        if i in cache:
            return cache[i]
        n = ctx.names[i]
        if n[0] == "x" and n[1:].isdigit():
            r = float(vals[int(n[1:])])
        elif n == "pi":
            r = math.pi
        elif n == "e":
            r = math.e
        else:
            r = None
            for f, a, v in ctx.opaque:
                if v == i:
                    xs = [t.numeric(env) for t in a]
                    if f == "sqrt":
                        if xs[0] < 0:
                            raise Dom()
                        r = math.sqrt(xs[0])
                    else:
                        r = getattr(math, f)(*xs)
        cache[i] = r
        return r
    try:
        out = [{e: float(c.numeric(env)) for e, c in s.items()} for s in exp]
    except (ZeroDivisionError, OverflowError, ValueError):
        raise Dom()
    return out

def replay(p, vals_list, work, tag, keep=None):
    """compile with g++ against the real headers and compare numerically; returns (confirmed, text, vals)"""
    f = os.path.join(work, tag + "_replay.cpp")
    with open(f, "w") as h:
        h.write(source([p]) + MAIN)
    exe = os.path.join(work, tag + "_replay")
    rc, txt = run(GCC + INC + [f, "-o", exe], 300)
    if rc != 0:
        return ("compile", txt[-3000:], None)
    tol = p.tol or (1e-9 if p.T == "double" else 2e-3)
    last = ""
    for vals in vals_list:
        try:
            exp = numeric_expected(p, vals)
        except Dom:
            continue
        rc, txt = run([exe] + [repr(float(v)) for v in vals], 30)
        if rc != 0:
            return ("confirmed", f"exit status {rc} on inputs {[float(v) for v in vals]}\n{txt}", vals)
        act = {}
        n = None
        for l in txt.splitlines():
            w = l.split()
            if w[:1] == ["R"]:
                act[(int(w[1]), int(w[2]))] = float(w[3])
            elif w[:1] == ["N"]:
                n = int(w[1])
        if n != len(exp):
            return ("confirmed", f"{n} results instead of {len(exp)}", vals)
        want = {(s, e): v for s, m in enumerate(exp) for e, v in m.items()}
        mag = max([1e-30] + [abs(v) for v in want.values() if v == v])
        bad = []
        for k in sorted(set(want) | set(act)):
            a, b = act.get(k, 0.0), want.get(k, 0.0)
            if b != b or abs(b) > 1e12:
                bad = []
                break
            if not (abs(a - b) <= (float(p.approx) * 1.01 if p.approx else tol * max(1.0, mag))):
                bad.append(f"result {k[0]} element {k[1]:#b}: got {a!r}, expected {b!r}")
        if bad:
            return ("confirmed", f"inputs {[float(v) for v in vals]}\n" + "\n".join(bad), vals)
        last = f"agrees on {[float(v) for v in vals]}"
    return ("unconfirmed", last, None)

def candidates(p, model, seed=1):
    out = [list(map(Fraction, v)) for v in p.cands or []]
    if model and not isinstance(model[0], str):
        if all(abs(v) < 10**6 for v in model):
            out.append(model)
    rnd = random.Random(seed)
    small = [Fraction(k, 4) for k in range(1, 14)] if not p.approx else [Fraction(k, 8) for k in range(1, 9)]
    for i in range(12):
        out.append([rnd.choice(small) * (1 if i < 4 else rnd.choice((1, -1))) for _ in range(p.nreal)])
    for i in range(4):          # not representable in single precision
        out.append([rnd.choice(small) * Fraction(rnd.choice((3, 5, 6)), rnd.choice((7, 11, 13))) for _ in range(p.nreal)])
    for i in range(p.nreal):
        out.append([Fraction(1) if j == i else Fraction(0) for j in range(p.nreal)])
    return out

def defined(p):
    """False when the oracle says the program has no mathematical value (division by exact zero, function of a non-scalar)"""
    ctx = poly.Ctx()
    try:
        p.oracle(ctx, [ctx.var(f"x{i}") for i in range(p.nreal)])
        return True
    except (dsl.Undefined, ZeroDivisionError):
        return False
    except poly.Blowup:
        return False
