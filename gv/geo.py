"""Programs whose oracle is Euclidean geometry or plain field access, not the algebra: conversions, incidence, motions, normalisation, exp/log."""
from fractions import Fraction
from .prog import Prog
from .dsl import Ty, TY, ty
from .ga import ALG

h = Fraction(1, 2)
AL = lambda n: f"gal::{n}::{n}_algebra"

def P(desc, n, body, want, headers, T="double", assume=None, cands=None):
    """body: C++ text using x0.., emitting OUT(k, value); want(ctx, x) -> list of expected values"""
    lines = [f"using T = {T};"] + [f"T const x{i} = (T)vp_real({i});" for i in range(n)]
    lines += ["#define OUT(k, v) vp_res(0, (k), (double)(v))", body, "vp_slots(1);", "#undef OUT"]
    def oracle(ctx, x):
        r = want(ctx, x)
        return [{k: v if not isinstance(v, (int, Fraction)) else ctx.const(v) for k, v in enumerate(r) if v is not None}]
    p = Prog(desc, "pga", n, lines, oracle, desc + (f" ({T})" if T != "double" else ""), T=T, headers=set(headers))
    p.assume = assume
    p.cands = cands
    return p

def xs(n, o=0):
    return ", ".join(f"x{i}" for i in range(o, o + n))

def lam(ret, *names):
    return f"[]({', '.join('auto ' + n for n in names)}) {{ {ret} }}"

# name, C++ type, field names, elements it is read from: list of (element, sign)
FIELDS = [
    ("vga", "vector", ["x", "y", "z"], [(1, 1), (2, 1), (4, 1)]),
    ("pga", "plane", ["d", "x", "y", "z"], [(1, 1), (2, 1), (4, 1), (8, 1)]),
    ("pga", "vector", ["x", "y", "z"], [(13, -1), (11, 1), (7, -1)]),
    ("pga", "line", ["dx", "dy", "dz", "mx", "my", "mz"], [(12, -1), (10, 1), (6, -1), (3, -1), (5, -1), (9, -1)]),
    ("pga", "motor", None, [(0, 1), (3, 1), (5, 1), (6, 1), (9, 1), (10, 1), (12, 1), (15, 1)]),
    ("pga2", "line", ["d", "x", "y"], [(1, 1), (2, 1), (4, 1)]),
    ("pga2", "vector", ["x", "y"], [(5, -1), (3, 1)]),
    ("cga", "point", ["x", "y", "z"], [(1, 1), (2, 1), (4, 1)]),
    ("cga2", "point", ["x", "y"], [(1, 1), (2, 1)]),
]
DIM = {"vga": 3, "pga": 4, "pga2": 3, "cga": 5, "cga2": 4}

def conversions(th):
    out = []
    import random
    rng = random.Random(909)
    for T in ("double", "float"):
        for al, nm, fld, els in FIELDS:
            k = len(els)
            N = 1 << DIM[al]
            cl = f"gal::{al}::{nm}<T>"
            get = lambda v, i: f"{v}[{i}]"
            # construction, indexing, named fields, writing through the index
            body = f"{cl} v{{{xs(k)}}};" + "".join(f"OUT({i}, v[{i}]);" for i in range(k))
            if fld:
                body += "".join(f"OUT({k + i}, v.{f});" for i, f in enumerate(fld))
            body += "".join(f"v[{i}] = x{(i + 1) % k};" for i in range(k)) + "".join(f"OUT({2 * k + i}, v[{i}]);" for i in range(k)) + f"OUT({3 * k}, {cl}::size());"
            out.append(P(f"{al}::{nm} fields", k, body, lambda c, x, k=k, fld=fld: list(x) + (list(x) if fld else [None] * k) + [x[(i + 1) % k] for i in range(k)] + [k], [al], T))
            # conversion from result entities: full, exactly matching, partial, disjoint, empty
            el = [e for e, _ in els]
            sets = [list(range(N)), sorted(el), sorted(el)[1:], sorted(el)[::2], [e for e in range(N) if e not in el][:5], sorted(set([0, N - 1, el[0]])), []]
            # seeded sources: some of the components that are read, some that are not, in any number
            for _ in range(12 if th else 6):
                sets.append(sorted(set(rng.sample(el, rng.randint(1, len(el))) + rng.sample(range(N), rng.randint(0, 3)))))
            sets += [[e] for e in el] + [sorted(c) for c in ((el[i], el[(i + 1) % len(el)]) for i in range(len(el)))]
            for es in sets:
                if len(es) > 16 and T == "float" and not th:
                    continue
                E = f"gal::entity<{AL(al)}, T{''.join(f', {e}' for e in es)}>"
                body = f"{E} r{{{xs(len(es))}}}; {cl} v{{r}};" if es else f"{E} r{{}}; {cl} v{{r}};"
                body += "".join(f"OUT({i}, v[{i}]);" for i in range(k))
                def want(c, x, es=es, els=els):
                    m = {e: x[i] for i, e in enumerate(es)}
                    return [(m[e] if s > 0 else -m[e]) if e in m else 0 for e, s in els]
                out.append(P(f"{al}::{nm} from entity {es}", len(es), body, want, [al], T))
            # round trip through compute()
            body = f"{cl} v{{{xs(k)}}}; {cl} w = gal::{al}::compute([](auto v) {{ return v; }}, v);" + "".join(f"OUT({i}, w[{i}]);" for i in range(k))
            out.append(P(f"{al}::{nm} round trip", k, body, lambda c, x: list(x), [al], T))
            body = f"{cl} v{{{xs(k)}}}; auto e = gal::{al}::compute([](auto v) {{ return 2 * v; }}, v); {cl} w = gal::{al}::compute([](auto v) {{ return v / 2; }}, e);" + "".join(f"OUT({i}, w[{i}]);" for i in range(k))
            out.append(P(f"{al}::{nm} two-step round trip", k, body, lambda c, x: list(x), [al], T))
        # generic entities: select in every flavour
        seeded = [(al, rng.sample(range(1 << DIM[al]), rng.randint(2, min(9, (1 << DIM[al]) - 1)))) for al in DIM for _ in range(8 if th else 4)]
        seeded = [(al, sorted(es) if i % 2 else es) for i, (al, es) in enumerate(seeded)]
        for al, es in seeded + list((("vga", [0, 3, 6]), ("vga", [1, 2, 4, 7]), ("pga", [7, 11, 13, 14]), ("pga", [15, 3, 0, 8]), ("pga2", [6, 1]), ("cga", [8, 16, 24, 31, 1]), ("cga2", [0]), ("cga2", [12, 4, 8, 15, 3, 1]))):
            N = 1 << DIM[al]
            k = len(es)
            E = f"gal::entity<{AL(al)}, T{''.join(f', {e}' for e in es)}>"
            body = f"{E} r{{{xs(k)}}}; {E} const& q = r;"
            body += "".join(f"OUT({e}, q.select({e}));" for e in range(N))
            body += "".join(f"OUT({100 + e}, q.template select<{e}>());" for e in range(N))
            body += f"auto all = q.template select<{', '.join(map(str, range(N)))}>();" + "".join(f"OUT({200 + e}, all[{e}]);" for e in range(N))
            body += f"auto two = q.template select<{es[-1]}, {es[0]}>(); OUT(300, two[0]); OUT(301, two[1]);"
            some = [rng.randrange(N) for _ in range(rng.randint(2, 12))] + rng.sample(es, 1)
            body += f"auto some = q.template select<{', '.join(map(str, some))}>();" + "".join(f"OUT({480 + i}, some[{i}]);" for i in range(len(some)))
            body += "".join(f"OUT({310 + i}, r[{i}]); OUT({330 + i}, q.data()[{i}]); OUT({350 + i}, ((double)({E}::elements[{i}])));" for i in range(k))
            body += f"OUT(370, ({E}::size())); {{ int i = 0; for (auto v : r) {{ OUT(380 + i, v); ++i; }} }}"
            body += "".join(f"if (auto* p = r.select({e})) *p = *p + {e + 1}; else OUT({400 + e}, 1);" for e in range(N))
            body += "".join(f"OUT({450 + i}, r[{i}]);" for i in range(k))
            def want(c, x, es=es, N=N, k=k, some=some):
                m = {e: x[i] for i, e in enumerate(es)}
                r = [None] * 500
                for i, e in enumerate(some):
                    r[480 + i] = m.get(e, 0)
                for e in range(N):
                    r[e] = r[100 + e] = r[200 + e] = m.get(e, 0)
                    if e not in m:
                        r[400 + e] = 1
                r[300], r[301] = m[es[-1]], m[es[0]]
                for i in range(k):
                    r[310 + i] = r[330 + i] = r[380 + i] = x[i]
                    r[350 + i] = es[i]
                    r[450 + i] = x[i] + (es[i] + 1)
                r[370] = k
                return r
            out.append(P(f"{al} entity {es} selection", k, body, want, [al], T))
            # used as an input the entity means what it holds (inputs list their blades in increasing order, as documented)
            if es == sorted(es):
                body = f"{E} r{{{xs(k)}}}; auto w = gal::{al}::compute([](auto v) {{ return v; }}, r);" + "".join(f"OUT({e}, w.select({e}));" for e in range(N)).replace("w.select", "std::as_const(w).select")
                out.append(P(f"{al} entity {es} through compute", k, body, lambda c, x, es=es, N=N: [x[es.index(e)] if e in es else 0 for e in range(N)], [al], T))
        for al in DIM:
            E = f"gal::entity<{AL(al)}, T>"
            out.append(P(f"{al} zero entity", 1, f"{E} const z{{}}; OUT(0, z.select(1)); OUT(1, z.template select<2>()); OUT(2, z.size()); OUT(3, z[0]); {E} y{{}}; OUT(11, y[0]); OUT(12, y[1]); OUT(4, y.select(0) == nullptr); OUT(5, x0); auto const s3 = z.template select<1, 0, 2>(); OUT(6, s3.size()); for (int i = 0; i != 3; ++i) OUT(7 + i, s3[i]); int n = 0; for (T v : y) n += 1 + (v > 0); OUT(10, n);", lambda c, x: [0, 0, 0, 0, 1, x[0], 3, 0, 0, 0, 0, 0, 0], [al], T))
            out.append(P(f"{al} result that cancels", 2, f"gal::entity<{AL(al)}, T, 1, 2> v{{x0, x1}}; auto z = gal::{al}::compute([](auto v) {{ return v ^ v; }}, v); OUT(0, z[0]); OUT(1, z.size()); OUT(2, std::as_const(z).select(3)); OUT(3, z.template select<3>());", lambda c, x: [0, 0, 0, 0], [al], T))
            Sx = f"gal::scalar<{AL(al)}, T>"
            out.append(P(f"{al} scalar", 2, f"{Sx} s{{x0}}; T t = s; OUT(0, t); OUT(1, s[0]); OUT(2, s.value); OUT(3, *s.data()); s[0] = x1; OUT(4, s.value); OUT(5, s.size());", lambda c, x: [x[0]] * 4 + [x[1], 1], [al], T))
        # points
        w = lambda c, x: [x[0], x[1], x[2]]
        out.append(P("vga::point fields", 3, "gal::vga::point<T> p{x0, x1, x2}; OUT(0, p.x); OUT(1, p.y); OUT(2, p.z); OUT(3, p[0]); OUT(4, p[1]); OUT(5, p[2]); p[1] = x2; OUT(6, p.y);", lambda c, x: [x[0], x[1], x[2]] * 2 + [x[2]], ["vga"], T))
        out.append(P("vga::point to pga::point", 3, "gal::vga::point<T> p{x0, x1, x2}; gal::pga::point<T> q = p; for (int i = 0; i != 4; ++i) OUT(i, q[i]); OUT(4, std::as_const(q).select(7)); OUT(5, std::as_const(q).select(14));", lambda c, x: [-x[2], x[1], -x[0], 1, -x[2], 1], ["vga"], T))
        out.append(P("vga::point there and back", 3, "gal::vga::point<T> p{x0, x1, x2}; gal::pga::point<T> q = p; gal::vga::point<T> r{q}; for (int i = 0; i != 3; ++i) OUT(i, r[i]);", w, ["vga"], T))
        out.append(P("vga::point from homogeneous point", 4, "gal::pga::point<T> q{x0, x1, x2, x3}; gal::vga::point<T> r{q}; OUT(0, r.x); OUT(1, r.y); OUT(2, r.z);", lambda c, x: [-x[2] / x[3], x[1] / x[3], -x[0] / x[3]], ["vga"], T))
        out.append(P("vga::point through compute", 3, "gal::vga::point<T> p{x0, x1, x2}; gal::vga::point<T> r = gal::pga::compute([](auto p) { return p; }, p); for (int i = 0; i != 3; ++i) OUT(i, r[i]);", w, ["vga"], T))
        out.append(P("vga::point of a scaled point", 4, "gal::vga::point<T> p{x0, x1, x2}; gal::scalar<gal::pga::pga_algebra, T> s{x3}; gal::vga::point<T> r = gal::pga::compute([](auto p, auto s) { return s * p; }, p, s); for (int i = 0; i != 3; ++i) OUT(i, r[i]);", w, ["vga"], T))
        out.append(P("vga::point from a sparse entity", 2, "gal::entity<gal::pga::pga_algebra, T, 11, 14> q{x0, x1}; gal::vga::point<T> r{q}; for (int i = 0; i != 3; ++i) OUT(i, r[i]);", lambda c, x: [0, x[0] / x[1], 0], ["vga"], T))
        out.append(P("pga2::point fields", 2, "gal::pga2::point<T> p{x0, x1}; OUT(0, p.x); OUT(1, p.y); OUT(2, p[0]); OUT(3, p[1]); OUT(4, p.u); OUT(5, p.v); OUT(6, p.s); OUT(7, p.t); p[0] = x1; OUT(8, p.x); OUT(9, p.size());", lambda c, x: [x[0], x[1]] * 4 + [x[1], 2], ["pga2"], T))
        out.append(P("pga2::point round trip", 2, "gal::pga2::point<T> p{x0, x1}; gal::pga2::point<T> q = gal::pga2::compute([](auto p) { return p; }, p); OUT(0, q.x); OUT(1, q.y);", lambda c, x: [x[0], x[1]], ["pga2"], T))
        out.append(P("pga2::point from homogeneous entity", 3, "gal::entity<gal::pga2::pga2_algebra, T, 3, 5, 6> e{x0, x1, x2}; gal::pga2::point<T> q{e}; OUT(0, q.x); OUT(1, q.y);", lambda c, x: [-x[1] / x[2], x[0] / x[2]], ["pga2"], T))
        out.append(P("pga2::point from sparse entity", 2, "gal::entity<gal::pga2::pga2_algebra, T, 3, 6> e{x0, x1}; gal::pga2::point<T> q{e}; OUT(0, q.x); OUT(1, q.y);", lambda c, x: [0, x[0] / x[1]], ["pga2"], T))
        out.append(P("conformal point aliases", 3, "gal::cga::point<T> p{x0, x1, x2}; OUT(0, p.u); OUT(1, p.v); OUT(2, p.w); gal::vga::vector<T> q{x0, x1, x2}; OUT(3, q.u); OUT(4, q.v); OUT(5, q.w);", lambda c, x: [x[0], x[1], x[2]] * 2, ["vga", "cga"], T))
        # motors
        out.append(P("motor bivector", 8, f"gal::pga::motor<T> m{{{xs(8)}}}; auto const b = m.bivector(); for (int e = 0; e != 16; ++e) OUT(e, b.select(e));", lambda c, x: [{3: x[1], 5: x[2], 6: x[3], 9: x[4], 10: x[5], 12: x[6]}.get(e, 0) for e in range(16)], ["pga"], T))
        out.append(P("motor from array", 8, f"std::array<T, 8> a{{{xs(8)}}}; gal::pga::motor<T> m{{a}}; for (int i = 0; i != 8; ++i) OUT(i, m[i]);", lambda c, x: list(x), ["pga"], T))
        out.append(P("line from array", 6, f"std::array<T, 6> a{{{xs(6)}}}; gal::pga::line<T> m{{a}}; for (int i = 0; i != 6; ++i) OUT(i, m[i]);", lambda c, x: list(x), ["pga"], T))
        for al in ("vga", "pga"):
            out.append(P(f"{al}::rotor construction", 4, f"gal::{al}::rotor<T> r{{x0, x1, x2, x3}}; for (int i = 0; i != 5; ++i) OUT(i, r[i]); OUT(5, r.cos_theta); OUT(6, r.sin_theta); OUT(7, r.x); OUT(8, r.y); OUT(9, r.z); r[2] = x0; OUT(10, r.x); OUT(11, r.size());",
                         lambda c, x: [c.fn("cos", x[0] * h), c.fn("sin", x[0] * h), x[1], x[2], x[3]] * 2 + [x[0], 5], [al], T))
        out.append(P("translator construction", 4, "gal::pga::translator<T> r{x0, x1, x2, x3}; for (int i = 0; i != 4; ++i) OUT(i, r[i]); OUT(4, r.d); OUT(5, r.x); OUT(6, r.y); OUT(7, r.z); r[0] = x3; OUT(8, r.d); OUT(9, r.size());", lambda c, x: list(x) * 2 + [x[3], 4], ["pga"], T))
    return out

def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
def dot(u, v):
    r = u[0] * v[0]
    for i in range(1, len(u)):
        r = r + u[i] * v[i]
    return r
def sub(u, v):
    return [p - q for p, q in zip(u, v)]
def add(u, v):
    return [p + q for p, q in zip(u, v)]

AXES = [(0, 0, 1), (1, 0, 0), (0, 1, 0), (Fraction(3, 5), 0, Fraction(4, 5)), (Fraction(2, 3), Fraction(-1, 3), Fraction(2, 3)), (0, Fraction(-5, 13), Fraction(12, 13)), (Fraction(6, 7), Fraction(2, 7), Fraction(3, 7))]

def rodrigues(c, th, ax, p):
    """right-handed rotation by th (given through its half angle) about the unit axis ax"""
    C, S = c.fn("cos", th * h), c.fn("sin", th * h)
    cs, sn = C * C - S * S, C * S * 2
    k = [c.const(t) for t in ax]
    kxp = cross(k, p)
    kp = dot(k, p) * (1 - cs)
    return [p[i] * cs + kxp[i] * sn + k[i] * kp for i in range(3)]

def fl(q):
    q = Fraction(q)
    return f"(T({q.numerator}) / T({q.denominator}))" if q.denominator != 1 else f"T({q.numerator})"

def geometry(th):
    out = []
    pt = lambda n, o: f"gal::vga::point<T> p{n}{{x{o}, x{o + 1}, x{o + 2}}};"
    G = lambda desc, n, body, want, hd=("vga", "pga"), **kw: out.append(P(desc, n, body, want, hd, **kw))
    pc = "gal::pga::compute"
    # joins
    two = pt(1, 0) + pt(2, 3)
    G("line through two points: Plücker coordinates", 6, two + f"gal::pga::line<T> l = {pc}([](auto p, auto q) {{ return p & q; }}, p1, p2); for (int i = 0; i != 6; ++i) OUT(i, l[i]);",
      lambda c, x: sub(x[0:3], x[3:6]) + cross(x[0:3], sub(x[0:3], x[3:6])))
    G("every point of the line is incident with it", 7, two + "gal::vga::point<T> p3{x0 + x6 * (x3 - x0), x1 + x6 * (x4 - x1), x2 + x6 * (x5 - x2)};" + f"auto const r = {pc}([](auto p, auto q, auto s) {{ return (p & q) & s; }}, p1, p2, p3); for (int e = 0; e != 16; ++e) OUT(e, r.select(e));",
      lambda c, x: [0] * 16)
    G("the line through stored Plücker coordinates meets its points", 7, two + f"gal::pga::line<T> l = {pc}([](auto p, auto q) {{ return p & q; }}, p1, p2); gal::vga::point<T> p3{{x0 + x6 * (x3 - x0), x1 + x6 * (x4 - x1), x2 + x6 * (x5 - x2)}}; auto const r = {pc}([](auto l, auto s) {{ return l & s; }}, l, p3); for (int e = 0; e != 16; ++e) OUT(e, r.select(e));",
      lambda c, x: [0] * 16)
    three = two + pt(3, 6)
    nrm = lambda x: cross(sub(x[3:6], x[0:3]), sub(x[6:9], x[0:3]))
    for nm, e in (("left", "(p & q) & s"), ("right", "p & (q & s)")):
        G(f"plane through three points ({nm})", 9, three + f"gal::pga::plane<T> l = {pc}([](auto p, auto q, auto s) {{ return {e}; }}, p1, p2, p3); OUT(0, l.x * x0 + l.y * x1 + l.z * x2 + l.d); OUT(1, l.x * x3 + l.y * x4 + l.z * x5 + l.d); OUT(2, l.x * x6 + l.y * x7 + l.z * x8 + l.d); OUT(3, l.x); OUT(4, l.y); OUT(5, l.z); OUT(6, l.d);",
          lambda c, x: [0, 0, 0] + [-t for t in nrm(x)] + [dot(nrm(x), x[0:3])])
    pls = "gal::pga::plane<T> a{x0, x1, x2, x3}, b{x4, x5, x6, x7}, c{x8, x9, x10, x11};"
    det = lambda u, v, w: dot(u, cross(v, w))
    def meet(c, x):
        d = det(x[1:4], x[5:8], x[9:12])
        t = [-x[0], -x[4], -x[8]]
        cr = [cross(x[5:8], x[9:12]), cross(x[9:12], x[1:4]), cross(x[1:4], x[5:8])]
        return [(t[0] * cr[0][i] + t[1] * cr[1][i] + t[2] * cr[2][i]) / d for i in range(3)]
    G("point where three planes meet", 12, pls + f"gal::vga::point<T> p = {pc}([](auto a, auto b, auto c) {{ return a ^ b ^ c; }}, a, b, c); OUT(0, p.x); OUT(1, p.y); OUT(2, p.z);", meet)
    G("line where two planes meet lies in both", 8, "gal::pga::plane<T> a{x0, x1, x2, x3}, b{x4, x5, x6, x7};" + f"gal::pga::line<T> l = {pc}([](auto a, auto b) {{ return a ^ b; }}, a, b); auto const r = {pc}([](auto a, auto l) {{ return a ^ l; }}, a, l); auto const s = {pc}([](auto a, auto l) {{ return a ^ l; }}, b, l); for (int e = 0; e != 16; ++e) {{ OUT(e, r.select(e)); OUT(16 + e, s.select(e)); }} OUT(40, l.dx); OUT(41, l.dy); OUT(42, l.dz);",
      lambda c, x: [0] * 32 + [None] * 8 + [-t for t in cross(x[1:4], x[5:8])])
    G("signed incidence of point and plane", 7, pt(1, 0) + f"gal::pga::plane<T> a{{x3, x4, x5, x6}}; auto const r = {pc}([](auto a, auto p) {{ return a ^ p; }}, a, p1); OUT(0, r.select(15)); auto const s = {pc}([](auto a, auto p) {{ return a & p; }}, a, p1); OUT(1, s.select(0)); auto const t = {pc}([](auto a, auto p) {{ return p & a; }}, a, p1); OUT(2, t.select(0));",
      lambda c, x: [dot(x[0:3], x[4:7]) + x[3]] * 2 + [-(dot(x[0:3], x[4:7]) + x[3])])
    G("squared distance of two points", 6, two + f"auto l = {pc}([](auto p, auto q) {{ return p & q; }}, p1, p2); auto const r = {pc}([](auto l) {{ return -(l * l); }}, l); OUT(0, r.select(0));", lambda c, x: [dot(sub(x[0:3], x[3:6]), sub(x[0:3], x[3:6]))])
    G("angle of two planes", 8, f"gal::pga::plane<T> a{{x0, x1, x2, x3}}, b{{x4, x5, x6, x7}}; auto const r = {pc}([](auto a, auto b) {{ return a | b; }}, a, b); OUT(0, r.select(0));", lambda c, x: [dot(x[1:4], x[5:8])])
    G("direction of a point difference", 6, two + f"gal::pga::vector<T> v = {pc}([](auto p, auto q) {{ return p - q; }}, p1, p2); OUT(0, v.x); OUT(1, v.y); OUT(2, v.z);", lambda c, x: sub(x[0:3], x[3:6]))
    G("point plus direction", 6, pt(1, 0) + f"gal::pga::vector<T> v{{x3, x4, x5}}; gal::vga::point<T> q = {pc}([](auto p, auto v) {{ return p + v; }}, p1, v); OUT(0, q.x); OUT(1, q.y); OUT(2, q.z);", lambda c, x: add(x[0:3], x[3:6]))
    G("midpoint", 6, two + f"gal::vga::point<T> m = {pc}([](auto p, auto q) {{ return p + q; }}, p1, p2); OUT(0, m.x); OUT(1, m.y); OUT(2, m.z);", lambda c, x: [(x[i] + x[i + 3]) * h for i in range(3)])
    # motions
    G("translator moves points", 7, pt(1, 0) + f"gal::pga::translator<T> t{{x3, x4, x5, x6}}; gal::vga::point<T> q = {pc}([](auto p, auto t) {{ return p % t; }}, p1, t); OUT(0, q.x); OUT(1, q.y); OUT(2, q.z); gal::vga::point<T> s = {pc}([](auto p, auto t) {{ return t * p * ~t; }}, p1, t); OUT(3, s.x); OUT(4, s.y); OUT(5, s.z);",
      lambda c, x: [x[i] + x[3] * x[4 + i] for i in range(3)] * 2)
    G("translator moves planes", 8, f"gal::pga::plane<T> a{{x0, x1, x2, x3}}; gal::pga::translator<T> t{{x4, x5, x6, x7}}; gal::pga::plane<T> b = {pc}([](auto p, auto t) {{ return p % t; }}, a, t); OUT(0, b.x); OUT(1, b.y); OUT(2, b.z); OUT(3, b.d);",
      lambda c, x: [x[1], x[2], x[3], x[0] - x[4] * dot(x[1:4], x[5:8])])
    G("translator leaves directions", 7, f"gal::pga::vector<T> v{{x0, x1, x2}}; gal::pga::translator<T> t{{x3, x4, x5, x6}}; gal::pga::vector<T> q = {pc}([](auto p, auto t) {{ return p % t; }}, v, t); OUT(0, q.x); OUT(1, q.y); OUT(2, q.z);", lambda c, x: x[0:3])
    G("translations add", 8, "gal::pga::translator<T> t{x0, x1, x2, x3}, u{x4, x5, x6, x7}; gal::vga::point<T> o{0, 0, 0};" + f"gal::vga::point<T> q = {pc}([](auto p, auto t, auto u) {{ return p % (u * t); }}, o, t, u); OUT(0, q.x); OUT(1, q.y); OUT(2, q.z);", lambda c, x: [x[0] * x[1 + i] + x[4] * x[5 + i] for i in range(3)])
    for i, ax in enumerate(AXES if th else AXES[:5]):
        A = ", ".join(fl(t) for t in ax)
        G(f"vga rotor about {ax}", 4, f"gal::vga::rotor<T> r{{x3, {A}}}; gal::vga::vector<T> v{{x0, x1, x2}}; gal::vga::vector<T> w = gal::vga::compute([](auto v, auto r) {{ return v % r; }}, v, r); OUT(0, w.x); OUT(1, w.y); OUT(2, w.z);", lambda c, x, ax=ax: rodrigues(c, x[3], ax, x[0:3]))
        G(f"pga rotor about {ax}", 4, f"gal::pga::rotor<T> r{{x3, {A}}};" + pt(1, 0) + f"gal::vga::point<T> w = {pc}([](auto v, auto r) {{ return v % r; }}, p1, r); OUT(0, w.x); OUT(1, w.y); OUT(2, w.z);", lambda c, x, ax=ax: rodrigues(c, -x[3], ax, x[0:3]) if PGA_ROT < 0 else rodrigues(c, x[3], ax, x[0:3]))
        G(f"motor about {ax}", 8, f"gal::pga::rotor<T> r{{x3, {A}}}; gal::pga::translator<T> t{{x4, x5, x6, x7}};" + pt(1, 0) + f"gal::pga::motor<T> m = {pc}([](auto t, auto r) {{ return t * r; }}, t, r); gal::vga::point<T> w = {pc}([](auto v, auto m) {{ return v % m; }}, p1, m); OUT(0, w.x); OUT(1, w.y); OUT(2, w.z);",
          lambda c, x, ax=ax: add(rodrigues(c, x[3] if PGA_ROT > 0 else -x[3], ax, x[0:3]), [x[4] * x[5 + i] for i in range(3)])) if i < 3 or th else None
    G("planes reflect points", 6, pt(1, 0) + f"gal::pga::plane<T> a{{x3, {fl(Fraction(2, 3))}, {fl(Fraction(-1, 3))}, {fl(Fraction(2, 3))}}}; gal::vga::point<T> w = {pc}([](auto p, auto a) {{ return a * p * a; }}, p1, a); OUT(0, w.x); OUT(1, w.y); OUT(2, w.z);",
      lambda c, x: [x[i] - (x[0] * Fraction(2, 3) - x[1] * Fraction(1, 3) + x[2] * Fraction(2, 3) + x[3]) * 2 * k for i, k in enumerate((Fraction(2, 3), Fraction(-1, 3), Fraction(2, 3)))])
    G("projection of a point on a plane", 4, pt(1, 0) + f"gal::pga::plane<T> a{{x3, 0, {fl(Fraction(3, 5))}, {fl(Fraction(4, 5))}}}; gal::vga::point<T> w = {pc}([](auto p, auto a) {{ return (a | p) * a; }}, p1, a); OUT(0, w.x); OUT(1, w.y); OUT(2, w.z);",
      lambda c, x: [x[i] - (x[1] * Fraction(3, 5) + x[2] * Fraction(4, 5) + x[3]) * k for i, k in enumerate((0, Fraction(3, 5), Fraction(4, 5)))])
    # vector algebra
    vv = "gal::vga::vector<T> u{x0, x1, x2}, v{x3, x4, x5};"
    vc = "gal::vga::compute"
    G("dot and cross product", 6, vv + f"auto const d = {vc}([](auto a, auto b) {{ return a | b; }}, u, v); OUT(0, d.select(0)); gal::vga::vector<T> w = {vc}([](auto a, auto b) {{ return !(a ^ b); }}, u, v); OUT(1, w.x); OUT(2, w.y); OUT(3, w.z); auto const g = {vc}([](auto a, auto b) {{ return a * b; }}, u, v); OUT(4, g.select(0)); OUT(5, g.select(6)); OUT(6, g.select(5)); OUT(7, g.select(3));",
      lambda c, x: [dot(x[:3], x[3:6])] + cross(x[:3], x[3:6]) + [dot(x[:3], x[3:6]), cross(x[:3], x[3:6])[0], -cross(x[:3], x[3:6])[1], cross(x[:3], x[3:6])[2]], ("vga",))
    G("triple product", 9, vv + f"gal::vga::vector<T> w{{x6, x7, x8}}; auto const d = {vc}([](auto a, auto b, auto c) {{ return a ^ b ^ c; }}, u, v, w); OUT(0, d.select(7));", lambda c, x: [det(x[:3], x[3:6], x[6:9])], ("vga",))
    G("reflection in a vector", 6, vv + f"gal::vga::vector<T> w = {vc}([](auto a, auto n) {{ return (n * a * n) / scalar_product(n, n); }}, u, v); OUT(0, w.x); OUT(1, w.y); OUT(2, w.z);", lambda c, x: [x[3 + i] * dot(x[:3], x[3:6]) * 2 / dot(x[3:6], x[3:6]) - x[i] for i in range(3)], ("vga",))
    G("projection and rejection", 6, vv + f"gal::vga::vector<T> w = {vc}([](auto a, auto n) {{ return ((a | n) * n) / scalar_product(n, n); }}, u, v); gal::vga::vector<T> r = {vc}([](auto a, auto n) {{ return ((a ^ n) * n) / scalar_product(n, n); }}, u, v); OUT(0, w.x); OUT(1, w.y); OUT(2, w.z); OUT(3, r.x + w.x); OUT(4, r.y + w.y); OUT(5, r.z + w.z);",
      lambda c, x: [x[3 + i] * dot(x[:3], x[3:6]) / dot(x[3:6], x[3:6]) for i in range(3)] + x[:3], ("vga",))
    G("lagrange identity", 6, vv + f"auto const d = {vc}([](auto a, auto b) {{ return (a | b) * (a | b) - (a ^ b) * (a ^ b) - (a * a) * (b * b); }}, u, v); for (int e = 0; e != 8; ++e) OUT(e, d.select(e));", lambda c, x: [0] * 8, ("vga",))
    # plane geometry
    qc = "gal::pga2::compute"
    p2 = "gal::pga2::point<T> p{x0, x1}, q{x2, x3};"
    G("planar line through two points", 4, p2 + f"gal::pga2::line<T> l = {qc}([](auto p, auto q) {{ return p & q; }}, p, q); OUT(0, l.x * x0 + l.y * x1 + l.d); OUT(1, l.x * x2 + l.y * x3 + l.d); OUT(2, l.x); OUT(3, l.y); OUT(4, l.d);",
      lambda c, x: [0, 0] + [(x[1] - x[3]) * PGA2_J, (x[2] - x[0]) * PGA2_J, (x[0] * x[3] - x[2] * x[1]) * PGA2_J], ("pga2",))
    G("planar lines meet", 6, f"gal::pga2::line<T> a{{x0, x1, x2}}, b{{x3, x4, x5}}; gal::pga2::point<T> p = {qc}([](auto a, auto b) {{ return a ^ b; }}, a, b); OUT(0, p.x); OUT(1, p.y);",
      lambda c, x: [(x[2] * x[3] - x[5] * x[0]) / (x[1] * x[5] - x[4] * x[2]), (x[0] * x[4] - x[3] * x[1]) / (x[1] * x[5] - x[4] * x[2])], ("pga2",))
    G("planar incidence", 5, f"gal::pga2::line<T> a{{x0, x1, x2}}; gal::pga2::point<T> p{{x3, x4}}; auto const r = {qc}([](auto a, auto p) {{ return a ^ p; }}, a, p); OUT(0, r.select(7));", lambda c, x: [x[1] * x[3] + x[2] * x[4] + x[0]], ("pga2",))
    G("planar area", 6, p2 + f"gal::pga2::point<T> r{{x4, x5}}; auto const s = {qc}([](auto p, auto q, auto r) {{ return p & q & r; }}, p, q, r); OUT(0, s.select(0));",
      lambda c, x: [((x[2] - x[0]) * (x[5] - x[1]) - (x[4] - x[0]) * (x[3] - x[1])) * PGA2_A], ("pga2",))
    G("planar difference and displacement", 4, p2 + f"gal::pga2::vector<T> v = {qc}([](auto p, auto q) {{ return p - q; }}, p, q); OUT(0, v.x); OUT(1, v.y); gal::pga2::point<T> b = {qc}([](auto q, auto v) {{ return q + v; }}, q, v); OUT(2, b.x); OUT(3, b.y);", lambda c, x: [x[0] - x[2], x[1] - x[3], x[0], x[1]], ("pga2",))
    G("planar reflection", 5, f"gal::pga2::line<T> a{{x2, {fl(Fraction(3, 5))}, {fl(Fraction(4, 5))}}}; gal::pga2::point<T> p{{x0, x1}}; gal::pga2::point<T> w = {qc}([](auto p, auto a) {{ return a * p * a; }}, p, a); OUT(0, w.x); OUT(1, w.y);",
      lambda c, x: [x[i] - (x[0] * Fraction(3, 5) + x[1] * Fraction(4, 5) + x[2]) * 2 * k for i, k in enumerate((Fraction(3, 5), Fraction(4, 5)))], ("pga2",))
    # conformal model
    for al, n in (("cga", 3), ("cga2", 2)):
        no, ni = 1 << n, 2 << n
        cc = f"gal::{al}::compute"
        pp = f"gal::{al}::point<T> p{{{xs(n)}}}, q{{{xs(n, n)}}};"
        d2 = lambda x, n=n: dot(sub(x[:n], x[n:2 * n]), sub(x[:n], x[n:2 * n]))
        G(f"{al}: squared distance from the inner product", 2 * n, pp + f"auto const r = {cc}([](auto p, auto q) {{ return p | q; }}, p, q); OUT(0, r.select(0)); auto const s = {cc}([](auto p, auto q) {{ return -2 * (p >> q); }}, p, q); OUT(1, s.select(0)); auto const t = {cc}([](auto p, auto q) {{ return (p - q) * (p - q); }}, p, q); OUT(2, t.select(0));",
          lambda c, x, d2=d2: [d2(x) * Fraction(-1, 2), d2(x), d2(x)], (al,))
        G(f"{al}: points are null", n, f"gal::{al}::point<T> p{{{xs(n)}}}; auto const r = {cc}([](auto p) {{ return p * p; }}, p); OUT(0, r.select(0)); auto const s = {cc}([](auto p) {{ return p | p; }}, p); OUT(1, s.select(0)); OUT(2, r.size() + s.size());", lambda c, x: [0, 0, 0], (al,))
        G(f"{al}: embedding", n, f"gal::{al}::point<T> p{{{xs(n)}}}; auto const r = {cc}([](auto p) {{ return p; }}, p); OUT(0, r.select({no})); OUT(1, r.select({ni})); auto const s = {cc}([](auto p) {{ using namespace gal::{al}; return p | 1_ni; }}, p); OUT(2, s.select(0)); auto const t = {cc}([](auto p) {{ using namespace gal::{al}; return p | 1_no; }}, p); OUT(3, t.select(0));",
          lambda c, x, n=n: [1, dot(x[:n], x[:n]) * h, -1, dot(x[:n], x[:n]) * Fraction(-1, 2)], (al,))
        G(f"{al}: collinear points", 2 * n + 1, pp + f"gal::{al}::point<T> s{{{', '.join(f'x{i} + x{2 * n} * (x{n + i} - x{i})' for i in range(n))}}}; auto const r = {cc}([](auto p, auto q, auto s) {{ using namespace gal::{al}; return p ^ q ^ s ^ 1_ni; }}, p, q, s); for (int e = 0; e != {4 << n}; ++e) OUT(e, r.select(e));", lambda c, x, n=n: [0] * (4 << n), (al,))
    # four concyclic points of the plane (rational parametrisation of the circle of radius x4 about (x5, x6))
    def circ(i):
        return f"gal::cga2::point<T> p{i}{{x5 + x4 * (1 - x{i} * x{i}) / (1 + x{i} * x{i}), x6 + x4 * (2 * x{i}) / (1 + x{i} * x{i})}};"
    if th:
        G("cga2: concyclic points", 7, "".join(circ(i) for i in range(4)) + "auto const r = gal::cga2::compute([](auto p, auto q, auto s, auto t) { return p ^ q ^ s ^ t; }, p0, p1, p2, p3); OUT(0, r.select(15));", lambda c, x: [0], ("cga2",))
    G("cga2: points of a circle", 3, "gal::cga2::point<T> a{1, 0}, b{0, 1}, c{-1, 0}, p{x0, x1};" + "auto const r = gal::cga2::compute([](auto p, auto q, auto s, auto t) { return p ^ q ^ s ^ t; }, a, b, c, p); OUT(0, r.select(15));", lambda c, x: [(1 - x[0] * x[0] - x[1] * x[1]) * CGA2_C], ("cga2",))
    if th:
        fl_ = [P_.desc for P_ in out]
    return out

PGA_ROT = -1   # the model's rotors are cos(t/2) + sin(t/2) l: a positive angle turns left-handed about the axis
PGA2_J = 1
PGA2_A = 1
CGA2_C = -1

def normalize(th):
    out = []
    for T in ("double", "float"):
        def nv(pre, fields, o):
            def want(c, x):
                s = c.fn("sqrt", dot(x[o:o + 3], x[o:o + 3]))
                return [x[i] for i in range(o)] + [x[o + i] / s for i in range(3)]
            return want
        out.append(P("vga::vector normalize", 3, "gal::vga::vector<T> v{x0, x1, x2}; v.normalize(); for (int i = 0; i != 3; ++i) OUT(i, v[i]); OUT(3, v.x * v.x + v.y * v.y + v.z * v.z);", lambda c, x: nv("", 3, 0)(c, x) + [1], ["vga"], T))
        for al in ("vga", "pga"):
            out.append(P(f"{al}::rotor normalize", 4, f"gal::{al}::rotor<T> v{{x0, x1, x2, x3}}; v.normalize(); for (int i = 0; i != 5; ++i) OUT(i, v[i]); OUT(5, v.x * v.x + v.y * v.y + v.z * v.z);",
                         lambda c, x: [c.fn("cos", x[0] * h), c.fn("sin", x[0] * h)] + nv("", 3, 1)(c, x)[1:] + [1], [al], T))
            out.append(P(f"{al}::rotor normalized is unitary", 4, f"gal::{al}::rotor<T> v{{x0, x1, x2, x3}}; v.normalize(); auto const r = gal::{al}::compute([](auto r) {{ return r * ~r; }}, v); for (int e = 0; e != 8; ++e) OUT(e, r.select(e));",
                         lambda c, x: [1] + [0] * 7, [al], T))
        out.append(P("translator normalize", 4, "gal::pga::translator<T> v{x0, x1, x2, x3}; v.normalize(); for (int i = 0; i != 4; ++i) OUT(i, v[i]);", nv("", 3, 1), ["pga"], T))
        A = ALG["pga"]
        EL = [0, 3, 5, 6, 9, 10, 12, 15]
        def mot(c, x):
            m = {e: x[i] for i, e in enumerate(EL)}
            mm = A.prod("gp", m, A.rev(m))
            u, v = mm[0], mm[15]
            s = c.fn("sqrt", u)
            inv = {0: 1 / s, 15: -v / (s * u * 2)}
            r = A.prod("gp", m, inv)
            z = c.const(0)
            return [r.get(e, z) for e in EL]
        M = f"gal::pga::motor<T> m{{{xs(8)}}}; m.normalize();"
        out.append(P("motor normalize", 8, M + "for (int i = 0; i != 8; ++i) OUT(i, m[i]);", mot, ["pga"], T))
        out.append(P("normalized motor is unitary", 8, M + "auto const r = gal::pga::compute([](auto r) { return r * ~r; }, m); OUT(0, r.select(0)); OUT(1, r.select(15)); OUT(2, r.size());", lambda c, x: [1, 0, 2], ["pga"], T))
        out.append(P("normalizing a unit rotation changes nothing", 1, "using std::cos; using std::sin; gal::pga::motor<T> m{cos(x0), 0, 0, sin(x0), 0, 0, 0, 0}; m.normalize(); for (int i = 0; i != 8; ++i) OUT(i, m[i]);", lambda c, x: [c.fn("cos", x[0]), 0, 0, c.fn("sin", x[0]), 0, 0, 0, 0], ["pga"], T))
        out.append(P("normalizing a unit vector changes nothing", 1, "gal::vga::vector<T> v{(1 - x0 * x0) / (1 + x0 * x0), 0, 2 * x0 / (1 + x0 * x0)}; v.normalize(); OUT(0, v.x); OUT(1, v.y); OUT(2, v.z);", lambda c, x: [(1 - x[0] * x[0]) / (x[0] * x[0] + 1), 0, x[0] * 2 / (x[0] * x[0] + 1)], ["vga"], T))
        out.append(P("normalize keeps direction", 3, "gal::vga::vector<T> v{x0, x1, x2}; v.normalize(); OUT(0, v.x * x1 - v.y * x0); OUT(1, v.y * x2 - v.z * x1); OUT(2, v.x * x2 - v.z * x0);", lambda c, x: [0, 0, 0], ["vga"], T))
        out.append(P("normalizing twice is normalizing once (translator)", 4, "gal::pga::translator<T> v{x0, x1, x2, x3}; v.normalize(); OUT(0, v.x * v.x + v.y * v.y + v.z * v.z); OUT(1, v.d);", lambda c, x: [1, x[0]], ["pga"], T))
        # a normalized motor moves every point as the original does (whose weight is divided out)
        for nm, fill in (("about the z axis", {0: 0, 6: 1, 9: 2, 15: 3}), ("about the x axis", {0: 0, 12: 1, 3: 2, 15: 3}), ("about the y axis", {0: 0, 10: 1, 5: 2, 15: 3}), ("translation", {0: 0, 3: 1, 5: 2, 9: 3}), ("rotation", {0: 0, 6: 1, 10: 2, 12: 3})):
            n = len(fill)
            w = ", ".join(f"x{fill[e]}" if e in fill else "0" for e in EL)
            def moved(c, x, fill=fill, n=n):
                mm = {e: x[i] for e, i in fill.items()}
                u = A.prod("gp", mm, A.rev(mm))
                s = c.fn("sqrt", u[0])
                inv = {0: 1 / s}
                if 15 in u and u[15].n:
                    inv[15] = -u[15] / (s * u[0] * 2)
                mn = A.prod("gp", mm, inv)
                p = TY[("pga", "vgapoint")].meaning(x[n:n + 3])
                r = A.prod("gp", A.prod("gp", mn, p), A.rev(mn))
                z = c.const(0)
                return [r.get(e, z) for e in (7, 11, 13, 14)]
            out.append(P(f"normalized motor ({nm}) moves points", n + 3, f"gal::pga::motor<T> m{{{w}}}; m.normalize(); gal::vga::point<T> p{{x{n}, x{n + 1}, x{n + 2}}}; auto const r = gal::pga::compute([](auto p, auto m) {{ return p % m; }}, p, m); OUT(0, r.select(7)); OUT(1, r.select(11)); OUT(2, r.select(13)); OUT(3, r.select(14));", moved, ["vga", "pga"], T))
        for k, ax in enumerate("xyz"):
            f = ", ".join("x0" if i == k else "0" for i in range(3))
            out.append(P(f"normalizing along {ax}", 1, f"gal::vga::vector<T> v{{{f}}}; v.normalize(); gal::pga::translator<T> t{{2, {f}}}; t.normalize(); OUT(0, v.x); OUT(1, v.y); OUT(2, v.z); OUT(3, t.x); OUT(4, t.y); OUT(5, t.z); OUT(6, t.d);",
                         lambda c, x, k=k: [x[0] / c.fn("sqrt", x[0] * x[0]) if i == k else 0 for i in range(3)] * 2 + [2], ["vga", "pga"], T))
    # division by the norm inside compute()
    out.append(P("division by the norm", 3, "gal::vga::vector<T> v{x0, x1, x2}; gal::vga::vector<T> w = gal::vga::compute([](auto v) { return v / sqrt(scalar_product(v, v)); }, v); gal::vga::vector<T> u{x0, x1, x2}; u.normalize(); for (int i = 0; i != 3; ++i) { OUT(i, w[i]); OUT(3 + i, u[i]); }",
                 lambda c, x: [x[i] / c.fn("sqrt", dot(x, x)) for i in range(3)] * 2, ["vga"]))
    return out

def explog(th):
    out = []
    def exp_oracle(al):
        A = ALG[al]
        def f(c, B):
            """closed form of the exponential of a bivector: B = (u + v I) L with L^2 = -1"""
            B = {e: v for e, v in B.items() if v.n}
            b2 = A.prod("gp", B, B)
            s = b2[0]
            u = c.fn("sqrt", -s)
            C, S = c.fn("cos", u), c.fn("sin", u)
            p = b2.get(A.ps) if A.dim == 4 else None
            z = c.const(0)
            v = -p / (u * 2) if p is not None else z
            inv = {0: 1 / u}
            if p is not None:
                inv[A.ps] = v / s
            L = A.prod("gp", inv, B)
            r = A.add({0: C}, A.prod("gp", {0: S}, L))
            if p is not None:
                r = A.add(r, {A.ps: -(v * S)})
                r = A.add(r, A.prod("gp", {A.ps: v * C}, L))
            return r
        return f
    def full_(r, c, N):
        z = c.const(0)
        return [r.get(e, z) for e in range(N)]
    dump = lambda N: f"for (int e = 0; e != {N}; ++e) OUT(e, r.select(e));"
    cases = [
        ("vga", "gal::entity<gal::vga::vga_algebra, T, 3, 5, 6>", lambda x: {3: x[0], 5: x[1], 6: x[2]}, 3),
        ("vga", "gal::entity<gal::vga::vga_algebra, T, 5>", lambda x: {5: x[0]}, 1),
        ("pga", "gal::pga::line<T>", TY[("pga", "line")].meaning, 6),
        ("pga", "gal::entity<gal::pga::pga_algebra, T, 3, 6, 9, 12>", lambda x: {3: x[0], 6: x[1], 9: x[2], 12: x[3]}, 4),
        ("pga", "gal::entity<gal::pga::pga_algebra, T, 6, 10, 12>", lambda x: {6: x[0], 10: x[1], 12: x[2]}, 3),
        ("pga2", "gal::entity<gal::pga2::pga2_algebra, T, 3, 5, 6>", lambda x: {3: x[0], 5: x[1], 6: x[2]}, 3),
    ]
    for al, cl, mean, n in cases:
        N = 1 << DIM[al]
        f = exp_oracle(al)
        for k, (txt, sc) in enumerate((("l", 1), ("2 * l", 2), ("l / 2", h), ("-l", -1), ("(-3 * l) / 4", Fraction(-3, 4)))):
            if k and n > 4 and not th and k != 2:
                continue
            for T in ("double", "float") if k == 0 else ("double",):
                out.append(P(f"exp({txt}) of {cl}", n, f"{cl} l{{{xs(n)}}}; auto const r = gal::{al}::compute([](auto l) {{ return exp({txt}); }}, l);" + dump(N),
                         lambda c, x, f=f, mean=mean, N=N, sc=sc, al=al: full_(f(c, ALG[al].scale(mean(x), sc)), c, N), [al], T))
        if n <= 4 or th:
            out.append(P(f"exp of {cl} is unitary", n, f"{cl} l{{{xs(n)}}}; auto const m = gal::{al}::compute([](auto l) {{ return exp(l); }}, l); auto const r = gal::{al}::compute([](auto m) {{ return m * ~m; }}, m);" + dump(N), lambda c, x, N=N: [1] + [0] * (N - 1), [al]))
            out.append(P(f"exp of {cl} inverts with the sign", n, f"{cl} l{{{xs(n)}}}; auto const m = gal::{al}::compute([](auto l) {{ return exp(l); }}, l); auto const k = gal::{al}::compute([](auto l) {{ return ~exp(l); }}, l);" + f"for (int e = 0; e != {N}; ++e) OUT(e, m.select(e)); for (int e = 0; e != {N}; ++e) OUT({N} + e, k.select(e));",
                         lambda c, x, f=f, mean=mean, N=N, al=al: full_(f(c, mean(x)), c, N) + full_(ALG[al].rev(f(c, mean(x))), c, N), [al]))
        out.append(P(f"exp of {cl}, shifted and scaled", n, f"{cl} l{{{xs(n)}}}; auto const r = gal::{al}::compute([](auto l) {{ return 2 * exp(l) - 1; }}, l);" + dump(N), lambda c, x, f=f, mean=mean, N=N, al=al: full_(ALG[al].add(ALG[al].scale(f(c, mean(x)), 2), {0: c.const(-1)}), c, N), [al])) if n <= 4 or th else None
    out.append(P("exp of an angle times a plane", 1, "gal::scalar<gal::vga::vga_algebra, T> t{x0}; auto const r = gal::vga::compute([](auto t) { using namespace gal::vga; return exp(t * 1_e12); }, t);" + dump(8), lambda c, x: full_(exp_oracle("vga")(c, {6: x[0]}), c, 8), ["vga"]))
    out.append(P("exp of half an angle about a line", 2, "gal::scalar<gal::pga::pga_algebra, T> t{x0}, s{x1}; auto const r = gal::pga::compute([](auto t, auto s) { using namespace gal::pga; return exp((t * 1_e12 + s * 1_e01) / 2); }, t, s);" + dump(16), lambda c, x: full_(exp_oracle("pga")(c, {6: x[0] * h, 3: x[1] * h}), c, 16), ["pga"]))
    # rotors and translators are exponentials: cos + sin B of half the angle, 1 + B of the displacement; products on one axis add up, the reverse is the opposite motion
    for al in ("vga", "pga"):
        M, N = TY[(al, "rotor")].meaning, 1 << DIM[al]
        rot = lambda c, t, ax, M=M: M([c.fn("cos", t * h), c.fn("sin", t * h)] + list(ax))
        C = f"gal::{al}::compute"
        for T in ("double", "float"):
            out.append(P(f"{al}::rotor is cos + sin B of half the angle", 4, f"gal::{al}::rotor<T> q{{x0, x1, x2, x3}}; auto const r = {C}([](auto q) {{ return 1 * q; }}, q);" + dump(N), lambda c, x, rot=rot, N=N: full_(rot(c, x[0], x[1:4]), c, N), [al], T))
            out.append(P(f"{al}::rotor of the double angle", 4, f"gal::{al}::rotor<T> q{{2 * x0, x1, x2, x3}}; auto const r = {C}([](auto q) {{ return q + 0; }}, q);" + dump(N), lambda c, x, rot=rot, N=N: full_(rot(c, x[0] * 2, x[1:4]), c, N), [al], T))
            out.append(P(f"{al}::rotor of the opposite angle", 4, f"gal::{al}::rotor<T> q{{x0, x1, x2, x3}}; auto const r = {C}([](auto q) {{ return ~q; }}, q);" + dump(N), lambda c, x, rot=rot, N=N, al=al: full_(ALG[al].rev(rot(c, x[0], x[1:4])), c, N), [al], T))
        for ax in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (Fraction(3, 5), 0, Fraction(-4, 5)), (Fraction(2, 3), Fraction(-1, 3), Fraction(2, 3))):
            X = ", ".join(f"T({k.numerator}) / T({k.denominator})" if isinstance(k, Fraction) else str(k) for k in ax)
            kx = lambda c, ax=ax: [c.const(Fraction(k)) for k in ax]
            out.append(P(f"{al}::rotors about {X} compose", 2, f"gal::{al}::rotor<T> p{{x0, {X}}}, q{{x1, {X}}}; auto const r = {C}([](auto p, auto q) {{ return p * q; }}, p, q);" + dump(N), lambda c, x, rot=rot, N=N, al=al, kx=kx: full_(ALG[al].prod("gp", rot(c, x[0], kx(c)), rot(c, x[1], kx(c))), c, N), [al]))
            out.append(P(f"{al}::rotor about {X} is unitary", 1, f"gal::{al}::rotor<T> q{{x0, {X}}}; auto const r = {C}([](auto q) {{ return q * ~q; }}, q);" + dump(N), lambda c, x, N=N: [1] + [0] * (N - 1), [al]))
    M = TY[("pga", "translator")].meaning
    for T in ("double", "float"):
        t1 = "gal::pga::translator<T> q{x0, x1, x2, x3};"
        out.append(P("pga::translator is 1 + B", 4, t1 + "auto const r = gal::pga::compute([](auto q) { return 1 * q; }, q);" + dump(16), lambda c, x: full_(M(x[:4]), c, 16), ["pga"], T))
        out.append(P("pga::translator reversed", 4, t1 + "auto const r = gal::pga::compute([](auto q) { return ~q; }, q);" + dump(16), lambda c, x: full_(ALG["pga"].rev(M(x[:4])), c, 16), ["pga"], T))
        out.append(P("pga::translators compose", 8, t1 + "gal::pga::translator<T> p{x4, x5, x6, x7}; auto const r = gal::pga::compute([](auto p, auto q) { return p * q; }, p, q);" + dump(16), lambda c, x: full_(ALG["pga"].prod("gp", M(x[4:8]), M(x[:4])), c, 16), ["pga"], T))
        out.append(P("pga::translator is unitary", 4, t1 + "auto const r = gal::pga::compute([](auto q) { return q * ~q; }, q);" + dump(16), lambda c, x: [1] + [0] * 15, ["pga"], T))
        out.append(P("pga::translator times rotor", 8, t1 + "gal::pga::rotor<T> p{x4, x5, x6, x7}; auto const r = gal::pga::compute([](auto p, auto q) { return q * p; }, p, q);" + dump(16), lambda c, x: full_(ALG["pga"].prod("gp", M(x[:4]), TY[("pga", "rotor")].meaning([c.fn("cos", x[4] * h), c.fn("sin", x[4] * h)] + list(x[5:8]))), c, 16), ["pga"], T))
    # logarithm of a motor
    A = ALG["pga"]
    EL = [0, 3, 5, 6, 9, 10, 12, 15]
    def log_oracle(c, m, s1_zero):
        L = {e: m[e] for e in EL[1:7] if e in m and m[e].n}
        z = c.const(0)
        l2 = A.prod("gp", L, L)
        s = l2[0]
        s2 = c.fn("sqrt", -s)
        p2 = -l2.get(15, z) / (s2 * 2)
        u = c.fn("atan2", s2, m[0])
        v = -m.get(15, z) / s2 if s1_zero else p2 / m[0]
        r = A.prod("gp", A.prod("gp", {0: u, 15: v}, L), {0: 1 / s2, 15: p2 / s})
        return [r.get(e, z) for e in range(16)]
    lg = "auto const r = m.log(); for (int e = 0; e != 16; ++e) OUT(e, r.select(e));"
    # every unit motor with a rotational part and scalar part c: (c, d) on the unit 3-sphere by stereographic projection from t, the ideal part m free, the pseudoscalar fixed by m ~m = 1
    def unit(c, x):
        t, m = x[:3], x[3:6]
        n = dot(t, t) + 1
        C, d = (1 - dot(t, t)) / n, [k * 2 / n for k in t]
        return {0: C, 6: d[0], 10: d[1], 12: d[2], 3: m[0], 5: m[1], 9: m[2], 15: (m[0] * d[2] - m[1] * d[1] + d[0] * m[2]) / C}
    UNIT = "T tt = x0 * x0 + x1 * x1 + x2 * x2, n = 1 + tt, c = (1 - tt) / n, d0 = 2 * x0 / n, d1 = 2 * x1 / n, d2 = 2 * x2 / n;"
    def away(c, x):     # the scalar part is not within 1e-3 of zero
        Q = __import__("z3").Q
        v = [c.zvar(c.index[f"x{i}"]) for i in range(3) if f"x{i}" in c.index]
        tt = v[0] * v[0]
        for k in v[1:3]:
            tt = tt + k * k
        return [1000 * (1 - tt) * (1 - tt) >= (1 + tt) * (1 + tt) * Q(1, 1000), tt > 0]
    def away1(c, x):
        Q = __import__("z3").Q
        v = c.zvar(c.index["x0"])
        return [1000 * (1 - v * v) * (1 - v * v) >= (1 + v * v) * (1 + v * v) * Q(1, 1000), v * v > 0]
    for T in ("double", "float"):
        out.append(P("log of a unit motor", 6, UNIT + "gal::pga::motor<T> m{c, x3, x4, d0, x5, d1, d2, (x3 * d2 - x4 * d1 + d0 * x5) / c};" + lg, lambda c, x: log_oracle(c, unit(c, x), False), ["pga"], T, assume=away))
        # half turns: no scalar part, unit axis direction, moment perpendicular to it, any advance along the axis
        def half(c, x):
            n = x[0] * x[0] + x[1] * x[1] + 1
            d = [x[0] * 2 / n, x[1] * 2 / n, (1 - x[0] * x[0] - x[1] * x[1]) / n]
            # L ^ L = 0: b3 b12 - b5 b10 + b6 b9 = 0, i.e. (b9, -b5, b3) is perpendicular to (b6, b10, b12)
            w = cross(x[2:5], d)
            return {0: c.const(0), 6: d[0], 10: d[1], 12: d[2], 9: w[0], 5: -w[1], 3: w[2], 15: x[5]}
        HALF = "T n = 1 + x0 * x0 + x1 * x1, d0 = 2 * x0 / n, d1 = 2 * x1 / n, d2 = (1 - x0 * x0 - x1 * x1) / n; T w0 = x3 * d2 - x4 * d1, w1 = x4 * d0 - x2 * d2, w2 = x2 * d1 - x3 * d0;"
        out.append(P("log of a half turn", 6, HALF + "gal::pga::motor<T> m{0, w2, -w1, d0, w0, d1, d2, x5};" + lg, lambda c, x, half=half: log_oracle(c, half(c, x), True), ["pga"], T))
        out.append(P("log of a rotation", 1, "T n = 1 + x0 * x0; gal::pga::motor<T> m{(1 - x0 * x0) / n, 0, 0, 2 * x0 / n, 0, 0, 0, 0};" + lg, lambda c, x: log_oracle(c, {0: (1 - x[0] * x[0]) / (x[0] * x[0] + 1), 6: x[0] * 2 / (x[0] * x[0] + 1)}, False), ["pga"], T, assume=away1))
        # a unit screw about the z axis: rotation e12, advance e03
        def screw(c, x):
            n = x[0] * x[0] + 1
            C, S = (1 - x[0] * x[0]) / n, x[0] * 2 / n
            return log_oracle(c, {0: C, 6: S, 9: -C * x[1], 15: -S * x[1]}, False)
        out.append(P("log of a screw about the z axis", 2, "T n = 1 + x0 * x0, c = (1 - x0 * x0) / n, s = 2 * x0 / n; gal::pga::motor<T> m{c, 0, 0, s, -c * x1, 0, 0, -s * x1};" + lg, screw, ["pga"], T, assume=away1))
    return out

# ---- text form ---------------------------------------------------------------------------------------------
def texts(th):
    out = []
    import random
    r = random.Random("text")
    def tokens(es):
        """expected text of an entity: a list of (is a value, index of the value or character)"""
        if not es:
            return [(False, "0")]
        t = []
        for i, e in enumerate(es):
            if i:
                t += [(False, ch) for ch in " + "]
            t.append((True, i))
            if e:
                t.append((False, "e"))
                t += [(False, str(j)) for j in range(8) if e >> j & 1]
        return t
    def add(al, es, body, n, vals, T, what):
        tk = tokens(es)
        kind = 1 if T == "double" else 2        # the width with which a value is printed
        w = ", ".join(f"{{{kind}, (double)({vals[k]})}}" if v else f"{{0, {ord(k)}}}" for v, k in tk)
        p = P(f"text of {what}", n, body + f" vp::text(gal::to_string(e), {{{w}}});", None, [al], T)
        def oracle(ctx, x, tk=tk, es=es):
            m = {0: ctx.const(len(tk))}
            for i, (v, k) in enumerate(tk):
                m[1 + 2 * i] = ctx.const(kind if v else 0)
                m[2 + 2 * i] = p.vals(ctx, x)[k] if v else ctx.const(ord(k))
            return [m]
        p.oracle = oracle
        p.vals = lambda ctx, x: x
        p.pre = '#include "text.hpp"\n'
        p.cands = [[Fraction(v) for v in (list(c) * (n // 3 + 1))[:n]] for c in ((1234.56789, -0.0012345678, 2), (-1e-9, 123456789, -7.25), (1e20, -3, 0.1), (2.000005, 3.000005, 0.1234565), (1e39, -1e39, 1e-46))]
        p.internal = True       # the recording stream may not offer what another implementation uses
        out.append(p)
        return p
    for T in ("double", "float"):
        for al, d in list(DIM.items()) + [("m330", 6), ("m511", 7), ("m111", 3)]:
            N = 1 << d
            sets = [[], [0], [1], [N - 1], [0, 1], [1, 2], [0, N - 1], [3, 5, 6] if d < 4 else [3, 5, 6, 9], [1 << i for i in range(d)]] + [[e] for e in range(N)][::1 if N < 32 or th else N // 10]
            sets += [sorted(r.sample(range(N), r.randint(2, min(N, 6)))) for _ in range(12 if not th else 60)]
            for es in sets:
                k = len(es)
                E = f"gal::entity<{AL(al)}, T{''.join(f', {e}' for e in es)}>"
                add(al, es, f"{E} e{{{xs(k)}}}; (void)e;", max(k, 1), [f"x{i}" for i in range(k)], T, f"{al} {es} {T}")
        # computed results
        for al, t, n, ex, es, vals, f in (
            ("vga", "gal::vga::vector<T> v{x0, x1, x2};", 3, "2 * v", [1, 2, 4], ["2 * x0", "2 * x1", "2 * x2"], lambda c, x: [2 * x[0], 2 * x[1], 2 * x[2]]),
            ("vga", "gal::vga::vector<T> v{x0, x1, x2};", 3, "v - v", [], [], lambda c, x: []),
            ("vga", "gal::vga::vector<T> v{x0, x1, x2};", 3, "v[1] + 1", [0], ["x0 + 1"], lambda c, x: [x[0] + 1]),
            ("pga2", "gal::pga2::line<T> v{x0, x1, x2};", 3, "v + v * 0_e1", [1, 2, 4], ["x0", "x1", "x2"], lambda c, x: [x[0], x[1], x[2]])):
            if "0_e1" in ex:
                continue
            p = add(al, es, f"{t} auto e = gal::{al}::compute([](auto v) {{ return {ex}; }}, v);", n, vals, T, f"{al} {ex} {T}")
            p.vals = f
    return out

# ---- more geometry: motions of every kind of object, mixed joins and meets, projections, planar motions, conformal primitives -----
def geometry2(th):
    out = []
    pt = lambda n, o: f"gal::vga::point<T> p{n}{{x{o}, x{o + 1}, x{o + 2}}};"
    pc, qc = "gal::pga::compute", "gal::pga2::compute"
    L = lambda n, o: f"gal::vga::point<T> a{n}{{x{o}, x{o + 1}, x{o + 2}}}, b{n}{{x{o + 3}, x{o + 4}, x{o + 5}}}; gal::pga::line<T> l{n} = {pc}([](auto p, auto q) {{ return p & q; }}, a{n}, b{n});"
    pl = lambda n, o: f"gal::pga::plane<T> s{n}{{x{o}, x{o + 1}, x{o + 2}, x{o + 3}}};"
    dirm = lambda x: (sub(x[0:3], x[3:6]), cross(x[0:3], sub(x[0:3], x[3:6])))
    O3 = lambda v: f"OUT(0, {v}.x); OUT(1, {v}.y); OUT(2, {v}.z);"
    O4 = lambda v: f"OUT(0, {v}.x); OUT(1, {v}.y); OUT(2, {v}.z); OUT(3, {v}.d);"
    O6 = lambda v: f"for (int i = 0; i != 6; ++i) OUT(i, {v}[i]);"
    def G(desc, n, body, want, hd=("vga", "pga"), Ts=("double",), **kw):
        for T in Ts:
            out.append(P(desc, n, body, want, hd, T=T, **kw))
    cmp_ = lambda names, ex, args: f"{pc}([]({', '.join('auto ' + x for x in names.split())}) {{ return {ex}; }}, {args})"
    # motions of every kind of object
    for k, ax in enumerate([(0, 0, 1), (1, 0, 0), (0, Fraction(3, 5), Fraction(4, 5)), (Fraction(2, 3), Fraction(-1, 3), Fraction(2, 3))]):
        A = ", ".join(fl(t) for t in ax)
        rot = lambda c, th_, p, ax=ax: rodrigues(c, th_ * PGA_ROT, ax, p)
        R = lambda i, ax=ax, A=A: f"gal::pga::rotor<T> r{{x{i}, {A}}};"
        Ts = ("double", "float") if k == 0 else ("double",)
        G(f"rotor {ax} turns directions", 4, R(3) + f"gal::pga::vector<T> v{{x0, x1, x2}}; gal::pga::vector<T> w = {cmp_('v r', 'v % r', 'v, r')};" + O3("w"), lambda c, x, rot=rot: rot(c, x[3], x[0:3]), Ts=Ts)
        G(f"rotor {ax} turns planes", 5, R(4) + pl(1, 0) + f"gal::pga::plane<T> w = {cmp_('s r', 's % r', 's1, r')};" + O4("w"), lambda c, x, rot=rot: rot(c, x[4], x[1:4]) + [x[0]], Ts=Ts)
        G(f"rotor {ax} turns lines", 7, R(6) + "gal::pga::line<T> l{x0, x1, x2, x3, x4, x5};" + f"gal::pga::line<T> w = {cmp_('l r', 'l % r', 'l, r')};" + O6("w"), lambda c, x, rot=rot: rot(c, x[6], x[0:3]) + rot(c, x[6], x[3:6]), Ts=Ts)
        G(f"turning by {ax} and back", 4, R(3) + pt(1, 0) + f"gal::vga::point<T> w = {cmp_('p r', '(p % r) % ~r', 'p1, r')};" + O3("w"), lambda c, x: x[0:3])
        G(f"vga: turning by {ax} and back", 4, f"gal::vga::rotor<T> r{{x3, {A}}}; gal::vga::vector<T> v{{x0, x1, x2}}; gal::vga::vector<T> w = gal::vga::compute([](auto v, auto r) {{ return ~r * (v % r) * r; }}, v, r);" + O3("w"), lambda c, x: x[0:3], ("vga",))
        G(f"motor: {ax} after a translation", 8, R(3) + "gal::pga::translator<T> t{x4, x5, x6, x7};" + pt(1, 0) + f"gal::pga::motor<T> m = {cmp_('r t', 'r * t', 'r, t')}; gal::vga::point<T> w = {cmp_('p m', 'p % m', 'p1, m')};" + O3("w"),
          lambda c, x, rot=rot: rot(c, x[3], [x[i] + x[4] * x[5 + i] for i in range(3)])) if k < 2 or th else None
        G(f"motor {ax} moves planes", 9, R(4) + pl(1, 0) + "gal::pga::translator<T> t{x5, x6, x7, x8};" + f"gal::pga::motor<T> m = {cmp_('t r', 't * r', 't, r')}; gal::pga::plane<T> w = {cmp_('s m', 's % m', 's1, m')};" + O4("w"),
          lambda c, x, rot=rot: rot(c, x[4], x[1:4]) + [x[0] - x[5] * dot(rot(c, x[4], x[1:4]), x[6:9])]) if k < 2 or th else None
        G(f"motor {ax} moves directions", 8, R(3) + "gal::pga::translator<T> t{x4, x5, x6, x7}; gal::pga::vector<T> v{x0, x1, x2};" + f"gal::pga::motor<T> m = {cmp_('t r', 't * r', 't, r')}; gal::pga::vector<T> w = {cmp_('v m', 'v % m', 'v, m')};" + O3("w"), lambda c, x, rot=rot: rot(c, x[3], x[0:3])) if k < 2 or th else None
        if k < 1 or th:
            G(f"motor {ax} moves lines", 11, R(6) + "gal::pga::line<T> l{x0, x1, x2, x3, x4, x5}; gal::pga::translator<T> t{x7, x8, x9, x10};" + f"gal::pga::motor<T> m = {cmp_('t r', 't * r', 't, r')}; gal::pga::line<T> w = {cmp_('l m', 'l % m', 'l, m')};" + O6("w"),
              lambda c, x, rot=rot: rot(c, x[6], x[0:3]) + add(rot(c, x[6], x[3:6]), cross([x[7] * x[8 + i] for i in range(3)], rot(c, x[6], x[0:3]))))
    G("two rotors after one another", 5, "gal::pga::rotor<T> r{x3, 0, 0, 1}, q{x4, 1, 0, 0};" + pt(1, 0) + f"gal::vga::point<T> w = {cmp_('p r q', 'p % (q * r)', 'p1, r, q')};" + O3("w"), lambda c, x: rodrigues(c, x[4] * PGA_ROT, (1, 0, 0), rodrigues(c, x[3] * PGA_ROT, (0, 0, 1), x[0:3])))
    G("vga: two rotors after one another", 5, "gal::vga::rotor<T> r{x3, 0, 0, 1}, q{x4, 0, 1, 0}; gal::vga::vector<T> v{x0, x1, x2};" + "gal::vga::vector<T> w = gal::vga::compute([](auto v, auto r, auto q) { return v % (q * r); }, v, r, q);" + O3("w"), lambda c, x: rodrigues(c, x[4], (0, 1, 0), rodrigues(c, x[3], (0, 0, 1), x[0:3])), ("vga",))
    G("vga: rotors turn bivectors like their normals", 4, "gal::vga::rotor<T> r{x3, 0, 0, 1}; gal::vga::vector<T> v{x0, x1, x2};" + "gal::vga::vector<T> w = gal::vga::compute([](auto v, auto r) { using namespace gal::vga; return ((v * 1_e012) % r) * 1_e012; }, v, r);" + O3("w"), lambda c, x: [-t for t in rodrigues(c, x[3], (0, 0, 1), x[0:3])], ("vga",))
    G("translator moves lines", 10, "gal::pga::line<T> l{x0, x1, x2, x3, x4, x5}; gal::pga::translator<T> t{x6, x7, x8, x9};" + f"gal::pga::line<T> w = {cmp_('l t', 'l % t', 'l, t')};" + O6("w"), lambda c, x: x[0:3] + add(x[3:6], cross([x[6] * x[7 + i] for i in range(3)], x[0:3])), Ts=("double", "float"))
    G("translating there and back", 7, pt(1, 0) + "gal::pga::translator<T> t{x3, x4, x5, x6};" + f"gal::vga::point<T> w = {cmp_('p t', '(p % t) % ~t', 'p1, t')};" + O3("w"), lambda c, x: x[0:3])
    G("translators from distance and direction", 4, "gal::pga::translator<T> t{x0, x1, x2, x3}; gal::vga::point<T> o{0, 0, 0};" + f"gal::vga::point<T> w = {cmp_('p t', 'p % t', 'o, t')};" + O3("w"), lambda c, x: [x[0] * x[1 + i] for i in range(3)], Ts=("double", "float"))
    # mixed joins and meets
    def lp(c, x):
        d, n = sub(x[3:6], x[0:3]), x[7:10]
        t = -(dot(n, x[0:3]) + x[6]) / dot(n, d)
        return [x[i] + t * d[i] for i in range(3)]
    G("line meets plane", 10, L(1, 0) + pl(1, 6) + f"gal::vga::point<T> w = {cmp_('l s', 'l ^ s', 'l1, s1')};" + O3("w") + f"gal::vga::point<T> v = {cmp_('l s', 's ^ l', 'l1, s1')}; OUT(3, v.x); OUT(4, v.y); OUT(5, v.z);", lambda c, x: lp(c, x) * 2, Ts=("double", "float"))
    G("plane through a line and a point", 9, L(1, 0) + pt(3, 6) + f"gal::pga::plane<T> w = {cmp_('l p', 'l & p', 'l1, p3')};" + O4("w"), lambda c, x: [-t for t in cross(sub(x[3:6], x[0:3]), sub(x[6:9], x[0:3]))] + [dot(cross(sub(x[3:6], x[0:3]), sub(x[6:9], x[0:3])), x[0:3])])
    G("moment of two lines", 12, L(1, 0) + L(2, 6) + f"auto const r = {cmp_('l m', 'l & m', 'l1, l2')}; OUT(0, r.select(0));", lambda c, x: [(dot(dirm(x[0:6])[0], dirm(x[6:12])[1]) + dot(dirm(x[0:6])[1], dirm(x[6:12])[0]))])
    G("lines through a common point", 9, pt(1, 0) + pt(2, 3) + pt(3, 6) + f"auto const r = {cmp_('p q s', '(p & q) & (p & s)', 'p1, p2, p3')}; for (int e = 0; e != 16; ++e) OUT(e, r.select(e));", lambda c, x: [0] * 16)
    G("four coplanar points", 11, pt(1, 0) + pt(2, 3) + pt(3, 6) + "gal::vga::point<T> p4{x0 + x9 * (x3 - x0) + x10 * (x6 - x0), x1 + x9 * (x4 - x1) + x10 * (x7 - x1), x2 + x9 * (x5 - x2) + x10 * (x8 - x2)};" + f"auto const r = {cmp_('p q s t', 'p & q & s & t', 'p1, p2, p3, p4')}; for (int e = 0; e != 16; ++e) OUT(e, r.select(e));", lambda c, x: [0] * 16)
    G("volume of a tetrahedron", 12, pt(1, 0) + pt(2, 3) + pt(3, 6) + pt(4, 9) + f"auto const r = {cmp_('p q s t', 'p & q & s & t', 'p1, p2, p3, p4')}; OUT(0, r.select(0));", lambda c, x: [dot(sub(x[9:12], x[0:3]), cross(sub(x[3:6], x[0:3]), sub(x[6:9], x[0:3]))) * VOL])
    G("plane normal to a line through a point", 9, L(1, 0) + pt(3, 6) + f"gal::pga::plane<T> w = {cmp_('l p', 'l | p', 'l1, p3')}; OUT(0, w.x * x6 + w.y * x7 + w.z * x8 + w.d); OUT(1, w.x); OUT(2, w.y); OUT(3, w.z);", lambda c, x: [0] + [t * PERP for t in sub(x[0:3], x[3:6])])
    G("line normal to a plane through a point", 7, pl(1, 0) + pt(1, 4) + f"gal::pga::line<T> w = {cmp_('s p', 's | p', 's1, p1')};" + O6("w"), lambda c, x: [t * NRM for t in x[1:4]] + [t * NRM for t in cross(x[4:7], x[1:4])])
    def pol(c, x):
        d = sub(x[3:6], x[0:3])
        t = dot(d, sub(x[6:9], x[0:3])) / dot(d, d)
        return [x[i] + t * d[i] for i in range(3)]
    G("projection of a point on a line", 9, L(1, 0) + pt(3, 6) + f"gal::vga::point<T> w = {cmp_('l p', '(l | p) * l', 'l1, p3')};" + O3("w"), pol)
    G("reflection of a point in a line", 9, L(1, 0) + pt(3, 6) + f"gal::vga::point<T> w = {cmp_('l p', 'l * p * l', 'l1, p3')};" + O3("w"), lambda c, x: [p * 2 - q for p, q in zip(pol(c, x), x[6:9])])
    G("reflection of a point in a point", 6, pt(1, 0) + pt(2, 3) + f"gal::vga::point<T> w = {cmp_('c p', 'c * p * c', 'p1, p2')};" + O3("w"), lambda c, x: [p * 2 - q for p, q in zip(x[0:3], x[3:6])])
    G("reflection of a plane in a plane", 8, pl(1, 0) + pl(2, 4) + f"gal::pga::plane<T> w = {cmp_('a b', '(a * b * a) / (a | a)', 's1, s2')}; OUT(0, w.x); OUT(1, w.y); OUT(2, w.z);", lambda c, x: [x[1 + i] * dot(x[1:4], x[5:8]) * 2 / dot(x[1:4], x[1:4]) - x[5 + i] for i in range(3)])
    G("squared distance of a point and a plane", 7, pl(1, 0) + pt(1, 4) + f"auto const r = {cmp_('s p', '((s & p) * (s & p)) / (s | s)', 's1, p1')}; OUT(0, r.select(0));", lambda c, x: [(dot(x[1:4], x[4:7]) + x[0]) * (dot(x[1:4], x[4:7]) + x[0]) / dot(x[1:4], x[1:4])])
    G("parallel planes meet at infinity", 5, "gal::pga::plane<T> a{x0, x1, x2, x3}, b{x4, x1, x2, x3};" + f"gal::pga::line<T> l = {cmp_('a b', 'a ^ b', 'a, b')};" + O6("l"), lambda c, x: [0, 0, 0] + [(x[0] - x[4]) * x[1 + i] * INF for i in range(3)])
    # the plane
    lin = lambda n, o: f"gal::pga2::line<T> l{n}{{x{o}, x{o + 1}, x{o + 2}}};"
    q2 = lambda names, ex, args: f"{qc}([]({', '.join('auto ' + x for x in names.split())}) {{ return {ex}; }}, {args})"
    O2 = lambda v: f"OUT(0, {v}.x); OUT(1, {v}.y);"
    H = lambda *a, **k: G(*a, hd=("pga2",), **k)
    refl = lambda l, p: [p[i] - (l[1] * p[0] + l[2] * p[1] + l[0]) * 2 * l[1 + i] / (l[1] * l[1] + l[2] * l[2]) for i in range(2)]
    H("planar reflection in any line", 5, lin(1, 0) + "gal::pga2::point<T> p{x3, x4};" + f"gal::pga2::point<T> w = {q2('p l', 'l * p * l', 'p, l1')};" + O2("w"), lambda c, x: refl(x[0:3], x[3:5]), Ts=("double", "float"))
    H("two planar reflections", 8, lin(1, 0) + lin(2, 3) + "gal::pga2::point<T> p{x6, x7};" + f"gal::pga2::point<T> w = {q2('p a b', 'p % (b * a)', 'p, l1, l2')};" + O2("w"), lambda c, x: refl(x[3:6], refl(x[0:3], x[6:8])))
    H("planar projection of a point on a line", 5, lin(1, 0) + "gal::pga2::point<T> p{x3, x4};" + f"gal::pga2::point<T> w = {q2('p l', '(l | p) * l', 'p, l1')};" + O2("w"), lambda c, x: [(x[3 + i] + refl(x[0:3], x[3:5])[i]) * h for i in range(2)])
    H("planar normal through a point", 5, lin(1, 0) + "gal::pga2::point<T> p{x3, x4};" + f"gal::pga2::line<T> w = {q2('p l', 'l | p', 'p, l1')}; OUT(0, w.x * x3 + w.y * x4 + w.d); OUT(1, w.x * x1 + w.y * x2); OUT(2, w.x); OUT(3, w.y);", lambda c, x: [0, 0, x[2] * PN, -x[1] * PN])
    H("angle of planar lines", 6, lin(1, 0) + lin(2, 3) + f"auto const r = {q2('a b', 'a | b', 'l1, l2')}; OUT(0, r.select(0)); auto const s = {q2('a b', 'a * b', 'l1, l2')}; OUT(1, s.select(6));", lambda c, x: [x[1] * x[4] + x[2] * x[5], x[1] * x[5] - x[2] * x[4]])
    H("planar incidence of three points", 5, "gal::pga2::point<T> p{x0, x1}, q{x2, x3}, s{x0 + x4 * (x2 - x0), x1 + x4 * (x3 - x1)};" + f"auto const r = {q2('p q s', 'p & q & s', 'p, q, s')}; for (int e = 0; e != 8; ++e) OUT(e, r.select(e));", lambda c, x: [0] * 8)
    H("planar line meets the line through two points", 7, lin(1, 0) + "gal::pga2::point<T> p{x3, x4}, q{x5, x6};" + f"gal::pga2::point<T> w = {q2('l p q', 'l ^ (p & q)', 'l1, p, q')};" + O2("w"), lambda c, x: [x[3 + i] - (x[5 + i] - x[3 + i]) * (x[1] * x[3] + x[2] * x[4] + x[0]) / (x[1] * (x[5] - x[3]) + x[2] * (x[6] - x[4])) for i in range(2)])
    H("planar midpoint", 4, "gal::pga2::point<T> p{x0, x1}, q{x2, x3};" + f"gal::pga2::point<T> w = {q2('p q', 'p + q', 'p, q')};" + O2("w"), lambda c, x: [(x[0] + x[2]) * h, (x[1] + x[3]) * h])
    H("squared planar distance", 4, "gal::pga2::point<T> p{x0, x1}, q{x2, x3};" + f"auto const r = {q2('p q', '(p & q) | (p & q)', 'p, q')}; OUT(0, r.select(0));", lambda c, x: [(x[0] - x[2]) * (x[0] - x[2]) + (x[1] - x[3]) * (x[1] - x[3])])
    # conformal primitives
    for al, n in (("cga", 3), ("cga2", 2)):
        no, ni = 1 << n, 2 << n
        cc = f"gal::{al}::compute"
        C = lambda names, ex, args, cc=cc, al=al: f"{cc}([]({', '.join('auto ' + x for x in names.split())}) {{ using namespace gal::{al}; return {ex}; }}, {args})"
        E1 = f"gal::entity<{AL(al)}, T{''.join(f', {1 << i}' for i in range(n))}>"
        X = f"gal::{al}::point<T> p{{{xs(n)}}};"
        all_ = f"for (int e = 0; e != {4 << n}; ++e) OUT(e, r.select(e));"
        def pointat(n, v, s=1):
            m = [0] * (4 << n)
            for i in range(n):
                m[1 << i] = v[i] * s
            m[1 << n] = s
            m[2 << n] = dot(v, v) * h * s
            return m
        pa = pointat
        K = lambda *a, **k: G(*a, hd=(al,), **k)
        K(f"{al}: translation", 2 * n, X + f"{E1} t{{{xs(n, n)}}}; auto const r = {C('p t', 'p % (1 - (t * 1_ni) / 2)', 'p, t')};" + all_, lambda c, x, n=n: pointat(n, add(x[0:n], x[n:2 * n])))
        K(f"{al}: reflection in a plane", 2 * n + 1, X + f"{E1} t{{{xs(n, n)}}}; gal::scalar<{AL(al)}, T> d{{x{2 * n}}}; auto const r = {C('p t d', '-((t + d * 1_ni) * p * (t + d * 1_ni)) / scalar_product(t, t)', 'p, t, d')};" + all_,
          lambda c, x, n=n: pointat(n, [x[i] - (dot(x[0:n], x[n:2 * n]) - x[2 * n]) * 2 * x[n + i] / dot(x[n:2 * n], x[n:2 * n]) for i in range(n)]))
        K(f"{al}: a point against a sphere", 2 * n + 1, X + f"gal::{al}::point<T> q{{{xs(n, n)}}}; gal::scalar<{AL(al)}, T> s{{x{2 * n}}}; auto const r = {C('p q s', 'p | (q - (s * 1_ni) / 2)', 'p, q, s')}; OUT(0, r.select(0)); auto const u = {C('q s', '(q - (s * 1_ni) / 2) * (q - (s * 1_ni) / 2)', 'q, s')}; OUT(1, u.select(0)); OUT(2, u.size());",
          lambda c, x, n=n: [(x[2 * n] - dot(sub(x[0:n], x[n:2 * n]), sub(x[0:n], x[n:2 * n]))) * h, x[2 * n], 1])
        K(f"{al}: inversion in the unit sphere", n, X + f"auto const r = {C('p', '-((1_no - 1_ni / 2) * p * (1_no - 1_ni / 2))', 'p')}; OUT(0, r.select({no})); OUT(1, r.select({ni}));" + "".join(f"OUT({2 + i}, r.select({1 << i}));" for i in range(n)), lambda c, x, n=n: [dot(x[0:n], x[0:n]), h] + x[0:n])
        K(f"{al}: points back from results", 2 * n, X + f"{E1} t{{{xs(n, n)}}}; gal::{al}::point<T> r = {C('p t', 'p % (1 - (t * 1_ni) / 2)', 'p, t')};" + "".join(f"OUT({i}, r[{i}]);" for i in range(n)), lambda c, x, n=n: add(x[0:n], x[n:2 * n]), Ts=("double", "float"))
        K(f"{al}: a rotation is two reflections", 3 * n, X + f"{E1} u{{{xs(n, n)}}}, v{{{xs(n, 2 * n)}}}; auto const r = {C('p u v', '(p % (v * u)) / (scalar_product(u, u) * scalar_product(v, v))', 'p, u, v')};" + all_,
          lambda c, x, n=n: pointat(n, (lambda f: f(f(x[0:n], x[n:2 * n]), x[2 * n:3 * n]))(lambda p, u: [p[i] - dot(p, u) * 2 * u[i] / dot(u, u) for i in range(n)]))) if n == 2 or th else None
    G("cga: points of a sphere", 3, "gal::cga::point<T> a{1, 0, 0}, b{0, 1, 0}, c{-1, 0, 0}, d{0, 0, 1}, p{x0, x1, x2};" + "auto const r = gal::cga::compute([](auto p, auto q, auto s, auto t, auto x) { return p ^ q ^ s ^ t ^ x; }, a, b, c, d, p); OUT(0, r.select(31));", lambda c, x: [(1 - dot(x[0:3], x[0:3])) * SPH], ("cga",))
    G("cga: points of a plane", 3, "gal::cga::point<T> a{1, 0, 0}, b{0, 1, 0}, c{0, 0, 1}, p{x0, x1, x2};" + "auto const r = gal::cga::compute([](auto p, auto q, auto s, auto x) { using namespace gal::cga; return p ^ q ^ s ^ 1_ni ^ x; }, a, b, c, p); OUT(0, r.select(31));", lambda c, x: [(1 - x[0] - x[1] - x[2]) * PLN], ("cga",))
    return out

# orientation conventions of the library's dual and join
VOL, PERP, NRM, INF, PN, SPH, PLN = -1, 1, -1, -1, -1, 1, -1
