"""Bounded obligations on the library's own functions, over symbolic integers."""
from .harness import Harness

METRICS = [(3, 0, 0), (3, 0, 1), (2, 0, 1), (4, 1, 0), (3, 1, 0)]
MORE = [(2, 0, 0), (1, 1, 0), (1, 3, 0), (1, 1, 1), (0, 2, 0), (0, 1, 1), (2, 1, 2), (0, 0, 3), (2, 2, 1), (1, 0, 0), (3, 3, 0), (5, 1, 0)]

BLADE_REF = r'''
static int vp_pop(unsigned x) { int c = 0; for (int i = 0; i != 8; ++i) c += (x >> i) & 1; return c; }
// sign of reordering the generator list of a followed by that of b (parity of inversions)
static int vp_inv(unsigned a, unsigned b) { int c = 0; for (int j = 0; j != DIM; ++j) if ((b >> j) & 1) c += vp_pop(a >> (j + 1)); return c & 1; }
static int vp_sq(unsigned a, unsigned b) // product of the squares of the shared generators
{
    int s = 1;
    for (int j = 0; j != DIM; ++j)
        if ((a >> j) & (b >> j) & 1)
            s *= j < R ? 0 : (j < R + P ? 1 : -1);
    return s;
}
static int vp_geo(unsigned a, unsigned b) { int m = vp_sq(a, b); return vp_inv(a, b) ? -m : m; }
'''

def blades(m):
    """both blades symbolic up to dimension 4; beyond, one list of obligations per value range of the first blade"""
    dim = sum(m)
    if dim <= 4:
        return [blades_range(m, True, 0, (1 << dim) - 1, "")]
    n = 4 if dim == 5 else 8
    k = (1 << dim) // n
    return [blades_range(m, False, i * k, i * k + k - 1, f"_{i}") for i in range(n)]

def blades_range(m, sym, lo, top, tag):
    p, v, r = m
    dim = p + v + r
    hi = (1 << dim) - 1
    code = f'''
#define DIM {dim}
#define P {p}
#define R {r}
{BLADE_REF}
using A = gal::algebra<gal::metric<{p}, {v}, {r}>>;
extern "C" void H()
{{
    unsigned a = {"vp_int" if sym else "vp_choose"}(0, {lo}, {top}), b = vp_int(1, 0, {hi});
    int want = vp_geo(a, b), ga = vp_pop(a), gb = vp_pop(b), g = vp_pop(a ^ b);
    auto x = A::geometric::product(a, b);
    vp_assert(x.second == want, 1);
    vp_assert(want == 0 || x.first == (a ^ b), 2);
    auto w = A::exterior::product(a, b);
    int wantw = (a & b) ? 0 : (vp_inv(a, b) ? -1 : 1);
    vp_assert(w.second == wantw, 3);
    vp_assert(wantw == 0 || w.first == (a | b), 4);
    auto c = A::contract::product(a, b);
    int wantc = g == gb - ga ? want : 0;
    vp_assert(c.second == wantc, 5);
    vp_assert(wantc == 0 || c.first == (a ^ b), 6);
    auto s = A::symmetric_inner::product(a, b);
    int d = ga < gb ? gb - ga : ga - gb;
    int wants = (a == 0 || b == 0 || g != d) ? 0 : want;
    vp_assert(s.second == wants, 7);
    vp_assert(wants == 0 || s.first == (a ^ b), 8);
}}
'''
    return Harness(f"blades_{p}{v}{r}{tag}", f"products of any two basis blades, metric ({p},{v},{r}), first blade {lo}..{top}", ["gal/geometric_algebra.hpp"], code,
                   {1: "geometric product sign", 2: "geometric product blade", 3: "exterior product sign", 4: "exterior product blade",
                    5: "left contraction sign", 6: "left contraction blade", 7: "symmetric inner product sign", 8: "symmetric inner product blade"},
                   f"all pairs of blades of a {dim}-dimensional space")

def complement(m):
    p, v, r = m
    dim = p + v + r
    hi = (1 << dim) - 1
    code = f'''
#define DIM {dim}
#define P {p}
#define R {r}
{BLADE_REF}
using A = gal::algebra<gal::metric<{p}, {v}, {r}>>;
extern "C" void H()
{{
    unsigned a = vp_int(0, 0, {hi});
    gal::mv<A, 1, 1, 1> in{{gal::mv_size{{1, 1, 1}}, {{gal::ind{{7, gal::one}}}}, {{gal::mon{{gal::one, gal::one, 1, 0}}}}, {{gal::term{{1, 0, a}}}}}};
    auto out = gal::detail::poincare_dual(in);
    vp_assert(out.size.term == 1 && out.size.mon == 1 && out.size.ind == 1, 1);
    vp_assert(out.terms[0].element == (a ^ {hi}u), 2);
    vp_assert(out.mons[0].q.den == 1 && out.mons[0].q.num == (vp_inv(a, a ^ {hi}u) ? -1 : 1), 3);
    vp_assert(out.inds[0].id == 7 && out.mons[0].count == 1, 4);
    auto rev = gal::detail::reverse(in);
    int g = vp_pop(a);
    vp_assert(rev.terms[0].element == a && rev.mons[0].q.num == ((g * (g - 1) / 2) % 2 ? -1 : 1) && rev.mons[0].q.den == 1, 5);
}}
'''
    return Harness(f"dual_{p}{v}{r}", f"complement and reversal of any basis blade, metric ({p},{v},{r})", ["gal/geometric_algebra.hpp"], code,
                   {1: "complement of a blade is one term", 2: "complement blade", 3: "complement sign (x ^ !x is the pseudoscalar)", 4: "complement keeps the coefficient", 5: "reversal sign"},
                   f"all blades of a {dim}-dimensional space")

RAT_REF = r'''
using gal::rat;
typedef int L; // every product below stays under 2^31 within the stated bounds
static bool vp_eq(rat r, L n, L d) { return (L)r.num * d == n * (L)r.den; }
'''
def rats(n, d, tag=""):
    """exact arithmetic while the denominators stay below the documented approximation threshold"""
    I = lambda k: f"rat{{vp_int({k}, -{n}, {n}), vp_int({k + 1}, 1, {d})}}"
    out = []
    def H(name, desc, body, labels, pre="rat a = {A}, b = {B};", **kw):
        body2 = pre.replace("{A}", I(0)).replace("{B}", I(2)) + body
        out.append(Harness(f"rat_{name}{tag}", desc, ["gal/numeric.hpp"], RAT_REF + 'extern "C" void H()\n{\n' + body2 + "\n}\n", labels,
                           f"numerators |n| <= {n}, denominators 1..{d}, reduced or not; std::gcd on symbolic arguments is replaced by its mathematical contract", fork=True, **kw))
    H("add", "sum of two rationals", '''
    rat r = a + b; vp_assert(r.den >= 1, 1); vp_assert(vp_eq(r, (L)a.num * b.den + (L)b.num * a.den, (L)a.den * b.den), 2);''', {1: "denominator positive", 2: "sum exact"})
    H("sub", "difference of two rationals", '''
    rat r = a - b; vp_assert(r.den >= 1, 1); vp_assert(vp_eq(r, (L)a.num * b.den - (L)b.num * a.den, (L)a.den * b.den), 2);''', {1: "denominator positive", 2: "difference exact"})
    H("mul", "product of two rationals", '''
    rat r = a * b; vp_assert(r.den >= 1, 1); vp_assert(vp_eq(r, (L)a.num * b.num, (L)a.den * b.den), 2);''', {1: "denominator positive", 2: "product exact"})
    # the quotient's denominator is a.den*|b.num|: keep it below the threshold as well
    H("div", "quotient of two rationals", f'''
    vp_assume(b.num != 0 && b.num >= -{d} && b.num <= {d});
    rat r = a / b; vp_assert(r.den >= 1, 1); vp_assert(vp_eq(r, (L)a.num * b.den, (L)a.den * b.num), 2);''', {1: "denominator positive", 2: "quotient exact"})
    H("iadd", "in-place sum", '''
    rat r = a; r += b; vp_assert(r.den >= 1, 1); vp_assert(vp_eq(r, (L)a.num * b.den + (L)b.num * a.den, (L)a.den * b.den), 2);''', {1: "denominator positive", 2: "sum exact"})
    H("imul", "in-place product", '''
    rat r = a; r *= b; vp_assert(r.den >= 1, 1); vp_assert(vp_eq(r, (L)a.num * b.num, (L)a.den * b.den), 2);''', {1: "denominator positive", 2: "product exact"})
    H("idiv", "in-place quotient", '''
    vp_assume(vp_choose(9, 0, 1) ? b.num > 0 : b.num < 0);
    rat r = a; r /= b; vp_assert(r.den >= 1, 1); vp_assert(vp_eq(r, (L)a.num * b.den, (L)a.den * b.num), 2);''', {1: "denominator positive", 2: "quotient exact"})
    H("int", "integer operands, negation, reciprocal, predicates", f'''
    int k = vp_choose(9, -{d}, {d});
    rat r = k * a; vp_assert(r.den >= 1 && vp_eq(r, (L)a.num * k, a.den), 1);
    rat m = -a; vp_assert(m.den >= 1 && vp_eq(m, -(L)a.num, a.den), 2);
    rat m2 = a.negation(); vp_assert(m2.den >= 1 && vp_eq(m2, -(L)a.num, a.den), 2);
    vp_assert(a.is_zero() == (a.num == 0), 4);
    vp_assert(a.is_unit() == (a.num == a.den), 5);
    vp_assert((a != k) == ((L)a.num != (L)k * a.den), 6);
    if (a.num != 0) {{ rat q = a.reciprocal(); vp_assert(q.den >= 1 && vp_eq(q, a.den, a.num), 3); }}
''', {1: "integer multiple exact", 2: "negation exact", 3: "reciprocal exact", 4: "is_zero", 5: "is_unit", 6: "comparison with an integer"}, pre="rat a = {A};")
    H("divint", "quotient by an integer", f'''
    int k = vp_choose(9, -{d}, {d}); vp_assume(k != 0);
    rat q = a / k; vp_assert(q.den >= 1, 1); vp_assert(k < 0 ? vp_eq(q, -a.num, (L)a.den * -k) : vp_eq(q, a.num, (L)a.den * k), 2);''', {1: "denominator positive", 2: "quotient exact"}, pre="rat a = {A};")
    H("order", "order of rationals", '''
    vp_assert((a < b) == ((L)a.num * b.den < (L)b.num * a.den), 1);
    vp_assert((a > b) == ((L)a.num * b.den > (L)b.num * a.den), 2);''', {1: "less than", 2: "greater than"})
    H("gate", "reduction of a fraction below the approximation threshold", f'''
    rat a{{vp_int(0, -{n}, {n}), vp_int(1, 1, 1023)}};
    rat r = gal::detail::overflow_gate(a); vp_assert(r.den >= 1, 1); vp_assert(vp_eq(r, a.num, a.den), 2);''', {1: "denominator positive", 2: "value unchanged"}, pre="")
    return out

def rat_eq(k):
    """equality is equality of values, also for unreduced representations: a/b == (a s)/(b s)"""
    code = RAT_REF + f'''
extern "C" void H()
{{
    rat a{{vp_choose(0, -{k}, {k}), vp_choose(1, 1, {k})}}, b{{vp_choose(2, -{k}, {k}), vp_choose(3, 1, {k})}};
    bool same = (L)a.num * b.den == (L)b.num * a.den;
    vp_assert((a == b) == same, 1);
    vp_assert((a != b) == !same, 2);
}}
'''
    return Harness(f"rat_eq{k}", "equality of rationals is equality of values", ["gal/numeric.hpp"], code, {1: "==", 2: "!="},
                   f"|numerator| <= {k}, denominators 1..{k}, every representation; std::gcd executed as written", exact_gcd=True, max_paths=200000, budget=120)

def bits():
    out = []
    def H(name, desc, body, labels, bounds, **kw):
        out.append(Harness("bit_" + name, desc, ["gal/numeric.hpp"], "typedef unsigned long long U;\nextern \"C\" void H()\n{\n" + body + "\n}\n", labels, bounds, **kw))
    H("pow2", "next power of two", '''
    unsigned s = (unsigned)vp_int(0, 0, 0x7fffffff) ; vp_assume(s <= 0x40000000u);
    unsigned r = gal::next_pow_2(s);
    if (s == 0) { vp_assert(r == 0, 1); return; }
    vp_assert((r & (r - 1)) == 0 && r >= s, 2); vp_assert(r / 2 < s, 3);
    U t = ((U)(unsigned)vp_int(1, 0, 0x3fffffff) << 30) | (unsigned)vp_int(2, 0, 0x3fffffff); vp_assume(t != 0);
    U q = gal::next_pow_2(t); vp_assert((q & (q - 1)) == 0 && q >= t, 4); vp_assert(q / 2 < t, 5);
''', {1: "zero", 2: "power of two, not smaller", 3: "smallest such", 4: "64 bit", 5: "64 bit smallest"}, "32-bit inputs <= 2^30, 64-bit inputs < 2^60")
    H("count", "set bit counting, leading bit, rotation", '''
    unsigned x = (unsigned)vp_int(0, 0, 0x7fffffff) * 2u + (unsigned)vp_int(1, 0, 1);
    unsigned c = 0; for (int i = 0; i != 32; ++i) c += (x >> i) & 1;
    vp_assert(gal::pop_count(x) == c, 1);
    if (x) { unsigned l = gal::leading_set_index(x); vp_assert(l < 32 && (x >> l) == 1, 2); }
    vp_assert(gal::rot32(x) == ((x >> 8) | (x << 24)), 3);
''', {1: "pop_count", 2: "leading_set_index", 3: "rot32"}, "every 32-bit word")
    H("even", "next word with an even number of bits", '''
    unsigned x = (unsigned)vp_int(0, 0, 1023);
    unsigned r = gal::next_even(x);
    vp_assert(r > x && gal::pop_count(r) % 2 == 0, 1);
    unsigned y = (unsigned)vp_int(1, 0, 1100); vp_assume(y > x && y < r); vp_assert(gal::pop_count(y) % 2 == 1, 2);
''', {1: "larger with even weight", 2: "no such word in between"}, "words < 1024")
    return out

def spans(m):
    p, v, r = m
    dim = p + v + r
    code = f'''
using A = gal::algebra<gal::metric<{p}, {v}, {r}>>;
static int vp_pop(unsigned x) {{ int c = 0; for (int i = 0; i != 8; ++i) c += (x >> i) & 1; return c; }}
template <typename M> static void chk(M const& m, unsigned id, unsigned e, bool want, int l)
{{
    int n = 0, at = -1;
    for (int i = 0; i != (int)m.size.term; ++i) if (m.terms[i].element == e) {{ ++n; at = i; }}
    vp_assert(n == (want ? 1 : 0), l);
    if (want) vp_assert(m.terms[at].count == 1 && m.mons[m.terms[at].mon_offset].q.num == 1 && m.mons[m.terms[at].mon_offset].q.den == 1
        && m.mons[m.terms[at].mon_offset].count == 1 && m.inds[m.mons[m.terms[at].mon_offset].ind_offset].id == id + at, l);
}}
extern "C" void H()
{{
    unsigned id = vp_int(0, 0, 1000), e = vp_choose(1, 0, {(1 << dim) - 1});
    chk(A::even_mv(id), id, e, vp_pop(e) % 2 == 0, 1);
    chk(A::bivector_mv(id), id, e, vp_pop(e) == 2, 2);
    gal::mv<A, 0, 1, 1> I = A::pseudoscalar, J = A::pseudoscalar_inv;
    auto s = A::geometric::product(I.terms[0].element, J.terms[0].element);
    vp_assert(I.terms[0].element == {(1 << dim) - 1}u && I.mons[0].q.num == 1, 3);
    {"vp_assert(s.first == 0 && s.second * J.mons[0].q.num == 1, 4);" if r == 0 else ""}
}}
'''
    L = {1: "even subalgebra lists every even blade once", 2: "bivector lists every grade-2 blade once", 3: "pseudoscalar"}
    if r == 0:
        L[4] = "pseudoscalar times its inverse is 1"
    return Harness(f"spans_{p}{v}{r}", f"generic even / bivector / pseudoscalar elements, metric ({p},{v},{r})", ["gal/geometric_algebra.hpp"], code, L, f"any id <= 1000, all blades of dimension {dim}")

def sorts(n, kmax=None, near=False):
    kmax = n if kmax is None else kmax
    pre = "".join(f"vp_assume(x[{i}].k <= x[{i + 1}].k);" for i in range(n - 3)) if near else ""
    code = f'''
struct E {{ int k; int t; }};
inline bool operator<(E const& a, E const& b) {{ return a.k < b.k; }}
static void body(bool cmp)
{{
    E x[{n}]; E y[{n}];
    for (int i = 0; i != {n}; ++i) {{ x[i] = E{{vp_int(i, 0, {kmax}), i}}; y[i] = x[i]; }}
    {pre}
    if (cmp) gal::detail::sort(x, x + {n}, [](E const& a, E const& b) {{ return a.k > b.k; }});
    else gal::detail::sort(x, x + {n});
    for (int i = 0; i + 1 < {n}; ++i) vp_assert(cmp ? !(x[i].k < x[i + 1].k) : !(x[i + 1].k < x[i].k), 1);
    unsigned seen = 0;
    for (int i = 0; i != {n}; ++i) {{ vp_assert(x[i].t >= 0 && x[i].t < {n}, 2); seen |= 1u << x[i].t; vp_assert(x[i].k == y[x[i].t].k, 2); }}
    vp_assert(seen == (1u << {n}) - 1, 2);
}}
extern "C" void H() {{ body(vp_choose(99, 0, 1) == 1); }}
'''
    return Harness(f"sort_{n}_{kmax}{'_near' if near else ''}", f"sorting any {n} keys", ["gal/algorithm.hpp"], code, {1: "sorted", 2: "permutation of the input"}, f"{n} keys in 0..{kmax}, both overloads" + (f", the first {n - 2} in order" if near else ""), max_paths=60000, budget=150)

def crc():
    code = r'''
static unsigned ref(unsigned x, int bytes) { unsigned c = ~0u; for (int i = 0; i != bytes; ++i) { c ^= (x >> (8 * i)) & 0xff; for (int k = 0; k != 8; ++k) c = (c >> 1) ^ ((c & 1) ? 0xEDB88320u : 0u); } return ~c; }
extern "C" void H()
{
    unsigned x = (unsigned)vp_choose(0, 0, 255);
    vp_assert(gal::detail::crc32_8((unsigned char)x) == ref(x, 1), 1);
    for (int s = 0; s != 32; s += 8)
    {
        vp_assert(gal::detail::crc32(x << s) == ref(x << s, 4), 2);
        unsigned y = (0x3c5a96f1u & ~(0xffu << s)) | (x << s), z = y ^ (0xffffffffu & ~(0xffu << s));
        vp_assert(gal::detail::crc32(y) == ref(y, 4), 2);
        vp_assert(gal::detail::crc32(z) == ref(z, 4), 2);
    }
}
'''
    return Harness("crc", "checksum is CRC-32", ["gal/crc.hpp"], code, {1: "CRC-32 of one byte", 2: "CRC-32 of four bytes"}, "every byte in every position against three backgrounds (a CRC is affine in its input, so for a table-driven CRC this determines every word)")

def containers():
    out = []
    code = r'''
extern "C" void H()
{
    gal::detail::stack<int, 6> s{};
    int v[6]; int n = 0;
    for (int i = 0; i != 6; ++i)
    {
        int op = vp_choose(i, 0, 2), x = vp_int(10 + i, -100, 100);
        if (op == 0 || n == 0) { s.push(x); v[n++] = x; }
        else if (op == 1) { int r = s.pop(); vp_assert(r == v[--n], 1); }
        else { int k = n >= 2 ? 2 : 1; int r = s.pop(k); n -= k; vp_assert(r == v[n], 2); }
        vp_assert((int)s.count == n && s.empty() == (n == 0), 3);
        if (n) { vp_assert(s.peek() == v[n - 1], 4); for (int k = 1; k <= n; ++k) { gal::detail::stack<int, 6> const& c = s; vp_assert(c.peek(k) == v[n - k] && c[n - k] == v[n - k] && s[n - k] == v[n - k], 5); } }
    }
}
'''
    out.append(Harness("stack", "bounded stack against a reference list", ["gal/stack.hpp"], code,
                       {1: "pop returns the last pushed", 2: "pop(n) returns the deepest removed", 3: "size", 4: "peek", 5: "indexing"}, "all sequences of 6 operations, any values"))
    code = r'''
template <typename T> struct dbl { auto operator()(std::decay_t<T> const& x) { return std::decay_t<T>(x + x); } };
extern "C" void H()
{
    int a = vp_int(0, -999, 999), b = vp_int(1, -999, 999), c = vp_int(2, -999, 999), d = vp_int(3, -999, 999);
    auto t = gal::make_tuple(a, (long)b, (short)c);
    vp_assert(t.size() == 3 && t.get<0>() == a && t.get<1>() == b && t.get<2>() == c && t.back() == c, 1);
    auto p = t.push(d); vp_assert(p.size() == 4 && p.get<0>() == d && p.get<1>() == a && p.get<2>() == b && p.get<3>() == c, 2);
    auto q = t.append(d); vp_assert(q.size() == 4 && q.get<0>() == a && q.get<1>() == b && q.get<2>() == c && q.get<3>() == d, 3);
    auto r = q.pop(); vp_assert(r.first == a && r.second.size() == 3 && r.second.get<0>() == b && r.second.get<1>() == c && r.second.get<2>() == d, 4);
    auto one = gal::make_tuple(a).pop(); vp_assert(one.first == a && one.second.size() == 0, 4);
    auto s0 = q.split<0>(); vp_assert(s0.first.size() == 0 && s0.second.size() == 4 && s0.second.get<0>() == a && s0.second.get<3>() == d, 5);
    auto s1 = q.split<1>(); vp_assert(s1.first.size() == 1 && s1.first.get<0>() == a && s1.second.get<0>() == b && s1.second.get<2>() == d, 5);
    auto s3 = q.split<3>(); vp_assert(s3.first.get<0>() == a && s3.first.get<2>() == c && s3.second.size() == 1 && s3.second.get<0>() == d, 5);
    auto s4 = q.split<4>(); vp_assert(s4.first.size() == 4 && s4.first.get<3>() == d && s4.second.size() == 0, 5);
    auto d0 = q.split_drop<0>(); vp_assert(d0.first.size() == 0 && d0.second.size() == 3 && d0.second.get<0>() == b && d0.second.get<2>() == d, 6);
    auto d2 = q.split_drop<2>(); vp_assert(d2.first.size() == 2 && d2.first.get<1>() == b && d2.second.size() == 1 && d2.second.get<0>() == d, 6);
    auto d3 = q.split_drop<3>(); vp_assert(d3.first.size() == 3 && d3.first.get<2>() == c && d3.second.size() == 0, 6);
    vp_assert(decltype(q)::find_t<long>() == 1 && decltype(q)::find_t<int>() == 0 && decltype(q)::find_t<short>() == 2, 7);
    auto st = q.split_at_type<long>(); vp_assert(st.first.size() == 1 && st.first.get<0>() == a && st.second.size() == 2 && st.second.get<0>() == c && st.second.get<1>() == d, 7);
    vp_assert(q.apply([](auto w, auto x, auto y, auto z) { return 1000 * (1000 * w + x) + 7 * y + z; }) == 1000 * (1000 * (long)a + b) + 7 * c + d, 8);
    vp_assert(q.apply_reverse([](auto w, auto x, auto y, auto z) { return 1000 * (1000 * (long)w + x) + 7 * y + z; }) == 1000 * (1000 * (long)d + c) + 7 * (long)b + a, 9);
    auto m = q; m.mutate<dbl>(); vp_assert(m.get<0>() == 2 * a && m.get<1>() == 2 * b && m.get<2>() == (short)(2 * c) && m.get<3>() == 2 * d, 10);
    m.set<1>(d); vp_assert(m.get<1>() == d && m.get<0>() == 2 * a, 11);
    m.back() = a; vp_assert(m.get<3>() == a && m.back() == a, 11);
    auto pr = gal::make_pair(a, (long)b); vp_assert(pr.first == a && pr.second == b, 12);
}
'''
    out.append(Harness("tuple", "heterogeneous tuple operations", ["gal/tuple.hpp"], code,
                       {1: "construction and access", 2: "push", 3: "append", 4: "pop", 5: "split", 6: "split_drop", 7: "type lookup", 8: "apply", 9: "apply_reverse", 10: "mutate", 11: "set", 12: "pair"},
                       "any member values, tuples of 1 to 4 members"))
    return out

MV_REF = r'''
using namespace gal;
static int vp_pop(unsigned x) { int c = 0; for (int i = 0; i != 8; ++i) c += (x >> i) & 1; return c; }
static int vp_inv(unsigned a, unsigned b) { int c = 0; for (int j = 0; j != DIM; ++j) if ((b >> j) & 1) c += vp_pop(a >> (j + 1)); return c & 1; }
static int vp_sq(unsigned a, unsigned b) { int s = 1; for (int j = 0; j != DIM; ++j) if ((a >> j) & (b >> j) & 1) s *= j < R ? 0 : (j < R + P ? 1 : -1); return s; }
struct poly { int c[8][5][5]; };             // coefficient of x^i y^j on every blade
struct mono { int q, i, j; unsigned e; };
static void add(poly& p, mono m) { p.c[m.e][m.i + OFF][m.j + OFF] += m.q; }
typedef mv<A, 2, 1, 1> m1;
static m1 make(mono m)
{
    m1 r{};
    width_t n = 0;
    if (m.i) r.inds[n++] = ind{3, rat{m.i, 1}};
    if (m.j) r.inds[n++] = ind{5, rat{m.j, 1}};
    r.size = mv_size{n, 1, 1};
    r.mons[0] = mon{rat{m.q, 1}, rat{m.i + m.j, 1}, n, 0};
    r.terms[0] = term{1, 0, m.e};
    return r;
}
// every monomial is non-zero and listed once, terms are listed once in increasing order, and the value is that of the reference
template <typename M> static void same(M const& m, poly const& p, int l, int div = 1)
{
    poly s{};
    width_t mons = 0;
    for (width_t t = 0; t != m.size.term; ++t)
    {
        vp_assert(t == 0 || m.terms[t - 1].element < m.terms[t].element, 90);
        vp_assert(m.terms[t].count > 0 && m.terms[t].mon_offset + m.terms[t].count <= m.size.mon, 91);
        mons += m.terms[t].count;
        bool seen[5][5] = {};
        for (width_t k = 0; k != m.terms[t].count; ++k)
        {
            auto const& o = m.mons[m.terms[t].mon_offset + k];
            int x[2] = {0, 0};
            vp_assert(o.ind_offset + o.count <= m.size.ind, 92);
            rat deg{0, 1};
            for (width_t z = 0; z != o.count; ++z)
            {
                auto const& n = m.inds[o.ind_offset + z];
                vp_assert((n.id == 3 || n.id == 5) && n.degree.den == 1 && n.degree.num != 0 && n.degree.num > -5 && n.degree.num < 5, 93);
                x[n.id == 5] += n.degree.num;
            }
            vp_assert(o.degree.den == 1 && o.degree.num == x[0] + x[1], 94);
            x[0] += OFF; x[1] += OFF;
            vp_assert(x[0] >= 0 && x[1] >= 0 && x[0] < 5 && x[1] < 5, 93);
            vp_assert(!seen[x[0]][x[1]], 95);
            seen[x[0]][x[1]] = true;
            vp_assert(o.q.num != 0, 96);
            s.c[m.terms[t].element][x[0]][x[1]] += o.q.num * (div / o.q.den);
        }
    }
    vp_assert(mons == m.size.mon, 91);
    bool eq = true;
    for (int e = 0; e != 1 << DIM; ++e) for (int i = 0; i != 5; ++i) for (int j = 0; j != 5; ++j) eq = eq & (s.c[e][i][j] == p.c[e][i][j]);
    vp_assert(eq, l);
}
static mono pick(int id, int ne, int const* es, int nx, int const (*xs)[2])
{
    int k = vp_choose(id, 0, ne * nx - 1);
    mono m{vp_int(id + 50, -QMAX, QMAX), xs[k % nx][0], xs[k % nx][1], (unsigned)es[k / nx]};
    vp_assume(m.q != 0);
    return m;
}
'''
MV_LABELS = {90: "terms in increasing order, once each", 91: "monomial ranges", 92: "indeterminate ranges", 93: "exponents", 94: "stored degree", 95: "monomials listed once", 96: "no zero monomial is kept"}

def mvs(m, parts=1):
    p, v, r = m
    dim = p + v + r
    out = []
    head = f"#define DIM {dim}\n#define P {p}\n#define R {r}\n#define QMAX 3\nusing A = gal::algebra<gal::metric<{p}, {v}, {r}>>;\n" + MV_REF
    def H(name, desc, body, labels, es, xs, bounds, off=0, **kw):
        L = dict(MV_LABELS); L.update(labels)
        code = f"#define OFF {off}\n" + head + f"static int const es[] = {{{', '.join(map(str, es))}}};\nstatic int const xs[][2] = {{{', '.join('{%d,%d}' % x for x in xs)}}};\n#define PICK(i) pick(i, {len(es)}, es, {len(xs)}, xs)\n" + 'extern "C" void H()\n{\n' + body + "\n}\n"
        out.append(Harness(f"mv_{name}_{p}{v}{r}", desc, ["gal/geometric_algebra.hpp"], code, L,
                           bounds + f"; coefficients symbolic, |q| <= 3; blades {es}; exponents of the two indeterminates {xs}; metric ({p},{v},{r})", max_paths=200000, budget=150, **kw))
    H("sum2", "sum and difference of two monomials", '''
    mono a = PICK(0), b = PICK(1);
    poly s{}; add(s, a); add(s, b); same(detail::sum(make(a), make(b)), s, 1);
    poly d{}; add(d, a); mono nb = b; nb.q = -b.q; add(d, nb); same(detail::sum(make(a), detail::negate(make(b))), d, 2);
''', {1: "sum", 2: "difference"}, [0, 1, 3], [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0)], "two monomials")
    H("sum3", "sum of three monomials, both associations", '''
    mono a = PICK(0), b = PICK(1), c = PICK(2);
    poly s{}; add(s, a); add(s, b); add(s, c);
    same(detail::sum(detail::sum(make(a), make(b)), make(c)), s, 1);
    same(detail::sum(make(c), detail::sum(make(b), make(a))), s, 2);
''', {1: "left association", 2: "right association"}, [0, 2], [(0, 0), (1, 0), (1, 1)], "three monomials")
    H("sum4", "sum of two two-monomial multivectors", '''
    mono a = PICK(0), b = PICK(1), c = PICK(2), d = PICK(3);
    poly s{}; add(s, a); add(s, b); add(s, c); add(s, d);
    same(detail::sum(detail::sum(make(a), make(b)), detail::sum(make(c), make(d))), s, 1);
''', {1: "sum"}, [1], [(1, 0), (0, 1), (2, 0), (1, 1)], "four monomials on one blade")
    H("sum4b", "sum of two two-term multivectors", '''
    mono a = PICK(0), b = PICK(1), c = PICK(2), d = PICK(3);
    poly s{}; add(s, a); add(s, b); add(s, c); add(s, d);
    same(detail::sum(detail::sum(make(a), make(b)), detail::sum(make(c), make(d))), s, 1);
''', {1: "sum"}, [0, 1, 2, 5], [(1, 0)], "four monomials on four blades")
    H("scale", "scaling, shifting by a constant, negation, reversal, complement, component and grade selection of a sum", f'''
    mono a = PICK(0), b = PICK(1);
    auto m = detail::sum(make(a), make(b));
    int k = vp_int(40, -QMAX, QMAX); vp_assume(k != 0);
    {{ poly s{{}}; mono x = a, y = b; x.q *= k; y.q *= k; add(s, x); add(s, y); same(detail::scale(rat{{k, 1}}, m), s, 1); }}
    {{ poly s{{}}; add(s, a); add(s, b); add(s, mono{{k, 0, 0, 0}}); same(detail::shift(rat{{k, 1}}, m), s, 2); }}
    {{ poly s{{}}; mono x = a, y = b; x.q = -x.q; y.q = -y.q; add(s, x); add(s, y); same(detail::negate(m), s, 3); }}
    {{ poly s{{}}; mono x = a, y = b; int g = vp_pop(a.e), h = vp_pop(b.e); if (g * (g - 1) / 2 % 2) x.q = -x.q; if (h * (h - 1) / 2 % 2) y.q = -y.q; add(s, x); add(s, y); same(detail::reverse(m), s, 4); }}
    {{ poly s{{}}; mono x = a, y = b; x.e = a.e ^ {(1 << dim) - 1}u; if (vp_inv(a.e, x.e)) x.q = -x.q; y.e = b.e ^ {(1 << dim) - 1}u; if (vp_inv(b.e, y.e)) y.q = -y.q; add(s, x); add(s, y); same(detail::poincare_dual(m), s, 5); }}
    {{ poly s{{}}; if (vp_pop(a.e) == 1) add(s, a); if (vp_pop(b.e) == 1) add(s, b); same(m.select_grade(1), s, 6); }}
    {{ poly s{{}}; mono x = a, y = b; x.e = y.e = 0; if (a.e == 3) add(s, x); if (b.e == 3) add(s, y); same(m[3], s, 7); }}
''', {1: "scale", 2: "shift", 3: "negate", 4: "reverse", 5: "complement", 6: "grade selection", 7: "component selection"}, [0, 1, 2, 3], [(0, 0), (1, 0), (1, 1)], "sums of two monomials")
    for nm, fn, cond in (("gp", "geometric", "true"), ("ep", "exterior", "(a & b) == 0"), ("lc", "contract", "vp_pop(a ^ b) == vp_pop(b) - vp_pop(a)"),
                         ("sip", "symmetric_inner", "a && b && vp_pop(a ^ b) == (vp_pop(a) < vp_pop(b) ? vp_pop(b) - vp_pop(a) : vp_pop(a) - vp_pop(b))")):
        H("prod_" + nm, f"{fn} product of two two-monomial multivectors", f'''
    mono m[4]; for (int i = 0; i != 4; ++i) m[i] = PICK(i);
    poly s{{}};
    for (int i = 0; i != 2; ++i) for (int j = 2; j != 4; ++j)
    {{
        unsigned a = m[i].e, b = m[j].e;
        int g = vp_sq(a, b) * (vp_inv(a, b) ? -1 : 1);
        if (!({cond})) g = 0;
        if (g) add(s, mono{{g * m[i].q * m[j].q, m[i].i + m[j].i, m[i].j + m[j].j, a ^ b}});
    }}
    auto l = detail::sum(make(m[0]), make(m[1]));
    auto r = detail::sum(make(m[2]), make(m[3]));
    same(detail::product(A::{fn}{{}}, l, r), s, 1);
''', {1: "product"}, ([1, 3] if r == 0 else [2, 6]) if nm == "gp" else [1, 2, 3] if nm != "ep" else [0, 1, 2], [(1, 0), (0, 1)] if nm == "gp" else [(1, 0)], "two times two monomials")
    H("prod3", "associativity of the geometric product on monomials", '''
    mono a = PICK(0), b = PICK(1), c = PICK(2);
    unsigned ab = a.e ^ b.e; int g = vp_sq(a.e, b.e) * (vp_inv(a.e, b.e) ? -1 : 1);
    int h = vp_sq(ab, c.e) * (vp_inv(ab, c.e) ? -1 : 1) * g;
    poly s{}; if (h) add(s, mono{h * a.q * b.q * c.q, a.i + b.i + c.i, a.j + b.j + c.j, ab ^ c.e});
    same(detail::product(A::geometric{}, detail::product(A::geometric{}, make(a), make(b)), make(c)), s, 1);
    same(detail::product(A::geometric{}, make(a), detail::product(A::geometric{}, make(b), make(c))), s, 2);
''', {1: "left association", 2: "right association"}, [0, 1, 2, 5], [(0, 1), (1, 0)], "three monomials")
    H("laurent", "products and sums of monomials with negative exponents", '''
    mono a = PICK(0), b = PICK(1);
    poly s{}; add(s, a); add(s, b); same(detail::sum(make(a), make(b)), s, 1);
    int g = vp_sq(a.e, b.e) * (vp_inv(a.e, b.e) ? -1 : 1);
    poly p{}; if (g) add(p, mono{g * a.q * b.q, a.i + b.i, a.j + b.j, a.e ^ b.e});
    same(detail::product(A::geometric{}, make(a), make(b)), p, 2);
''', {1: "sum", 2: "product"}, [0, 1, 6], [(-1, 0), (0, 0), (1, 0), (-1, 1), (1, -1), (0, -1)], "two monomials", off=2)
    H("divide", "division by a constant or by an indeterminate", '''
    mono a = PICK(0), b = PICK(1);
    auto m = detail::sum(make(a), make(b));
    typedef mv<A, 1, 1, 1> one_ind;
    typedef mv<A, 0, 1, 1> constant;
    int k = 1, n = 1;
    { poly s{}; mono x = a, y = b; x.q *= n * (6 / k); y.q *= n * (6 / k); add(s, x); add(s, y);
      same(detail::divide(m, constant{mv_size{0, 1, 1}, {}, {mon{rat{k, 1}, rat{0, 1}, 0, 0}}, {term{1, 0, 0}}}, rat{n, 1}), s, 1, 6); }
    for (int v = 0; v != 2; ++v)
    { poly s{}; mono x = a, y = b; x.q *= n * (6 / k); y.q *= n * (6 / k); (v ? x.j : x.i) -= 1; (v ? y.j : y.i) -= 1; add(s, x); add(s, y);
      one_ind d{mv_size{1, 1, 1}, {ind{v ? 5u : 3u, rat{1, 1}}}, {mon{rat{k, 1}, rat{1, 1}, 1, 0}}, {term{1, 0, 0}}};
      same(detail::divide(m, d, rat{n, 1}), s, 2 + v, 6); }
''', {1: "by a constant", 2: "by the first indeterminate", 3: "by the second indeterminate"}, [3], [(0, 0), (1, 0), (0, 1), (1, 1)], "sums of two monomials divided by a constant or an indeterminate (other scales: client programs)", off=2)
    return out

UID = r'''
#include <new>
using pd::detail::unique_id;
struct box { alignas(unique_id) unsigned char b[sizeof(unique_id)]; bool live = false; unique_id& get() { return *reinterpret_cast<unique_id*>(b); } };
'''
def ids_step(nlive, nfree):
    """one operation from any consistent state: nlive objects holding any distinct ids, nfree ids waiting for reuse"""
    code = UID + f'''
extern "C" void H()
{{
    constexpr int L = {nlive}, F = {nfree};
    unsigned n0 = vp_int(0, 1, 1 << 29);
    unsigned known[L + F + 1] = {{}};
    for (int i = 0; i != L + F; ++i)
    {{
        known[i] = vp_int(1 + i, i < L ? 0 : 1, 1 << 29); // an object may hold nothing
        vp_assume(known[i] < n0);
        for (int j = 0; j != i; ++j) vp_assume(known[i] == 0 || known[i] != known[j]);
    }}
    box s[L + 1];
    for (int i = 0; i != L; ++i) {{ new (s[i].b) unique_id{{}}; s[i].live = true; s[i].get().id = known[i]; s[i].get().hash = known[i]; }}
    next = n0;
    free_ids.clear();
    for (int i = 0; i != F; ++i) free_ids.push_back(known[L + i]);
    int op = vp_choose(40, 0, 5), a = vp_choose(41, 0, L - 1), b = vp_choose(42, 0, L - 1);
    unsigned was = s[a].get().id, other = s[b].get().id;
    if (op == 0) {{ new (s[L].b) unique_id{{}}; s[L].live = true; vp_assert(s[L].get().id != 0, 1); }}
    else if (op == 1) {{ new (s[L].b) unique_id{{std::move(s[a].get())}}; s[L].live = true; vp_assert(s[L].get().id == was && s[a].get().id == 0, 2); }}
    else if (op == 2) {{ s[a].get() = std::move(s[b].get()); vp_assert(s[a].get().id == other, 3); }}
    else if (op == 3) {{ s[a].get().reset(); vp_assert(s[a].get().id != 0 && s[a].get().id != was, 4); }}
    else if (op == 4) {{ s[a].get().release(); vp_assert(s[a].get().id == 0, 5); }}
    else {{ s[a].get().~unique_id(); s[a].live = false; }}
    // everything held is distinct, in range and not up for reuse; nothing is lost
    unsigned held = 0;
    bool ok = true, distinct = true, hashed = true;
    for (int i = 0; i <= L; ++i)
    {{
        if (!s[i].live) continue;
        unsigned v = s[i].get().id;
        if (v == 0) continue;
        ++held;
        ok = ok & (v < next);
        hashed = hashed & (s[i].get().hash == std::hash<unsigned>{{}}(v));
        for (int j = 0; j < i; ++j) if (s[j].live) distinct = distinct & (v != s[j].get().id);
        for (unsigned f : free_ids) distinct = distinct & (v != f);
    }}
    for (unsigned k = 0; k != free_ids.size(); ++k)
    {{
        ok = ok & (free_ids[k] != 0) & (free_ids[k] < next);
        for (unsigned j = 0; j != k; ++j) distinct = distinct & (free_ids[k] != free_ids[j]);
    }}
    vp_assert(distinct, 6);
    vp_assert(ok, 7);
    vp_assert(hashed, 8);
    unsigned before = F;
    for (int i = 0; i != L; ++i) before += known[i] != 0;
    vp_assert(next - n0 == held + (unsigned)free_ids.size() - before, 9);
}}
'''
    return Harness(f"ids_{nlive}_{nfree}", f"one operation on identifiers from any state with {nlive} objects and {nfree} ids waiting for reuse", ["src/uid.cpp", "utility"], code,
                   {1: "a new object holds an id", 2: "moving construction passes the id on", 3: "moving assignment passes the id on", 4: "reset gives a different id", 5: "release gives the id up",
                    6: "no id is held twice or handed out while held", 7: "ids are in range", 8: "the hash is that of the id", 9: "no id is lost"},
                   "any distinct ids below 2^29", max_paths=100000)

def ids_history(slots, steps):
    """any history of operations from the start, judged through the interface alone"""
    code = UID + f'''
extern "C" void H()
{{
    box s[{slots}];
    unsigned top = 0, most = 0;
    for (int t = 0; t != {steps}; ++t)
    {{
        int op = vp_int(3 * t, 0, 5), a = vp_int(3 * t + 1, 0, {slots - 1}), b = vp_int(3 * t + 2, 0, {slots - 1});
        for (int i = 0; i != {slots}; ++i) if (a == i) {{ a = i; break; }}
        for (int i = 0; i != {slots}; ++i) if (b == i) {{ b = i; break; }}
        if (op == 0) {{ vp_assume(!s[a].live && b == 0); new (s[a].b) unique_id{{}}; s[a].live = true; vp_assert(s[a].get().id != 0, 1); }}
        else if (op == 1) {{ vp_assume(!s[a].live && s[b].live); unsigned w = s[b].get().id; new (s[a].b) unique_id{{std::move(s[b].get())}}; s[a].live = true; vp_assert(s[a].get().id == w && s[b].get().id == 0, 2); }}
        else if (op == 2) {{ vp_assume(s[a].live && s[b].live); unsigned w = s[b].get().id; s[a].get() = std::move(s[b].get()); vp_assert(s[a].get().id == w, 3); }}
        else if (op == 3) {{ vp_assume(s[a].live && b == 0); unsigned w = s[a].get().id; s[a].get().reset(); vp_assert(s[a].get().id != 0 && s[a].get().id != w, 4); }}
        else if (op == 4) {{ vp_assume(s[a].live && b == 0); s[a].get().release(); vp_assert(s[a].get().id == 0, 5); }}
        else {{ vp_assume(s[a].live && b == 0); s[a].get().~unique_id(); s[a].live = false; }}
        unsigned held = 0;
        for (int i = 0; i != {slots}; ++i)
        {{
            if (!s[i].live || s[i].get().id == 0) continue;
            ++held;
            top = s[i].get().id > top ? s[i].get().id : top;
            vp_assert(s[i].get().hash == std::hash<unsigned>{{}}(s[i].get().id), 8);
            for (int j = 0; j < i; ++j) vp_assert(!s[j].live || s[j].get().id != s[i].get().id, 6);
        }}
        most = held + (op == 3) > most ? held + (op == 3) : most;
        vp_assert(top <= most + 1, 9);
    }}
}}
'''
    return Harness(f"ids_run_{slots}_{steps}", f"any history of {steps} operations on {slots} identifier objects", ["src/uid.cpp", "utility"], code,
                   {1: "a new object holds an id", 2: "moving construction passes the id on", 3: "moving assignment passes the id on", 4: "reset gives a different id", 5: "release gives the id up",
                    6: "no id is held twice", 8: "the hash is that of the id", 9: "released ids are used again"},
                   f"{steps} operations", max_paths=200000, fork=True, budget=200)
