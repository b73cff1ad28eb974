"""What each check encodes and the bounds within which its verdict holds (reported in the evidence)."""
PIPE = "compute / engine evaluation of the client program: input binding, expression interning, common-subexpression extraction, multivector construction and code emission, as instantiated by clang from /repo/public/gal at the time of the run"
VAL = "every real value of every input component (the solver quantifies over them; floating-point rounding is abstracted to real arithmetic)"
OUT_V = "floating-point rounding, overflow and NaN; client programs outside the listed families; compilers other than clang 18 (encoding) and g++ 13 (replay)"
ASSUME = [
    "floating-point operations are modelled as exact real arithmetic; a floating-point literal of the emitted code is read back as the simplest fraction within two units in the last place, or as such a multiple of powers of pi and e; in double-precision programs a conversion to single precision is an unknown relative error",
    "sqrt, sin, cos, tan are modelled by their defining identities (sqrt(x)^2 = x, sqrt(x) >= 0, sin^2+cos^2 = 1, tan*cos = sin, parity) and are otherwise uninterpreted",
    "clang 18 translates the header-only library to LLVM IR faithfully; the encoding is the IR at -O2 without vectorisation",
    "the geometric algebra oracle (gv/ga.py: metric, reordering signs, grade projections) is written independently of the library",
]
def I(functions, bounds, outside=OUT_V):
    return {"functions": functions, "bounds": bounds, "outside": outside}
INFO = {
 "C01": I(["algebra<metric>::geometric/exterior/contract/symmetric_inner product of basis blades", "poincare complement", PIPE],
          ["blade pairs: both blades symbolic over all bit patterns, for each listed metric of dimension 1..6", "client programs: products of general multivectors (all 2^n components symbolic) and of pure-grade multivectors, in the five models and in further signatures declared by the client", VAL]),
 "C02": I(["rat +,-,*,/,==,!=,negation, gcd reduction and the range gate", "scalar scaling and division of expressions", PIPE],
          ["symbolic numerators within +-1000 and denominators 1..31 (thorough: 4000/15, 60/100)", "client programs with up to five fraction factors and chains of scalings and shifts; exact below denominator 1024, absolute error 1e-6 on inputs in [-1,1] beyond", VAL]),
 "C03": I(["detail::sum, product, negate, scale, shift, divide, reverse, dual, component and grade extraction on compile-time multivectors", PIPE],
          ["symbolic multivectors of up to 2 terms x 2 monomials x 2 indeterminates per operand with symbolic coefficients", "client programs: seeded polynomials up to degree 6 in up to 4 unknowns and products of up to 4 vectors", VAL]),
 "C04": I(["operator+, -, unary -, integer scaling and shifting of expressions and their merging rules", PIPE], ["all pairs of 16 scaled/shifted forms, all pairs of 20 sums, look-alike summands, seeded random sums up to depth 5, five algebras", VAL]),
 "C05": I(["subexpression hashing, equality, extraction and temporaries", PIPE], ["19 subexpressions x near-misses x 6 contexts, quotients and functions of repeated scalars, look-alike subexpressions in a dozen contexts, seeded random programs to depth 4 and about 1000 seeded expression graphs of 4..14 shared nodes in five algebras", VAL]),
 "C06": I([PIPE], ["every operation on every pair of entity types of vga/pga/pga2, every operation composed with every operation in both associations on operands of mixed grade, seeded random programs to depth 3, about 500 seeded expression graphs", VAL]),
 "C07": I(["null-basis conversion (to_null_basis / to_natural_basis)", PIPE], ["every operation on conformal points, vectors, bivectors and general multivectors in 2D and 3D; every component selection; every named constant; seeded programs and expression graphs", VAL]),
 "C08": I(["term merging and removal of zero monomials and terms", PIPE], ["results are compared component by component and every component listed in the result type must be non-zero for some input; expressions whose cancellation needs a repeated subexpression expanded are checked for value only", VAL]),
 "C09": I(["entity constructors, conversions from computed results, select, indexing, accessors of vga, pga, pga2, cga, cga2 types"], ["every entity type of every model, general-multivector sources and sources with missing components", VAL]),
 "C10": I(["entity encodings together with compute"], ["joins, meets, incidence, distances, rotations, translations, reflections, projections, screw motions, circles and spheres against coordinate geometry", VAL + "; rotation angles enter as symbolic (cos, sin) pairs with cos^2+sin^2 = 1"]),
 "C11": I(["normalize() of vector, point, rotor, line, plane, motor"], [VAL + " with non-zero norm"], OUT_V + "; zero-norm inputs"),
 "C12": I(["closed-form exponential of a bivector, logarithm of a motor, rotor and translator construction"], [VAL + " with non-zero rotational part for exp/log of general motors"], OUT_V + "; purely ideal bivectors"),
 "C13": I(["sqrt/sin/cos/tan nodes, quotients, PI and E", PIPE], ["17 scalar arguments x 4 functions x 7 contexts, quotients, constants in products, seeded expression graphs", VAL + " in the domain of the functions and with non-zero divisors"]),
 "C14": I(["tuple results", PIPE], ["2..7 results per call, shared subexpressions, zero members, both tuple spellings, seeded expression graphs", VAL]),
 "C15": I(["pop_count, leading/trailing zero counts, parity helpers, sort, crc, fixed-capacity tuple/stack containers, element enumeration of an algebra"], ["32-bit symbolic words, sorting of symbolic arrays up to 6 elements (thorough 7) and partially symbolic ones up to 9 (thorough 10), both forms of sort, container operations up to the capacities named per obligation"], "larger arrays; concurrency (none in the library)"),
 "C16": I(["size estimation and capacity of intermediate expressions", PIPE], ["up to 12 inputs, chains of up to 14 operations, up to 16 repeated subexpressions, up to 10 results", VAL]),
 "C17": I(["user-defined literals of the five models", PIPE], ["every literal, every pair of literals under products, seeded expression graphs", VAL]),
 "C18": I(["input binding (indeterminate numbering, plain floating-point inputs, single precision)", PIPE], ["every pair and a third of all triples of input kinds in double and float; up to 6 inputs, unused and repeated inputs", VAL]),
 "C19": I(["entity<A, T, E...>::ie, element order of computed results", PIPE], ["25 first-stage expressions x 10 continuations in five algebras, pairs and tuples of them, conversion to named entities between stages, about 700 seeded expression graphs cut at 1..3 inner nodes, double and float", VAL]),
 "C20": I(["to_string(entity<A, T, E...>) of format.hpp"], ["entities of every single element, of structured and seeded element sets, computed results and the zero entity in the five models, double and float", VAL, "std::stringstream is replaced by a recording stream (a number stands for the characters the standard library prints for it); the replay uses the real one"], OUT_V + "; how the standard library prints a number"),
 "C21": I(["pd::detail::unique_id constructors, move operations, reset, release, destructor (samples/pudding/src/uid.cpp)"], ["any operation from any consistent state of 1..3 objects and 0..3 ids waiting for reuse, ids any distinct numbers below 2^29 (32-bit bit-vectors)", "histories from the start: 3 operations on 2 or 3 objects (thorough: 4 on 2)"], "exhaustion of the 2^32 ids; concurrent use (the pool is not synchronised); the rest of the sample (needs Vulkan, SDL and fmt, which are not installed)"),
}
# shares of the other properties' client programs that a check also runs (every n-th program)
CROSS = {"C06": (3, "C02 C03 C04 C05 C07 C13 C14 C16 C17 C18 C19"), "C05": (4, "C06 C13 C14 C16 C19"), "C16": (4, "C03 C05 C06 C13 C14"), "C03": (4, "C02 C04 C16 C06"), "C13": (5, "C05 C16"), "C14": (5, "C05 C16 C18 C13"), "C18": (6, "C04 C06 C16 C14"), "C02": (4, "C04 C03"), "C04": (5, "C17 C02 C18")}
for _k, (_n, _o) in CROSS.items():
    INFO[_k]["bounds"].append(f"additionally every {_n}th client program of " + ", ".join(_o.split()))
