"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "public/gal/"
IN = ["inputs", "programs"]
TV = "SMT (z3/cvc5) over symbolic execution of the LLVM IR clang emits for client programs against /repo"
def P(id, title, statement, over, qt, why, files, mech, observe=("value and type of the entity returned by compute",)):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
            "anchors": {"files": [(G + f).replace(G + "../../", "") for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}}
PROPS = [
P("C01", "Products and duals agree with the Clifford algebra of the metric",
  "For every algebra signature and every pair of multivectors, the geometric, exterior, contraction, symmetric inner, scalar and regressive products, the sandwich, the reverse and the dual give exactly the value the Clifford algebra of that metric defines: right basis element, right sign, null generators squaring to zero. The same holds blade by blade, for every pair of basis blades.",
  ["inputs", "configurations"], "all basis-blade pairs of each signature up to dimension 6; all real component values of general multivectors in the five shipped models",
  "tests check a few dozen hand-picked blade pairs per model with fixed numbers; there are 4^n pairs per product and signature and infinitely many component values",
  ["algebra.hpp", "geometric_algebra.hpp", "engine.hpp", "vga.hpp", "pga.hpp", "pga2.hpp", "cga.hpp", "cga2.hpp", "algorithm.hpp"],
  [("blade products", G + "geometric_algebra.hpp: algebra<>::geometric/exterior/contract/symmetric_inner"), ("multivector product", G + "algebra.hpp: detail::product"), ("reverse and dual", G + "algebra.hpp: detail::reverse, detail::poincare_dual")]),
P("C02", "Rational coefficients are exact",
  "Integer and fractional coefficients written in an expression are combined exactly, in lowest terms and with the right sign, through any sequence of additions, products, divisions and comparisons of fractions. Only when numerator or denominator leave the representable range may a coefficient be approximated, and then to within single-precision accuracy; a coefficient that cannot be represented at all is rejected by the compiler, never silently wrong.",
  IN, "all pairs of symbolic fractions within the stated magnitude; all real input values for programs mixing up to five fractional factors",
  "tests use a handful of small fractions; sign, reduction, equality and range handling depend on the pair of fractions",
  ["numeric.hpp", "algebra.hpp", "expr.hpp"],
  [("fraction arithmetic", G + "numeric.hpp: rat, overflow_gate, gcd"), ("scaling of expressions", G + "expr.hpp: operator*, operator/ with integers")]),
P("C03", "Symbolic multivector arithmetic is polynomial arithmetic",
  "Adding, multiplying, negating, scaling, shifting, dividing, reversing, dualising and selecting parts of symbolic multivectors gives the multivector whose every component is the polynomial that ordinary algebra gives. No monomial is lost, duplicated or attached to the wrong component, whatever the order, degree or repetition of the unknowns.",
  IN, "all symbolic multivectors within the stated shape bounds with symbolic coefficients; all real inputs of polynomial client programs",
  "tests compare a few fixed multivectors; merging depends on the relative order and equality of monomials and terms, which has combinatorially many cases",
  ["algebra.hpp", "algorithm.hpp"],
  [("sum", G + "algebra.hpp: detail::sum"), ("product", G + "algebra.hpp: detail::product"), ("collation", G + "algebra.hpp: term/monomial sorting and merging")]),
P("C04", "Linear expressions evaluate to the written linear combination",
  "An expression built from inputs, integers and constants with addition, subtraction, negation, and integer scaling or division evaluates to exactly that linear combination, however it is parenthesised, ordered or scaled, and whichever summands repeat or cancel.",
  IN, "all real inputs for all pairs of scaled/shifted operands, pairs of sums, and random nestings to depth 4, in all five models",
  "tests hold one or two sums per model; simplification rules act on pairs of nested forms",
  ["expr.hpp", "engine.hpp"],
  [("sum simplification", G + "expr.hpp: operator+, operator-, sum merging"), ("scale factors", G + "expr.hpp: node scale q")]),
P("C05", "Sharing repeated subexpressions never changes a value",
  "Evaluating an expression in which subexpressions repeat, nest in one another or differ only slightly (operand order, scale, sign, selected grade) gives the same result as evaluating every occurrence separately.",
  IN, "all real inputs for every repeated/near-miss subexpression pair in every context listed, plus random programs to depth 4",
  "tests contain two or three repeated subexpressions; the bug surface is hash/equality confusion and temporaries reused in the wrong place",
  ["dfa.hpp", "expr.hpp", "engine.hpp", "crc.hpp"],
  [("subexpression identity", G + "expr.hpp: checksum, node equality; dfa.hpp: compare_se"), ("extraction to temporaries", G + "dfa.hpp: common subexpression discovery, replacement and evaluation")]),
P("C06", "Any composition of operations evaluates to the mathematical value",
  "In the vector-space and projective models (2D and 3D), every well-formed composition of the documented operators over every entity type evaluates to the value the algebra assigns to the expression as written, including operator precedence, argument order, component and grade selection and mixing with integers.",
  IN, "all real inputs; every operator on every pair of entity types, every operator composed with every other, random programs to depth 3 and beyond",
  "tests exercise single operators on one entity pair; the number of compositions is unbounded",
  ["expr.hpp", "engine.hpp", "algebra.hpp", "vga.hpp", "pga.hpp", "pga2.hpp"],
  [("expression building", G + "expr.hpp"), ("evaluation", G + "engine.hpp: compute"), ("entity layouts", G + "vga.hpp, pga.hpp, pga2.hpp: ie()")]),
P("C07", "Conformal computations are consistent in the null basis",
  "In the 2D and 3D conformal models inputs, named constants, component selections and results all refer to the null basis (origin and infinity), and every expression evaluates to the value defined by origin and infinity squaring to zero with inner product minus one, irrespective of the basis used internally.",
  IN, "all real inputs of conformal programs: every operator on points, vectors, bivectors and general multivectors, every selection, every constant",
  "tests check a few conformal products; the change of basis touches every input, constant, temporary and output",
  ["cga.hpp", "cga2.hpp", "null_algebra.hpp", "engine.hpp", "algebra.hpp"],
  [("basis change", G + "cga.hpp / null-basis conversion to and from the natural basis"), ("evaluation", G + "engine.hpp: compute")]),
P("C08", "Results contain exactly the components that can be non-zero",
  "Terms that cancel identically disappear before any code is generated: the returned entity has no component that is zero for every input, and an expression that is identically zero yields an empty result. No component that is non-zero for some input is ever dropped. (Cancellations that are visible only after expanding a repeated subexpression are excepted from the first part.)",
  IN, "all real inputs; products, squares, differences and polynomial identities in all five models",
  "tests check a few result types; which monomials cancel depends on the full expansion",
  ["algebra.hpp", "engine.hpp", "expr.hpp"],
  [("cancellation", G + "algebra.hpp: detail::sum, detail::product drop zero coefficients"), ("result type", G + "engine.hpp: result entity from non-zero terms")],
  ("component list of the returned entity type", "value of each component")),
P("C09", "Entity construction, conversion and selection preserve components",
  "Constructing an entity, converting a computed result to a named entity, and selecting or indexing components puts every coordinate in, and reads it back from, the component it names, with components missing from the source read as zero and homogeneous weights divided out where the type says so.",
  IN, "all real component values for every entity type, accessor and source shape",
  "tests convert a few results with fixed numbers and do not cover every field of every type",
  ["entity.hpp", "vga.hpp", "pga.hpp", "pga2.hpp", "cga.hpp", "cga2.hpp"],
  [("entity", G + "entity.hpp: constructors, select, operator[]"), ("named entities", G + "pga.hpp, vga.hpp, pga2.hpp, cga.hpp, cga2.hpp")],
  ("fields and components of the constructed entities",)),
P("C10", "Geometric operations mean what Euclidean geometry says",
  "With the documented encodings, joining and meeting points, lines and planes, testing incidence, measuring, and applying rotors, translators and motors give the point, line, plane or value that coordinate geometry gives for the same objects, in 2D and 3D, projective and conformal.",
  IN, "all real coordinates, directions and rotation angles (as cosine/sine pairs)",
  "tests check a few axis-aligned configurations",
  ["pga.hpp", "pga2.hpp", "vga.hpp", "cga.hpp", "cga2.hpp"],
  [("encodings", G + "pga.hpp: plane, point, line, rotor, translator, motor"), ("conformal points", G + "cga.hpp, cga2.hpp: point")]),
P("C11", "Normalization yields unit norm and preserves the object",
  "Normalizing any entity that offers it, with non-zero norm, gives an entity of unit norm that is a positive multiple of the original (for motors: the same motion), changing nothing else.",
  ["inputs"], "all real components with non-zero norm", "tests normalize one or two fixed values per type",
  ["vga.hpp", "pga.hpp", "pga2.hpp"], [("normalize", G + "vga.hpp, pga.hpp, pga2.hpp: normalize()")], ("components after normalize",)),
P("C12", "Exponential and logarithm of bivectors and motors are inverse",
  "The exponential of a bivector is the rotor or motor of its series, rotors and translators built from axis, angle and displacement are those exponentials, and the logarithm of a normalized motor with a rotational part exponentiates back to that motor.",
  ["inputs"], "all real bivectors/motors with non-zero rotational part, as symbolic components with the unit-norm constraint", "tests exponentiate a handful of fixed bivectors",
  ["pga.hpp", "vga.hpp", "expr.hpp"], [("motor logarithm", G + "pga.hpp: motor::bivector, log"), ("exponential", G + "pga.hpp / expression exp"), ("rotor, translator constructors", G + "vga.hpp, pga.hpp")], ("components of the returned entities",)),
P("C13", "Scalar functions, pi, e and quotients take the written argument",
  "Square roots, trigonometric functions, the constants pi and e, and quotients by integers or scalar expressions apply to exactly the argument written, with its scale, sign and offset, and may be combined with any other operation.",
  IN, "all real inputs in the functions' domains and with non-zero divisors, for every function, argument form and context listed",
  "tests evaluate each function once or twice at fixed inputs",
  ["expr.hpp", "engine.hpp", "algebra.hpp"],
  [("function nodes", G + "expr.hpp: sqrt, sin, cos, tan, division"), ("evaluation of extracted arguments", G + "engine.hpp")]),
P("C14", "Several results from one call equal the separate results",
  "A computation returning several values at once returns, in order, one result per value, each equal to what computing it alone would return, whatever they share and whether or not some are constant or identically zero.",
  IN, "all real inputs; tuples of two to seven values in all models", "tests return two or three simple values",
  ["engine.hpp", "expr.hpp", "tuple.hpp"], [("multiple results", G + "engine.hpp: compute returning tuples")]),
P("C15", "Compile-time utilities are correct for every argument",
  "Bit counting and parity, sorting, checksums, fixed-capacity containers and the enumeration of an algebra's elements return their specified result for every argument within capacity, without reading or writing out of bounds.",
  ["inputs"], "all 32-bit words, all arrays up to the stated length, all container operations within capacity", "tests hold a few literal cases; most utilities have none",
  ["algorithm.hpp", "crc.hpp", "tuple.hpp", "numeric.hpp", "geometric_algebra.hpp", "stack.hpp", "null_algebra.hpp"],
  [("bit utilities and sort", G + "algorithm.hpp, numeric.hpp"), ("checksum", G + "crc.hpp"), ("containers", G + "tuple.hpp, stack")], ("return values",)),
P("C16", "Expression size never changes the meaning",
  "The number of inputs, of operations, of repeated subexpressions, of factors or of results in a computation, and the depth of nesting, has no influence on correctness: long and deep expressions compile and evaluate to the same value as mathematically equal short ones.",
  IN, "all real inputs for chains, towers and wide sums up to the stated sizes", "tests use one to three inputs and shallow expressions",
  ["expr.hpp", "dfa.hpp", "engine.hpp", "algebra.hpp"], [("capacity computation", G + "engine.hpp, algebra.hpp: size bounds of intermediate multivectors"), ("expression storage", G + "expr.hpp")]),
P("C17", "Named constants and literals denote their basis element",
  "Every literal and named constant of every model denotes the stated multiple of the basis element (or oriented pseudoscalar) its name says, wherever it stands in an expression and whatever it is combined with.",
  IN, "every literal, every pair of literals, all real inputs they are combined with", "tests use two or three literals",
  ["vga.hpp", "pga.hpp", "pga2.hpp", "cga.hpp", "cga2.hpp", "expr.hpp"], [("literals", G + "*.hpp: operator\"\" definitions and constants")]),
P("C18", "Every argument reaches the expression in its own position",
  "Each argument passed to a computation - entity, scalar or plain number, of single or double precision, used once, repeatedly or not at all, in any position and mix - supplies exactly its own components to the corresponding parameter of the expression.",
  IN, "all real component values; every pair and many triples of argument kinds in both precisions", "tests pass one to three entities, mostly of the same kind",
  ["engine.hpp", "entity.hpp", "vga.hpp", "pga.hpp"], [("input binding", G + "engine.hpp: indeterminate numbering and evaluation lookup")]),
P("C19", "A computed result can be an argument of the next computation",
  "Handing the result of a computation - of whatever type it has, whether a full, sparse, scalar, constant or zero multivector, one of several results, or converted to a named entity that holds all its components - to a further computation means the same as writing its expression there: computing in stages gives the value that computing at once gives, and an argument a computation does not use has no influence.",
  IN, "all real inputs for every listed way of cutting an expression into stages", "tests compute in one stage, or pass on a result whose type is a named entity",
  ["entity.hpp", "engine.hpp", "expr.hpp", "algebra.hpp", "null_algebra.hpp"], [("result type and its indeterminate form", G + "entity.hpp: entity<>::ie, engine.hpp: finalize_entity"), ("binding of results as inputs", G + "engine.hpp: rpn_inputs, fill")]),
P("C20", "The text form of a multivector names every component",
  "The text form of any entity lists its stored components in order, joined by ' + ': each is the component's value followed, unless it is the scalar, by 'e' and the indices of its generators in ascending order; the zero entity reads 0.",
  IN, "all component values of the listed element sets", "no test checks the text of an entity",
  ["format.hpp", "entity.hpp"], [("text output", G + "format.hpp: to_string")], ("return value of to_string",)),
P("C21", "Identifiers of the sample framework are never shared",
  "An identifier object of the rendering sample (pd::detail::unique_id) holds either no id (0) or an id no other live object holds. This is true after any sequence of constructions, move constructions, move assignments, resets, releases and destructions: moving passes the id on, reset gives a different id, a released id is handed out again at most to one object and no id is lost.",
  ["histories"], "all single operations from every consistent state of up to three objects and three ids waiting for reuse, with any distinct ids; all histories from the start within the stated length",
  "the test suite does not build the sample; uniqueness depends on the history of operations",
  ["../../samples/pudding/src/uid.cpp", "../../samples/pudding/public/pudding/detail/uid.hpp"], [("identifier pool", "samples/pudding/src/uid.cpp: next, free_ids, unique_id")], ("id and hash members of unique_id objects",)),
]
NA = json.load(open(os.path.join(ROOT, "tools", "na.json"))) if os.path.exists(os.path.join(ROOT, "tools", "na.json")) else []
def main():
    sys.path.insert(0, ROOT)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS + [x["property"] for x in NA]:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        i = p["id"]
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"python3-vt check.py {i} --thorough", "evidence_file": f"evidence/{i}.json",
          "technique": "solver-based checking: symbolic execution of clang's LLVM IR of the real headers, z3/cvc5 verdict against an independent oracle, g++ replay of counterexamples",
          "level": "model_checking" if i in ("C15", "C21") else "translation_validation",
          "level_note": "Bounded symbolic execution of the functions themselves: every path and assertion is decided by the solver for all bit-vector values within the bounds reported in the evidence. Trusts clang's IR, the symbolic executor and z3/cvc5. An undecided obligation is reported in the evidence and is not counted as holding." if i in ("C15", "C21") else "Each client program (and internal obligation) is decided by the solver for all input values within the bounds reported in the evidence; the family of programs is finite. Trusts clang's IR, the symbolic executor, z3/cvc5 and the oracle; floating point is modelled as exact real arithmetic. An undecided obligation is reported in the evidence and is not counted as holding."})
    json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5' && python3-vt -m compileall -q gv check.py && mkdir -p evidence", "checks": checks,
               "not_applicable": [{"property": x["property"]["id"], "reason": x["reason"]} for x in NA],
               "notes": "No hooks are needed in /repo; the checks instantiate the header-only library directly."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
