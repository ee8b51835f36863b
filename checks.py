"""One entry per property: the harness units to build (source, flags, compiler) per tier, the
number of generated cases per executable property, and the counting rule for the evidence."""


def parts(src, n, *flags, cc=None):
    return [(src, [f"-DPART={i}", *flags], cc) for i in range(n)]


CHECKS = {
    "C03": dict(
        units=lambda tier: parts("c03.cpp", 7, "-DNVAR=%d" % (3 if tier == "thorough" else 2)),
        cases={"quick": 100000, "thorough": 2000000},
        rule="A case draws operand types, sizes 1-4, an operator, an operand form (vector/scalar/one-component on either side), storage kinds and component values "
             "(small, boundary, arbitrary bit patterns, infinities, NaN); it is non-trivial when each multi-component operand has pairwise different components."),
}
NV = lambda tier: "-DNVAR=%d" % (6 if tier == "thorough" else 3)
CHECKS["C10"] = dict(
    units=lambda tier: parts("c10.cpp", 4, NV(tier)), cases={"quick": 400000, "thorough": 3000000},
    rule="A case draws a function and overload form, element type, size 1-4, storage kinds and arguments (small, halves and their neighbours, boundaries, arbitrary finite bit patterns, "
         "infinities where meaningful); non-trivial when the components that matter differ from each other (or, for the others, always).")
CHECKS["C01"] = dict(
    units=lambda tier: parts("c01.cpp", 8), cases={"quick": 40000, "thorough": 1500000},
    rule="A case draws an element type, a base length, one of all 494 swizzle names, a container (vector, mutable, read-only or owning view) and pairwise different element values, reads the swizzle through "
         "several interfaces, changes elements underneath and reads again; run-time swizzles draw every index tuple and several index types. Non-trivial unless the swizzle is the identity.")
CHECKS["C02"] = dict(
    units=lambda tier: parts("c02.cpp", 7), cases={"quick": 60000, "thorough": 2000000},
    rule="A case draws a container (vector between guard words, view into a guarded array, owning view), one of the 84 assignable swizzle names, a right-hand side (vector, other element type, a permuted, repeating or "
         "arbitrary swizzle of the same data, a view of the same data, scalar, owning view, temporary view) with = or a compound operator, and values; non-trivial when the assignment changes an element. Which names are not assignable is evaluated for all names.")
CHECKS["C04"] = dict(
    technique="stateful property-based testing: random histories of updates over vectors, swizzles and views against an array model, compared after every step, with shrinking",
    units=lambda tier: parts("c04.cpp", 7), cases={"quick": 150000, "thorough": 4000000},
    rule="A case is a history of 1 to 24 steps over a world of vectors, overlapping views, owning views and a guarded external array; each step draws one of about 1400 (operation, target kind, length, source kind) "
         "combinations, most of them with sources in the target's own data, and values. The whole world is compared with the model after each step. Non-trivial: at least two steps were defined and executed.")
CHECKS["C05"] = dict(
    technique="stateful property-based testing: random histories over overlapping views, owning views and the memory they look at, against a model that tracks where each view points, compared after every step, with shrinking",
    units=lambda tier: parts("c05.cpp", 8), cases={"quick": 60000, "thorough": 2000000},
    rule="A case is a history of 1 to 20 steps (28 kinds: reset, copies of views and of their swizzles, assignments from every operand kind and onto temporaries, writes through indexes, iterators, set and the external memory, overlapping and disjoint swaps, every construction, "
         "copy, move, swap and container use of owning views) over 3 mutable and 2 read-only views of each length 1-4 onto a shared array, a vector and owning views. Every view is compared with the memory it should show after each step. Non-trivial: at least two steps were executed.")
CHECKS["C06"] = dict(
    units=lambda tier: parts("c06.cpp", 10, *(["-DALLTYPES", "-DNVC=3", "-DNCODE=400"] if tier == "thorough" else []))[::-1], cases={"quick": 40000, "thorough": 1000000},
    rule="A case draws a target (vector or owning view of 1-4 components, matrix shape) and one of all argument-count lists that are valid for it, with the kind (scalar, vector, swizzle, view, owning view, matrix) and element type of each argument spread over the lists, and argument values; "
         "or a conversion, an array or pointer source, or a matrix-to-matrix shape pair. Whether an argument list or an implicit conversion compiles is evaluated for all lists of up to three (thorough: four) arguments and compared with the stated rule. Non-trivial: more than one component, or a table entry.")
CHECKS["C07"] = dict(
    units=lambda tier: parts("c07.cpp", 8), cases={"quick": 150000, "thorough": 600000},
    rule="A case draws an element type, a length, one of nine container kinds and element values, reads every element through every access path of the object and of the const object, checks the random-access iterator laws for every pair of positions and a random walk, "
         "then performs 1 to 4 writes through randomly chosen paths or standard algorithms (compared with the same algorithm on a plain array), re-reading through every path each time. Non-trivial: the elements are pairwise different.")
CHECKS["C08"] = dict(
    technique="property-based testing with generated misuse: each operation runs under an abort trap and must stop exactly when the model says it is a misuse, with guard memory compared afterwards; a second build has assertions disabled",
    units=lambda tier: parts("c08.cpp", 6) + [("c08na.cpp", ["-Ddsga=dsga_na", "-Dcxcm=cxcm_na", "-DDISABLE_ASSERTS"], None)],
    cases={"quick": 120000, "thorough": 1500000},
    rule="A case draws an object kind and an operation (element read or write, column or row of a matrix, use of a view without target, walk of a swizzle iterator, run-time swizzle, modulus, function with a documented domain), with indexes inside, just outside and far outside the valid range in nine index types; "
         "the operation must stop the program exactly when it is a misuse. Non-trivial: every case except inapplicable combinations and, for modulus, cases without a zero.")
CHECKS["C09"] = dict(
    units=lambda tier: parts("c09.cpp", 9), cases={"quick": 300000, "thorough": 3000000},
    rule="A case draws a function or operator, element types (all pairs allowed for ==), size 1-4 or a matrix shape, storage kinds and two component lists that are equal, neighbouring (next or previous value), "
         "sign-flipped, converted, NaN, infinite or arbitrary; non-trivial when the expected components differ from each other (relational, boolean), more than one component (==).")
CHECKS["C17"] = dict(
    units=lambda tier: parts("c17.cpp", 8) + [("c17.cpp", ["-DPART=1"], "g++")], cases={"quick": 200000, "thorough": 3000000},
    rule="A case draws an element type, size 1-4, storage kind, element values and a distance (small, around multiples of the size, powers of two, INT_MIN, INT_MAX, arbitrary) or a callable (by value, by reference, stateful, mutable, function); "
         "the callable logs its calls. Non-trivial: the distance is not a multiple of the size (shift), the elements are pairwise different (apply, query) or equal extremes are present (min, max).")
CHECKS["C18"] = dict(
    technique="property-based testing: generated matrix expressions against a per-entry scalar reference, and stateful histories of writes, copies, swaps and arithmetic over two matrices and one of the other element type, compared with an array model through every access path after each step, with shrinking",
    units=lambda tier: parts("c18.cpp", 4), cases={"quick": 150000, "thorough": 3000000},
    rule="A case draws a shape, element types and entries (small, finite, any including infinities and NaN) and an operator form, or a history of 1 to 10 steps of 40 kinds over guarded matrices; non-trivial when the entries are pairwise different (operators) or the history has more than one step.")
CHECKS["C15"] = dict(
    units=lambda tier: parts("c15.cpp", 6), cases={"quick": 100000, "thorough": 3000000},
    rule="A case draws shapes, element types (matrix float/double; vector int, unsigned, long long, unsigned long long, float, double), vector storage kinds and entries: small integers or integers up to the exactness limit (result must be exact), reals or arbitrary finite values (rounding bound from the sum of "
         "absolute products). With small integers the algebraic laws are compared exactly. Which shapes multiply is evaluated for all shape pairs. Non-trivial: entries pairwise different, or operands not zero.")
CHECKS["C16"] = dict(
    units=lambda tier: parts("c16.cpp", 2), cases={"quick": 250000, "thorough": 8000000},
    rule="A case draws a size 2-4, element type and a matrix: dense, permutation, scaled permutation, sparse, triangular or unimodular integers up to the limit where every term is exact (times a power of two), or a uniform, diagonally dominant, rotation, affine or badly scaled real matrix; "
         "determinants and cofactors are recomputed by permutations in 128-bit integers or long double. Non-trivial: the determinant is not zero (real matrices: known to at least a quarter).")
CHECKS["C12"] = dict(
    units=lambda tier: parts("c12.cpp", 7), cases={"quick": 200000, "thorough": 4000000},
    rule="A case draws a function, size 1-4, storage kinds and components (arbitrary bit patterns, all NaN and infinity patterns, subnormals, powers of two, exponents around the overflow and underflow limits and INT_MIN / INT_MAX, products that cancel the addend); out parameters of frexp are vectors, views, swizzles and view swizzles. "
         "Non-trivial: components pairwise different (fma: the fused result differs from the unfused one).")
CHECKS["C14"] = dict(
    units=lambda tier: parts("c14.cpp", 5), cases={"quick": 120000, "thorough": 4000000},
    rule="A case draws a function, element types, size, storage kinds (all 81 pairs for cross) and vectors (small integers, reals, one shared exponent anywhere in the range, mixed exponents, arbitrary; exact and rounded unit vectors; refraction indexes around total internal reflection); references and forward error bounds are computed in long double. "
         "Non-trivial: components pairwise different; the sign is decided (faceforward); unit vectors and an index other than one (refract).")
CHECKS["C11"] = dict(
    technique="property-based testing against extended-precision references (80-bit long double, 128-bit for the rounding of square roots), vector form against scalar form bit for bit",
    units=lambda tier: parts("c11.cpp", 8), cases={"quick": 300000, "thorough": 6000000},
    rule="A case draws one of 19 one-argument functions, atan(y, x) or pow, the element type, size and storage kinds, and arguments over the whole exponent range, concentrated near domain edges, overflow and underflow limits, "
         "multiples of a quarter of pi, perfect squares, and special values; non-trivial when some argument is finite and nonzero with a finite result and the arguments differ from each other.")
def _c13(tier):
    import os
    f = ["-DVSEED=%s" % (os.environ.get("VERIF_SEED") or "1"), "-DNBATCH=%d" % (12 if tier == "thorough" else 2)]
    return [("c13.cpp", ["-DPART=%d" % i, *f], "clang++" if i in (8, 9, 10, 13, 18) else "g++") for i in (6, 7, 8, 9, 13, 1, 3, 2, 4, 5, 11, 12, 14, 17, 0, 10, 15, 16, 18)]
CHECKS["C13"] = dict(
    technique="property-based testing: generated constant arguments and generated programs are evaluated by two compilers during constant evaluation and again at run time, results compared",
    units=_c13, cases={"quick": 30000, "thorough": 200000},
    rule="A case is one evaluation of one of about 90 vector, view and scalar operations (8 element types, sizes 1-4), 17 matrix operations (9 shapes) or an interpreted random program of 7 to 23 steps, with argument seeds fixed when the check is built from VERIF_SEED; the compiler's result is compared with the run-time result. "
         "Non-trivial: the result values are not all the same.")
CHECKS["C19"] = dict(
    units=lambda tier: parts("c19.cpp", 8), cases={"quick": 200000, "thorough": 4000000},
    rule="A case draws a one-component vector, swizzle or view (nine kinds) of one of 8 element types, a scalar or one-component operand of any of the 8 types and values (small, boundary, arbitrary bits), and evaluates about 50 expressions (arithmetic, bit, shift, comparison, logical, conversions, calls, conditions, compound assignments in both directions), comparing value and type with the scalar expression; "
         "or an ordered pair of element types, a size and kinds, checking which conversions compile and what they give. Non-trivial: the operand is nonzero, or the types differ.")
CHECKS["C20"] = dict(
    technique="stateful property-based testing: random histories of copies, moves, swaps, byte copies, container operations and updates over a population of objects against an array model, compared after every step; generated byte-level round trips",
    units=lambda tier: parts("c20.cpp", 10), cases={"quick": 60000, "thorough": 2000000},
    rule="A case is one object (element type and size, or matrix shape) with values, read and written through bytes, data pointer, bit_cast and elements; a value-initialisation over memory holding arbitrary bytes, in eight ways; or a history of 1 to 24 steps (30 kinds) over four objects, a container, a member, an optional and stored bytes. "
         "Non-trivial: the elements are pairwise different (storage), or at least two steps (history).")

def _c21(tier):
    import os
    f = ["-DVSEED=%s" % (os.environ.get("VERIF_SEED") or "1"), "-DNROW=%d" % (3000 if tier == "thorough" else 300)]
    return [("c21.cpp", ["-DPART=%d" % i, *f], "g++" if i in (2, 3) else None) for i in (2, 3, 0, 1, 4)]
CHECKS["C21"] = dict(
    technique="property-based testing of the scalar mathematics library against the C++ standard library, 128-bit references for double-double arithmetic; generated constant arguments evaluated by the compiler",
    units=_c21, cases={"quick": 400000, "thorough": 8000000},
    rule="A case draws a value (small, halves, neighbours of halves and of the largest fractional value, every exponent, subnormal, special, arbitrary bits) and evaluates every function of cxcm on it, or a pair of double-double numbers (nearly cancelling, mixed exponents), or an integer of six types, "
         "or one row of a table whose arguments are drawn from VERIF_SEED and evaluated by the compiler. Non-trivial: not NaN (relaxed: not an integer; integers: not zero).")

def _c22(tier):
    import os
    f = ["-DVSEED=%s" % (os.environ.get("VERIF_SEED") or "1"), "-DNSEQ=%d" % (800 if tier == "thorough" else 120)]
    return [("c22.cpp", ["-DPART=%d" % i, *f], cc) for i, cc in ((2, None), (3, None), (0, "g++"), (5, None), (1, None), (4, None))]
CHECKS["C22"] = dict(
    technique="property-based testing of compile-time facts: instances drawn when the check is built from VERIF_SEED, or enumerated, are recorded in tables and compared with models written over names, letters and lists at run time",
    units=_c22, cases={"quick": 60000, "thorough": 300000},
    rule="A case is one compile-time instance: index ranges, arrays and index tuples drawn by the compiler from VERIF_SEED; one of all type aliases (decoded from its name); one of all 494 swizzle types of vector, view and read-only view or another kind (letters give offsets, length, writability and element constness); "
         "a type out of 26 against the concepts; a pair of element types; a deduction guide with argument types; an enumerator. Non-trivial: more than one component, distinct values, different types.")

def _examples(file, parts):
    def units(tier):
        import os
        ex = "-I" + os.path.join(os.environ.get("VERIF_REPO") or "/repo", "examples")
        return [(file, ["-DPART=%d" % i, ex], cxx) for i, cxx in enumerate(parts)]
    return units
CHECKS["C23"] = dict(
    technique="property-based testing against reference models (exact lexicographic order, equality classes for hashes, model maps, arrays for slices and spans)",
    probes=[("C23.compiles.alone", "an add-on header does not compile after nothing else", '#include "compare.hxx"\n#include "hash.hxx"\n#include "slice.hxx"\n#include "span_convert.hxx"\n#include "valarray_convert.hxx"\nbool f(dsga::vec3 a, dsga::vec3 b) { return (a <=> b) < 0; }\n')],
    units=_examples("c23.cpp", (None, None, None)), cases={"quick": 60000, "thorough": 600000},
    rule="Ordering: operand pairs of 14 type pairs in all kinds, the second derived from the first (equal, next value, or unrelated, extremes and NaN), default, permuted, negated and arbitrary weights, matrices, sorting; non-trivial: some but not all components equal. "
         "Hashing: equal values in every kind, other signs of zero, exchanged components; histories of insert, erase, find in an unordered map against a list. Slices at any offset (huge ones too) of every container; spans and valarrays of other lengths and element types; non-trivial: proper slices, differing lengths, distinct elements.")
CHECKS["C24"] = dict(
    technique="property-based testing against exact integer arithmetic and extended-precision recomputation",
    probes=[("C24.compiles.unsigned_vector", "within_tolerance / within_box of vectors with unsigned elements does not compile", '#include "tolerance.hxx"\nusing namespace dsga;\nbool f(uvec3 a, uvec3 b, unsigned t) { return within_tolerance(a, t) && within_box(a, b, t) && within_tolerance(a, b); }\n'),
            ("C24.compiles.one_component_box", "within_box of one-component vectors with a vector tolerance does not compile", '#include "tolerance.hxx"\nusing namespace dsga;\nbool f(basic_vector<float, 1> a, basic_vector<float, 1> b, basic_vector<float, 1> t) { return within_box(a, b, t); }\n'),
            ("C24.compiles.alone", "tolerance.hxx, bezier.hxx, angle.hxx and basic.hxx do not compile after nothing else", '#include "tolerance.hxx"\n#include "bezier.hxx"\n#include "angle.hxx"\n#include "basic.hxx"\nbool f(dsga::vec3 a, dsga::vec3 b) { return dsga::within_box(a, b, 1.0f) && dsga::within_distance(a, b, 1.0f); }\n')],
    units=_examples("c24.cpp", (None, None)), cases={"quick": 60000, "thorough": 600000},
    rule="Tolerances: 11 type pairs, values at the extremes of the type, second operand at or beside the boundary, every kind of operand; negative tolerances. Curves: control points of 1 to 4 components, t at the ends, inside and outside; angles of parallel, opposite, nearly parallel and general vectors; geometry of well-conditioned points in eighths. "
         "Non-trivial: some answer is yes and more than one component; t not an end; vectors not parallel; a proper triangle.")
CHECKS["C25"] = dict(
    technique="property-based testing against per-element formatting by the standard library, read-back round trips, and generated binary files converted and parsed",
    probes=[("C25.compiles.format_alone", "format_output.hxx provides no formatting unless <version> or <format> came before it", '#include "format_output.hxx"\n#include <format>\n#include <string>\nstd::string f(dsga::vec3 v) { return std::format("{}", v); }\n'),
            ("C25.compiles.stream_alone", "ostream_output.hxx does not compile after nothing else", '#include "ostream_output.hxx"\n#include <iostream>\nvoid f(dsga::vec3 v) { std::cout << v << v.zx; }\n')],
    units=_examples("c25.cpp", ("g++", "g++")), cases={"quick": 60000, "thorough": 600000},
    rule="Output: every scalar type, kind and length, 6 stream modes with any precision, 28 format specifications, matrices, hexadecimal floating point read back. Converter: binary STL files of 0 to 5 facets, some of them bad, and inputs and outputs that must be refused, all inside a scratch folder. "
         "Non-trivial: more than one component; at least two good facets; any refusal.")
# builds repeated in the thorough tier (run.py: VARIANTS)
for _k in "C01 C02 C03 C04 C05 C07 C08 C09 C10 C11 C12 C14 C15 C16 C17 C18 C19 C20 C21 C22".split():
    CHECKS[_k]["variants"] = ("o2",)
for _k in "C02 C04 C05 C10 C14 C16 C17 C18 C20".split():
    CHECKS[_k]["variants"] += ("asan",)
