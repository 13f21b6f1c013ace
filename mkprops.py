#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Element ownership: no double drop, leak, or uninitialised/freed access",
 "Through the safe API, every element given to or created by a vector, matrix, complex, quaternion or transform is dropped or handed back to the caller exactly once, for every element type (non-Copy, zero-sized, heap-owning) and every dimension. If a user closure, iterator, Clone, arithmetic operator or destructor panics part-way, no element is dropped twice. At no time is uninitialised, out-of-bounds or freed memory read or written.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of container operations, every element type and dimension, every point at which a user callback may panic",
 "Five Rc-count tests on Vector16 cover init, into_iter, for_each and try_from_iter of one length; transpose, unzip, matrices, partial consumption of flat iterators and every panic point are never exercised, and no test runs under a memory checker.",
 ["src/vector/base/init.rs", "src/vector/base/iter.rs", "src/matrix/base/init.rs", "src/matrix/base/iter.rs", "src/matrix/transpose.rs", "src/matrix/base/convert.rs"],
 [("MaybeUninit staging + assume_init", "vector/base/init.rs, vector/base/iter.rs"), ("partial-fill cleanup in try_from_iter", "vector/base/iter.rs"), ("ptr::read + mem::forget in transpose", "matrix/transpose.rs"), ("derived drop of [T; N]", "vector/base/mod.rs")],
 ["Drop/Clone of instrumented elements", "Miri / AddressSanitizer reports"])

prop("C02", "All views of a container alias the same row-major storage, in bounds",
 "Indexing, the x/y/z/w, w/x/y/z, re/im and a/b/c/d accessors, array and nested-array references, rows, columns, unchecked access, raw pointers and iterators of one value all denote the same elements, stored contiguously in row-major order and without padding; a write through any mutable view is seen through every other view and changes nothing else. Indexing a vector at i >= N, or a matrix at (i, j) with i >= M or j >= N (also rows and columns), panics instead of accessing memory.",
 ["inputs", "histories"],
 "every dimension, element type, index and pair of views, every order of writes through mutable views",
 "Tests index 2..4-dimensional integer vectors and matrices through one or two of the views; the mut accessors, raw pointers, nested-array casts, z/w references and out-of-range indices are never touched, and aliasing rules are not observable in ordinary tests.",
 ["src/vector/base/init.rs", "src/vector/spec.rs", "src/matrix/base/init.rs", "src/matrix/base/convert.rs", "src/complex/complex_.rs", "src/complex/quaternion.rs", "src/complex/moebius.rs"],
 [("repr(transparent) wrappers over [T; N]", "vector/base/mod.rs, matrix/base/mod.rs"), ("get_unchecked in xyzw accessors", "vector/spec.rs"), ("pointer casts to [[T; N]; M]", "matrix/base/convert.rs")],
 ["references, raw pointers and values returned by each view"])

prop("C03", "Construction and conversion keep every element in place; exact lengths",
 "Building from and converting to arrays, nested arrays, tuples, slices, scalar/vector pairs, vectors of vectors and iterators preserves every element and its position, and converting back gives the original. Construction from a slice succeeds only for exactly the right length; construction from an iterator takes exactly as many items as there are elements (never one more, so a borrowed iterator continues with the next item) and yields nothing if it runs short. Grouping splits a sequence into consecutive full vectors, and flattening yields every item of every sub-sequence in order, including when some are empty or a matrix has zero rows or columns. The type names with numbers in them (Vector3, Matrix2x4, Affine2 and so on) have the dimensions they say.",
 ["inputs", "histories"],
 "every dimension, element value, slice length, iterator length and source/target representation",
 "Tests convert a handful of literals of sizes 2..4 and slices of length 3..5; iterator over-consumption, group boundaries, empty sub-sequences, zero-sized dimensions and most From impls are not reached.",
 ["src/vector/base/init.rs", "src/vector/base/iter.rs", "src/vector/spec.rs", "src/matrix/base/convert.rs", "src/matrix/base/iter.rs", "src/complex/complex_.rs", "src/complex/quaternion.rs", "src/complex/moebius.rs", "src/transform"],
 [("try_from_iter / GroupIter / FlatIter", "vector/base/iter.rs, matrix/base/iter.rs"), ("From/Into/TryFrom impls", "vector/spec.rs, matrix/base/convert.rs")],
 ["converted values", "number of items pulled from the source iterator"])

prop("C04", "Iteration and combinators visit each element once, in row-major order",
 "iter, iter_mut, into_iter, for_each, map, zip, unzip, enumerate, indices, init, fold, fold_first and scan on vectors and matrices visit every element exactly once in index order (row-major for matrices), calling user closures in that order, and return each result at the position it was computed from. Folding threads the accumulator left to right, and scanning threads one state through all elements, across rows.",
 ["inputs", "histories"],
 "every dimension (including 1 and non-square), element type and stateful closure",
 "Tests call map/zip/unzip on Vector16 with monotone data and check matrix iteration with integers; call order, fold/scan on matrices, row boundaries and stateful closures are not observed.",
 ["src/vector/base/iter.rs", "src/matrix/base/iter.rs", "src/vector/base/init.rs", "src/matrix/base/init.rs"],
 [("into_iter/map/try_from_iter delegation", "vector/base/iter.rs"), ("row-wise delegation and FlatIter", "matrix/base/iter.rs")],
 ["log of closure invocations", "returned containers"])

prop("C05", "Element-wise operators equal the scalar operator on each element",
 "For vectors and matrices of every dimension and element type, negation, +, -, *, /, %, &, |, ^, !, div_floor, mod_floor, div_mod_floor, their scalar-operand forms (including primitive * vector) and every assigning form produce at each position exactly what the scalar operator produces from the elements at that position, operands in order. The operation panics exactly when one of those scalar operations would. Sum and Product over an iterator of vectors or matrices combine element-wise, starting from zeros or ones.",
 ["inputs"],
 "every dimension, element type, operand value (extremes, zero divisors, NaN, infinities) and operator form",
 "Tests use one small positive integer sequence per operator with dimensions 2..4: operand order for negatives, overflow/zero-divisor behaviour, bitwise operators, mod_floor signs, larger dimensions and float special values are not covered.",
 ["src/vector/ops/base.rs", "src/vector/ops/bit.rs", "src/vector/ops/int.rs", "src/vector/ops/iter.rs", "src/matrix/ops/base.rs", "src/matrix/ops/bit.rs", "src/matrix/ops/int.rs", "src/matrix/ops/iter.rs"],
 [("zip + map / iter_mut for_each per operator", "vector/ops, matrix/ops")],
 ["result elements", "panic / no panic"])

prop("C06", "Comparisons and reductions agree with the element-by-element definition",
 "veq, vne, vlt, vle, vgt and vge compare position by position like the scalar comparison (NaN included); any and all are the disjunction and conjunction of all elements; == holds iff all elements are equal; is_zero holds iff every element is zero. sum adds all elements once, and min and max return the smallest and largest element for totally ordered elements, wherever they are located, for vectors and matrices of every dimension that has elements.",
 ["inputs"],
 "every dimension, element type and arrangement of element values",
 "Tests only flip element 0 for any/all and compare two fixed sequences; min, max, sum and matrix reductions have no or one test, so a mistake at other positions, with NaN, ties or negative values is invisible.",
 ["src/vector/ops/vcmp.rs", "src/vector/ops/bit.rs", "src/vector/ops/base.rs", "src/matrix/ops/vcmp.rs", "src/matrix/ops/bit.rs", "src/matrix/ops/base.rs"],
 [("zip + map comparisons, fold_first reductions", "vector/ops, matrix/ops")],
 ["returned booleans and extrema"])

prop("C07", "Element-wise float functions with broadcasting match the scalar function",
 "Every element-wise floating-point method of vectors and matrices (abs, signum, roots, rounding, trigonometric, hyperbolic, exponential, logarithmic, powi/powf, atan2, hypot, mul_add, vmin, vmax, clamp, abs_sub, fract, recip, sin_cos, ...) returns at each position the value of the same scalar function of the elements at that position, with arguments in the same roles. A scalar argument acts as if repeated everywhere, a vector argument of a matrix method as if repeated for every row, and a container argument position by position.",
 ["inputs", "configurations"],
 "every method, element value (including NaN, infinities, signed zeros, out-of-domain values), dimension and kind of argument",
 "None of these roughly 80 methods is called by any test.",
 ["src/vector/math.rs", "src/matrix/math.rs", "src/traits.rs"],
 [("map(T::f) and zip(broadcast)", "vector/math.rs, matrix/math.rs"), ("Broadcast impls", "vector/math.rs, matrix/math.rs")],
 ["result elements against the scalar function"])

prop("C08", "Vector and matrix products follow their algebraic definitions",
 "dot, outer and cross products (2, 3 and 4 dimensions), square_length, matrix-vector, vector-matrix and matrix-matrix products, transpose, diagonal and identity equal their textbook definitions for all dimensions and element rings, with left factors kept on the left for non-commutative elements. Consequently the identity is neutral, products associate, distribute and satisfy (AB)^T = B^T A^T over commutative elements, and transposition is an involution; for floats this holds up to rounding error.",
 ["inputs"],
 "every compatible combination of dimensions and all element values in any ring",
 "Tests multiply a few fixed small-integer matrices with sizes 2..4 and one cross product of unit axes; the 2D and 4D cross products, other sizes, sparse/zero patterns and non-commutative elements are not covered.",
 ["src/vector/dot.rs", "src/vector/spec.rs", "src/matrix/product.rs", "src/matrix/transpose.rs", "src/matrix/square.rs"],
 [("zip-map-sum dot and indices().map products", "vector/dot.rs, matrix/product.rs"), ("element swap transpose", "matrix/transpose.rs")],
 ["product values in exact rings and floats"])

prop("C09", "Determinant, cofactors, adjugate and inverse are exact for every matrix",
 "For square matrices of every size over a commutative ring, det equals the Leibniz determinant, cofactor(i, j) is the signed minor of row i and column j, and A adj(A) = adj(A) A = det(A) I, also for singular and sparse matrices. For every matrix with invertible determinant inv (method and trait) satisfies A inv(A) = inv(A) A = I, exactly over a field and up to conditioning over floats; asking for a cofactor out of range panics.",
 ["inputs"],
 "every size and every matrix, in particular singular, sparse, permutation and triangular ones",
 "There are two tests: one 3x3 integer determinant and one inverse; other sizes, zero patterns, cofactor signs and the adjugate of singular matrices are never computed.",
 ["src/matrix/square.rs"],
 [("recursive cofactor expansion with row/column masks", "matrix/square.rs (Determinator, SubmatrixMask, IndexMask)")],
 ["values over a prime field, integers and floats"],
 [dict(name="SubmatrixMask", meaning="rows/columns still in the minor and their count", where="matrix/square.rs")])

prop("C10", "Norms are the mathematical norms and normalising gives unit norm",
 "norm_l1, norm_l2, norm_l2_sqr and norm_l_inf of scalars, vectors, matrices, complex numbers and quaternions (where provided), and length, norm and square_length, equal the sum of absolute values, the Euclidean norm or its square, and the largest absolute value of the components, for every element type and dimension. Normalising a vector, complex number or quaternion whose squared norm neither overflows nor underflows gives the positive multiple of it that has unit norm.",
 ["inputs"],
 "every dimension, element type and value whose squares are representable (for integers: without overflow), including negative, zero and mixed-magnitude components",
 "The only norm tests are one-sided (length - sqrt(N) < 1e-8 passes for any smaller value) and one quaternion; L1, L-inf, matrices and normalisation of non-positive data are untested.",
 ["src/traits.rs", "src/vector/ops/base.rs", "src/matrix/ops/base.rs", "src/vector/dot.rs", "src/complex/complex_.rs", "src/complex/quaternion.rs"],
 [("NormL1/NormL2/NormLInf impls, normalize = self / length", "traits.rs, vector/ops/base.rs, vector/dot.rs")],
 ["norm values", "normalised values"])

prop("C11", "Complex arithmetic obeys the complex field in every operand form",
 "Complex numbers obey complex arithmetic: +, -, *, /, % and negation with complex or real operands on either side, the assigning forms, conj, inv, norm_sqr, dot, zero/one/i, integer powers, Sum/Product, the matrix form and the conversions to and from pairs, arrays, vectors and num_complex are mutually consistent and equal the textbook result. This is exact over exact element types (integers, prime fields) and up to rounding for f32/f64 as long as the squared norms involved neither overflow nor underflow.",
 ["inputs"],
 "every pair of operands, element type and operand form (complex-complex, complex-real, real-complex, assigning)",
 "Tests check about ten literal f32 cases; subtraction and division with the real number on the left, assigning forms, %, powers, the matrix form, integer and other element types are not covered.",
 ["src/complex/complex_.rs"],
 [("component formulas and delegation to num_complex", "complex/complex_.rs")],
 ["result components in exact fields and floats"])

prop("C12", "Complex functions, polar form and parsing equal their definitions",
 "exp, ln, sqrt, cbrt, powf, powc, expf, log, the trigonometric, hyperbolic and inverse functions, finv and fdiv of a complex number are the principal-branch values, with the same branch cuts and special-value behaviour as num_complex, for f32 and f64. Polar conversion satisfies from_polar(norm, arg) = z with arg in [-pi, pi], and parsing in a radix accepts and rejects the same texts with the same values as num_complex.",
 ["inputs"],
 "every argument, including points on branch cuts, axes, signed zeros and out-of-domain bases, and every input text",
 "No test calls any of these functions.",
 ["src/complex/complex_.rs"],
 [("delegation through into_num / from_num", "complex/complex_.rs")],
 ["function values against num_complex and defining identities"])

prop("C13", "Quaternion arithmetic obeys Hamilton's algebra, also with complex operands",
 "Quaternions obey Hamilton's algebra: products are associative, non-commutative and bilinear, the norm is multiplicative, conj reverses products, a * inv(a) = 1 and a / b = a * inv(b). A complex number or real in any operand position (+, -, *, / and the assigning forms, left or right) acts as the quaternion re + im i, or re; parts, unit constants, the matrix form, dot, Sum/Product and conversions are consistent with this, exactly over exact element types and, as long as the squared norms involved neither overflow nor underflow, up to rounding for floats.",
 ["inputs"],
 "every operand, element type and operand form (quaternion, complex or real on either side, assigning)",
 "Tests check literal f32 cases and 256 samples of four identities; mixed subtraction, mixed division, assigning forms with complex operands, Sum/Product and exact algebra on arbitrary elements are not covered.",
 ["src/complex/quaternion.rs"],
 [("explicit Hamilton product and mixed complex formulas", "complex/quaternion.rs")],
 ["result components in exact fields and floats"])

prop("C14", "Moebius maps: apply, chain, inverse and derivatives are consistent",
 "A Moebius map with matrix (a, b; c, d) sends x to (a x + b)(c x + d)^-1 for scalar, complex and quaternion points; chain is composition (also for quaternion coefficients), identity is neutral, and inv undoes the map for commutative coefficients, wherever the denominators do not vanish. The complex derivative and the quaternion directional derivative are the true derivatives of apply and obey the chain rule. normalize leaves the represented map unchanged and is idempotent, giving determinant one.",
 ["inputs"],
 "every invertible coefficient matrix and every point off the pole",
 "Tests sample 64-256 random maps with loose finite-difference tolerances; inv, identity, det, normalize, real points, Transform/Directional impls and special matrices (c = 0, d = 0, equal entries) are not covered.",
 ["src/complex/moebius.rs", "src/transform/moebius.rs"],
 [("2x2 matrix delegation; quotient-rule formulas", "complex/moebius.rs"), ("Transform impls", "transform/moebius.rs")],
 ["exact values over prime fields, float values against finite-difference-free derivatives"])

prop("C15", "Transformations form groups and chain/inverse/reorder/deriv agree with apply",
 "For Shift, Scale, Linear, Affine, Rotation2, Rotation3 and every Chain of a shift with one of the others in either order: identity maps each point to itself, a.chain(b) maps x to a(b(x)), chain is associative, and inv maps a(x) back to x whenever the transformation is invertible. reorder returns B', A' of the swapped kinds with A(B(x)) = B'(A'(x)), a chain built from two parts applies the inner one first, and deriv is the exact directional derivative of apply; for exact scalars all this is exact.",
 ["inputs", "histories"],
 "every dimension, every sequence of chained, inverted and reordered transformations, and every point",
 "Tests cover Linear, Affine and rotations for 256 random float samples; Scale, Shift, chains other than Affine, every reorder, splits, chain associativity over long compositions and exact equality are not covered.",
 ["src/transform/mod.rs", "src/transform/chain.rs", "src/transform/shift.rs", "src/transform/scale.rs", "src/transform/linear.rs", "src/transform/affine.rs", "src/transform/rotation.rs"],
 [("Transform impls and Chain/Reorder", "src/transform/*.rs")],
 ["images of points under transforms over prime fields and floats"])

prop("C16", "Rotations are rigid and agree with their angle, axis and matrix forms",
 "A rotation built from an angle (2D) or a unit axis and angle (3D) preserves lengths, angles and orientation, rotates by that angle counter-clockwise (right-handed about the axis), and leaves the axis fixed. angle and axis rebuild the same rotation from its accessors whenever an axis exists, to_linear gives the matrix with the same action, composing rotations about a common axis adds angles, and inv rotates back; for all angles, negative and beyond a full turn included.",
 ["inputs"],
 "every angle, unit axis and vector, for f32 and f64",
 "Tests sample random rotations with angles in [0, 2 pi) through a cosine only, so the direction of 2D rotation, special angles (0, pi, multiples of pi/2), negative or large angles, axis-aligned axes and f32 are not covered.",
 ["src/transform/rotation.rs"],
 [("unit complex / unit quaternion representation", "transform/rotation.rs")],
 ["images of vectors", "axis/angle accessors", "matrix form"])

prop("C17", "Look-at constructors return proper rotations with the requested axes",
 "For every unit direction, Rotation3::look_at_any and Linear::look_at_any return a proper rotation (orthonormal, determinant one) that maps -z to that direction, without NaN or loss of accuracy at the poles, on the equator and at internal switching thresholds. For every unit direction and every up vector not parallel to it (whose cross product with it has a representable square), Linear::look_at returns the proper rotation that maps -z to the direction and y to the unit part of up orthogonal to it.",
 ["inputs"],
 "every unit direction and non-parallel up vector, in particular axis-aligned, equatorial, near-pole and threshold-adjacent ones",
 "Tests check only the image of -z for 256 random directions, where special directions have probability zero; orthonormality, handedness, the up vector and f32 are not checked.",
 ["src/transform/linear.rs", "src/transform/rotation.rs"],
 [("cross-product frame and half-angle quaternion with case split on dir.z", "transform/linear.rs, transform/rotation.rs")],
 ["images of the basis vectors"])

prop("C18", "Transformed directions and normals point where the geometry says",
 "For every transformation offering directions, apply_dir at a point is a positive multiple of the directional derivative there, and apply_normal stays orthogonal to every transformed tangent that the normal was orthogonal to and on the same side of it; unit inputs give unit outputs. Through a chain the result equals applying the inner and then the outer transformation at the correct intermediate point, and for conformal maps both methods agree.",
 ["inputs", "histories"],
 "every transformation (including reflections, negative and non-uniform scales, shears and chains), position and direction",
 "No test calls apply_dir, apply_normal or normal_transform.",
 ["src/transform/mod.rs", "src/transform/linear.rs", "src/transform/scale.rs", "src/transform/shift.rs", "src/transform/rotation.rs", "src/transform/moebius.rs", "src/transform/chain.rs"],
 [("Directional impls; inverse-transpose normal_transform", "transform/*.rs")],
 ["returned directions and normals"])

prop("C19", "Random distributions only produce elements with the promised property",
 "For every random source, including ones that start with or contain degenerate output, Normal samples are finite, NonZero samples have norm above epsilon (the machine epsilon of the scalar), Unit samples have norm one, Invertible samples (matrices, linear, affine and Moebius maps) have a determinant that is not epsilon-small, and uniform rotations are unit. Component distributions fill every element from its own independent draw of the inner distribution, sampling needs only finitely many draws once the source yields non-degenerate output, and a sample is determined by what its source delivers: equal sources give equal samples.",
 ["inputs", "fault_sequences"],
 "every output sequence of the random source (adversarial included), every dimension and scalar type",
 "Tests draw from one healthy seeded generator, which never produces the degenerate draws that the rejection loops exist for, and never check the guarantees themselves.",
 ["src/distr.rs", "src/vector/distr.rs", "src/matrix/distr.rs", "src/complex/distr.rs", "src/transform/rotation.rs", "src/transform/linear.rs", "src/transform/affine.rs"],
 [("rejection loops and per-component sampling", "vector/distr.rs, matrix/distr.rs")],
 ["samples", "number of draws from a scripted random source"])

prop("C20", "Random distributions have the documented probability law",
 "With a good random source, Normal components are independent standard normal variables for every supported type, Unit samples are uniform on the sphere of their dimension, and Uniform rotations are uniform over all rotations (2D: uniform angle; 3D: Haar measure, so the image of any fixed vector is uniform on the sphere). Components of one sample, and successive samples, are uncorrelated.",
 ["inputs"],
 "every scalar type, dimension and sampled type, over the distribution of outcomes",
 "No test looks at the distribution of samples; a law can only be judged over many samples.",
 ["src/distr.rs", "src/vector/distr.rs", "src/matrix/distr.rs", "src/complex/distr.rs", "src/transform/rotation.rs"],
 [("Box-Muller generator, normalised normals, rotation sampling", "distr.rs, vector/distr.rs, transform/rotation.rs")],
 ["sample statistics over large fixed-seed samples"])

prop("C21", "Approximate equality holds iff every component is within epsilon",
 "For vectors, matrices, complex numbers, quaternions, Moebius maps and all transformations, including chains and affine maps, abs_diff_eq(a, b, eps) is true exactly when every corresponding pair of components differs by at most eps (as scalars compare), so a deviation in any single component is detected, not-a-number never compares equal, and the relation is reflexive on finite values and symmetric. The default epsilon is that of the component type.",
 ["inputs"],
 "every type, position of the deviation, sign and size relative to epsilon, and special values",
 "Tests use approximate equality as their oracle but never check that it can fail, so a comparison that ignores a component would make the whole suite weaker without failing it.",
 ["src/vector/approx.rs", "src/matrix/approx.rs", "src/complex/approx.rs", "src/transform"],
 [("component-wise AbsDiffEq impls", "*/approx.rs, transform/*.rs")],
 ["returned booleans"])

prop("C22", "Formatting shows every element once, in order, and never panics",
 "Display and Debug of vectors and matrices of every dimension show the dimensions and then every element exactly once in row-major order, separated from each other and one row per line for matrices; complex numbers and quaternions show their components in the order re, im and w, x, y, z. Display uses the Display form of the elements and Debug their Debug form, an error of the output sink or element is passed on, and formatting never panics, also for empty vectors and matrices.",
 ["inputs", "fault_sequences"],
 "every dimension (0 and 1 included), element type, value and failing output sink",
 "Tests format one 3-vector and one quaternion; matrices, Debug of vectors, other dimensions, elements with different Display and Debug forms and failing sinks are not covered.",
 ["src/vector/base/format.rs", "src/matrix/format.rs", "src/complex/format.rs"],
 [("write! loops over elements", "*/format.rs")],
 ["formatted text", "writer call results"])

prop("C23", "Results do not depend on the enabled cargo features",
 "The crate builds with every combination of the std, rand and approx features, and the same operations on the same inputs give the same results in all of them: bit-identical for exact and purely arithmetic operations, and within a few units in the last place for operations based on transcendental functions (on arguments inside their domain). Samples drawn from identically seeded sources agree in every configuration that has distributions.",
 ["configurations", "inputs"],
 "all feature combinations, over all operations and inputs",
 "CI runs two of the eight combinations, and without default features most numeric tests are compiled out; results of two configurations are never compared.",
 ["Cargo.toml", "src/lib.rs", "src/traits.rs", "src/distr.rs"],
 [("feature-gated modules, libm versus std floats through num-traits", "Cargo.toml, lib.rs")],
 ["result digests of one workload built in each configuration"])

prop("C24", "Values are plain data and operations are pure",
 "The result of every operation, random samples and formatting included, is a function of its operands alone (and of what the random source delivers): it does not depend on what was computed before, how often, on which thread, or on what other threads compute at the same time. Reading one value from several threads needs no synchronisation; every container, number and transformation is Send, Sync, Copy or Clone exactly when its elements are, and an iterator is Send or Sync at most when what it holds allows it. A clone equals its original component by component and is independent of it, and == on vectors, matrices, complex numbers, quaternions, Moebius maps and transformations (chains included) holds exactly when all components are equal.",
 ["histories", "schedules", "inputs"],
 "all histories of operations, interleavings of threads, and values",
 "Every test computes a value once, on one thread; a memo keyed on part of the operands, a shared scratch buffer, a stateful generator, an unsound Send or Sync, or an equality that ignores a component leaves all of them green.",
 ["src/vector/base", "src/matrix/base", "src/matrix/square.rs", "src/complex", "src/transform", "src/distr.rs"],
 [("derived Clone, Copy, PartialEq and auto traits; operations without state of their own", "vector/base/mod.rs, matrix/base/mod.rs, complex/*.rs, transform/*.rs, distr.rs")],
 ["results of repeated, reordered and concurrent runs of one operation", "components of clones", "==", "auto traits"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
