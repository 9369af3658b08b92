TECH = ('contracts as C++ specifications over the real headers, compiled to LLVM IR on every run; verification conditions by '
        'symbolic execution; discharged by an exact ring normaliser, Z3 and cvc5')
RNOTE = ('Every obligation of every contract is discharged for all inputs. Doubles are read as exact reals (no rounding, overflow, NaN); '
         'trusts clang -O1, the symbolic executor and the solvers; CHECK/LOG(FATAL) come from a shim. ')
P = [
 dict(id='C07', title='R³ and exterior algebra obey the vector-space and product laws',
  statement='For all triples of real coordinates, addition, negation, scaling, division, dot and cross products, norms, normalization, '
   'orthogonalization and spherical conversion of three-component elements compute the mathematical operation on every component. '
   'For all vectors, bivectors and trivectors, the linear operations, inner products, wedge products, commutator and the left and right '
   'actions of bivectors and trivectors equal their definitions in an oriented Euclidean 3-space (anticommutativity, Jacobi identity, '
   'dot-product triple product), and normalization yields norm 1 and the zero vector only for zero.',
  quant='all coordinates and scalars as real numbers; divisors and normalized elements nonzero',
  why='The tests sample a dozen fixed vectors; the laws are over all coordinates.',
  files=['geometry/r3_element.hpp', 'geometry/r3_element_body.hpp', 'geometry/grassmann.hpp', 'geometry/grassmann_body.hpp'],
  mech=[('componentwise operators', 'geometry/r3_element_body.hpp'), ('Wedge, InnerProduct, Commutator', 'geometry/grassmann_body.hpp')],
  note=RNOTE + 'The SSE (non-AVX, non-FMA) code path is the one compiled.'),
 dict(id='C08', title='Rotations form a group of orientation-preserving isometries',
  statement='A rotation defined by any unit quaternion acts on vectors and bivectors by the corresponding rotation matrix, leaves trivectors '
   'unchanged, preserves inner products, wedge products and commutators, carries bilinear forms along, and composition, inverse, identity '
   'and conversion to orthogonal or conformal maps agree with the action. '
   'Construction from an angle and axis (active, or defining either frame), from the axes of either frame, from a bivector exponential, and '
   'from every Euler and Cardano angle sequence yields exactly the rotation its documentation defines. '
   'Quaternion arithmetic obeys the Hamilton product and inverse laws.',
  quant='all unit quaternions, angles, axes, vectors and forms, over the reals',
  why='Tests use a handful of angles and basis vectors; 12 angle conventions times active/passive variants hide sign errors on special inputs.',
  files=['geometry/rotation.hpp', 'geometry/rotation_body.hpp', 'geometry/quaternion.hpp', 'geometry/quaternion_body.hpp'],
  mech=[('constructors and operator()', 'geometry/rotation_body.hpp'), ('Hamilton product', 'geometry/quaternion_body.hpp')],
  note=RNOTE + 'Sine and cosine are uninterpreted functions with sin²+cos²=1, parity and the addition formulas.'),
 dict(id='C09', title='Orthogonal and conformal maps compose, invert and act consistently',
  statement='Signs, signatures, coordinate permutations, orthogonal maps of either handedness, homothecies, conformal maps and identities '
   'act on vectors, bivectors and trivectors (and, for signatures, orthogonal maps and identities, on bilinear forms) exactly as the linear map they stand for, '
   'including the determinant sign on bivectors and trivectors. '
   'Composition equals successive application, Inverse undoes the map, and forgetting a map into a more general class does not change its action. '
   'Homothecies and conformal maps scale vectors by their scale and leave angular velocities unscaled; Determinant is the sign of the map (the cube of the scale for conformal maps and homothecies).',
  quant='all signs, all six permutations and their compositions, all unit quaternions, all positive scales, all operands over the reals',
  why='Tests exercise a few fixed vectors; the handedness and composition tables have many cases.',
  files=['geometry/sign_body.hpp', 'geometry/signature_body.hpp', 'geometry/permutation_body.hpp', 'geometry/orthogonal_map_body.hpp',
         'geometry/conformal_map_body.hpp', 'geometry/homothecy_body.hpp', 'geometry/identity_body.hpp'],
  mech=[('signature constructors', 'geometry/signature_body.hpp'), ('permutation tables', 'geometry/permutation_body.hpp'),
        ('operator(), Inverse, Forget', 'geometry/orthogonal_map_body.hpp')],
  note=RNOTE),
 dict(id='C10', title='Points, affine maps, barycentres, direct sums, complexifications, intervals',
  statement='Points, affine maps, degrees of freedom and direct sums obey the affine-space and vector-space laws componentwise; an affine map sends its origin to its '
   'image origin, acts linearly on differences, composes and inverts. '
   'A barycentre is the weighted mean of its points whatever the number of additions (each addition preserves the invariant on the weighted sum and the weight). '
   'Complexified values obey complex arithmetic; intervals contain what they include, and intersect as sets.',
  quant='all points, vectors, weights with nonzero sums, scalars, over the reals; any number of barycentre additions by induction',
  why='The laws are over all coordinates and any number of points; the tests fix a few.',
  files=['geometry/point_body.hpp', 'geometry/affine_map_body.hpp', 'geometry/barycentre_calculator_body.hpp', 'geometry/direct_sum_body.hpp',
         'geometry/complexification_body.hpp', 'geometry/interval_body.hpp', 'physics/degrees_of_freedom_body.hpp'],
  mech=[('affine operators', 'geometry/point_body.hpp'), ('BarycentreCalculator::Add, Get', 'geometry/barycentre_calculator_body.hpp'),
        ('operator() and composition', 'geometry/affine_map_body.hpp')],
  note=RNOTE),
 dict(id='C11', title='3×3 matrices and symmetric bilinear forms',
  statement='Matrix sums, products, transpose, trace, determinant, Kronecker product and norms have their mathematical definitions; QRDecomposition yields an '
   'orthogonal factor and an upper triangular factor whose product is the matrix; Solve solves every regular system. '
   'Symmetric bilinear forms are symmetric and linear, act on vectors and bivectors consistently with the inner product, and the anticommutator and its inverse satisfy their documented identities. '
   'Each Jacobi step of the diagonalization is a rotation annihilating the chosen element, and the final sort yields increasing eigenvalues with a proper rotation.',
  quant='all matrix and vector coordinates over the reals (nonsingular where divided by)',
  why='Index errors in the 3×3 formulas show only for matrices without the symmetry of the test data.',
  files=['geometry/r3x3_matrix_body.hpp', 'geometry/symmetric_bilinear_form_body.hpp'],
  mech=[('Solve, QRDecomposition, Determinant', 'geometry/r3x3_matrix_body.hpp'), ('Anticommutator, Diagonalize', 'geometry/symmetric_bilinear_form_body.hpp')],
  note=RNOTE + 'The convergence of the Jacobi iteration is not proved; its step and the final sort are.'),

 dict(id='C01', title='Hexadecimal codec', level='bounded',
  statement='Hexadecimal encoding writes, for every byte, its two digits in order, then the terminator if requested, and nothing else, including when the output overlaps the input as the header allows; '
   'decoding inverts it, accepts both cases, ignores a trailing odd digit, and treats characters that are not hexadecimal digits as zero without reading or writing outside of the arrays. '
   'The lengths computed for allocation are exact.',
  quant='all byte contents and all characters; encoding 0 to 24, 33 and 64 bytes, decoding 0 to 32, 65 and 128 characters, in disjoint arrays and with overlaps of -1 to 1',
  why='Tests use one string; table lookups and overlaps go wrong for particular byte values and offsets.',
  files=['base/hexadecimal.hpp', 'base/hexadecimal_body.hpp'],
  mech=[('Encode, Decode', 'base/hexadecimal_body.hpp')],
  note='Bounded: the sizes are enumerated, the contents are symbolic. Trusts clang -O1, the symbolic executor and Z3; CHECK comes from a shim.'),
 dict(id='C02', title='Base 32768 codec', level='bounded',
  statement='Base 32768 encoding writes each group of 15 bits as the code point of the 15-bit repertoire, and a last group of at most 7 bits as a code point of the 7-bit repertoire, padded with ones, '
   'with the terminator if requested; decoding yields back the bytes and their exact number. '
   'Decoding arbitrary (malformed) text never accesses memory outside of the input, of the output and of the tables.',
  quant='all byte contents for inputs of 0 to 30 bytes; all code units in the last three positions of texts of 1 to 9 code units',
  why='There are 2¹⁵ code points and 15 alignments; a wrong table entry or shift shows for a few byte values only.',
  files=['base/base32768.hpp', 'base/base32768_body.hpp'],
  mech=[('repertoires, Encode, Decode', 'base/base32768_body.hpp')],
  note='Bounded: the sizes are enumerated, the contents are symbolic. Trusts clang -O1, the symbolic executor and Z3; CHECK comes from a shim.'),
 dict(id='C12', title='Polynomials in the monomial basis',
  statement='Evaluation of a polynomial and of its derivative (Horner and Estrin, with and without FMA, direct or virtual) equals the sum of its monomials around its origin. '
   'Sums, differences, products by scalars, values and polynomials, pointwise inner products, composition, changes of origin, of evaluator and of degree, derivatives, primitives and integrals of low degree '
   'have, at every argument, the value prescribed by the operation, and operations on different origins are rejected.',
  quant='all coefficients, origins and arguments as reals; every degree below 12 and 15 to 18 for evaluation, representative degrees for the operators',
  why='A wrong coefficient index or power shows only for particular degrees and nonzero origins; the tests use one polynomial per operator.',
  files=['numerics/polynomial_in_monomial_basis_body.hpp', 'numerics/polynomial_evaluators_body.hpp', 'quantities/tuples_body.hpp', 'numerics/combinatorics_body.hpp'],
  mech=[('operators', 'numerics/polynomial_in_monomial_basis_body.hpp'), ('Estrin, Horner', 'numerics/polynomial_evaluators_body.hpp')],
  note=RNOTE + 'Degrees are template parameters: those listed are instantiated.'),
 dict(id='C13', title='Чебышёв series and Newhall approximations',
  statement='A Чебышёв series evaluates, with its derivative, to the sum of its coefficients times the Чебышёв polynomials of the argument rescaled to the interval; the companion matrix represents the '
   'multiplication by the argument modulo the series; a series declared free of real roots has none. '
   'Newhall approximations reproduce every polynomial of their degree in both bases, interpolate the values and derivatives at both bounds, and report the last coefficient as the error.',
  quant='all coefficients, bounds and arguments as reals; degrees 0 to 5, 8 and 13 for evaluation; all Newhall degrees 3 to 17, with the rational tables taken at tolerance 1e-9',
  why='The 30 tables of Newhall have thousands of entries; the tests compare a few functions with loose tolerances.',
  files=['numerics/polynomial_in_чебышёв_basis_body.hpp', 'numerics/newhall_body.hpp', 'numerics/newhall_matrices.mathematica.h'],
  mech=[('Clenshaw recurrence', 'numerics/polynomial_in_чебышёв_basis_body.hpp'), ('matrices', 'numerics/newhall_matrices.mathematica.h')],
  note=RNOTE + 'Absence of roots is proved for degrees 1 and 2.'),
 dict(id='C14', title='Hermite interpolation and quadratic equations',
  statement='Second and third degree Hermite polynomials are the unique polynomials with the given values and derivatives; their sums and differences are defined on the common interval. '
   'The extrema found are exactly the zeroes of the derivative within the interval, in order; the L² norm and error bound every sample, the value at the upper bound and the interior extremum. '
   'The quadratic solver returns exactly the real roots, in increasing order.',
  quant='all arguments, values and derivatives over the reals (distinct arguments, or identical points)',
  why='The cases of the discriminant and of extrema outside of the interval are many; tests use fixed data.',
  files=['numerics/hermite2_body.hpp', 'numerics/hermite3_body.hpp', 'numerics/root_finders_body.hpp'],
  mech=[('MakePolynomial, FindExtrema', 'numerics/hermite3_body.hpp'), ('SolveQuadraticEquation', 'numerics/root_finders_body.hpp')],
  note=RNOTE + 'The L² norm is proved for scalar values on [0, 1]; LInfinityL₁NormUpperBound is a known finding.'),
 dict(id='C03', title='Union-find', level='bounded',
  statement='Starting from any valid forest, Find returns the root of the tree of its argument and leaves every node in its set with a well-founded structure; '
   'Unite puts the two sets in one, merges the properties of both exactly once when they are distinct and not at all otherwise, keeps the ranks consistent, and leaves the other sets untouched. '
   'New elements are singletons.',
  quant='one operation on every valid forest (parents and ranks) of up to 4 nodes, hence by induction every history on them',
  why='The states reached depend on the whole history of unions; tests follow a couple of histories.',
  files=['base/disjoint_sets.hpp', 'base/disjoint_sets_body.hpp'],
  mech=[('Find, Unite', 'base/disjoint_sets_body.hpp')],
  note='Bounded in the number of nodes. Trusts clang -O1, the symbolic executor and Z3.'),
 dict(id='C04', title='Integer arithmetic helpers',
  statement='FloorLog2 and PowerOf2Le bracket their argument by powers of 2, BitReversedIncrement increments the bit-reversed number, mod returns the representative of its class in the half-open '
   'interval designated by the divisor and the offset, and factorials, double factorials, falling factorials and binomials equal their definitions wherever they are representable. '
   'The Kronecker delta is 1 on the diagonal and 0 elsewhere.',
  quant='all 63-bit integers for the logarithms; all widths 1 to 31 and all arguments for the increment; all dividends within ±2³⁰ for 36 divisors; factorials of 0 to 20, binomials of rows 0 to 60, falling factorials of length 0 to 3',
  why='Sign and boundary errors appear for few of the 2⁶⁴ arguments.',
  files=['base/bits.hpp', 'base/bits_body.hpp', 'base/mod.hpp', 'base/mod_body.hpp', 'numerics/combinatorics.hpp', 'numerics/combinatorics_body.hpp'],
  mech=[('FloorLog2, BitReversedIncrement', 'base/bits_body.hpp'), ('mod', 'base/mod_body.hpp'), ('Binomial', 'numerics/combinatorics_body.hpp')],
  note='mod is bounded: the listed divisors only. Machine integers are exact bit vectors, overflow is an obligation. Trusts clang -O1, the symbolic executor and Z3.'),
 dict(id='C05', title='Floating-point neighbours, exponents, scaling and distances',
  statement='NextUp and NextDown return the adjacent representable number (respecting signed zeros, subnormals, infinities and NaN), LogB the exponent, ScaleB the argument times a power of 2 correctly rounded, with '
   'the sign kept on underflow, and ULPDistance the number of representable numbers between its arguments, symmetrically and saturated at the greatest integer.',
  quant='all numbers for the distance; all significands and signs of 20 binades at the extremes and in the middle of the range, all subnormal and special values for the others',
  why='The interesting inputs are isolated: powers of 2, ends of the range, signed zeros.',
  files=['numerics/next_body.hpp', 'numerics/log_b_body.hpp', 'numerics/scale_b_body.hpp', 'numerics/ulp_distance_body.hpp'],
  level='bounded',
  mech=[('NextUp, NextDown', 'numerics/next_body.hpp'), ('ScaleB', 'numerics/scale_b_body.hpp'), ('ULPDistance', 'numerics/ulp_distance_body.hpp')],
  note='Bounded in the binades; doubles are IEEE 754 bit vectors. Trusts clang -O1, the symbolic executor and Z3.'),
 dict(id='C43', title='Base containers and utilities',
  statement='A not_null never holds null: construction from null is detected, the source of a move stays valid, comparisons and conversions act on the pointer. Arrays compare by contents; bounded arrays, ranges, '
   'array sources and sinks give access to their elements in order. Iteration over tuples and integer ranges visits each element exactly once in order, move-only functions forward to and own their functor, the malloc allocator returns '
   'disjoint, aligned and sufficient storage, and a monostable never returns to its transient state.',
  quant='all element values; arrays of 0 to 3 elements for equality, 8 bytes for sinks, allocations of 1 to 5 elements',
  why='Element sizes, null at a particular conversion, or a second flop are not exercised by the tests.',
  files=['base/not_null_body.hpp', 'base/array_body.hpp', 'base/for_all_of_body.hpp', 'base/function_body.hpp', 'base/malloc_allocator.hpp', 'base/monostable_body.hpp', 'base/ranges_body.hpp', 'base/sink_source_body.hpp', 'numerics/transposed_view.hpp'],
  mech=[('not_null', 'base/not_null_body.hpp'), ('operator==', 'base/array_body.hpp'), ('loop', 'base/for_all_of_body.hpp')],
  note='Array equality and sinks are bounded in size. Trusts clang -O1, the symbolic executor and Z3; CHECK comes from a shim.'),
 dict(id='C36', title='Thread pools, recurring threads, callbacks and bundles are correct monitors',
  statement='Whatever other threads do between its critical sections: a thread pool queues each call once, in order, accepts TryAdd only if an idle thread can take it in the state in which it is queued, runs each call exactly once without holding its lock, delivers its result and then '
   'becomes idle, and joins all its threads on destruction; a recurring thread consumes each input at most once, never loses an input put during an action, publishes only results of successful unstopped actions, respects its period, and starts and stops idempotently. '
   'Push-pull callbacks transmit arguments and results intact until shut down; a bundle waits for all its tasks, joins them and returns the first error, or the deadline error if it expires first.',
  quant='every state of the guarded variables at each acquisition of a lock; pools of 0 to 3 threads with 0 to 2 queued calls, bundles of 0 to 3 tasks with every order of completion',
  why='The tests observe a few schedules; the guarantees are about all of them.',
  files=['base/thread_pool_body.hpp', 'base/recurring_thread_body.hpp', 'base/stoppable_thread_body.hpp', 'base/push_pull_callback_body.hpp', 'base/graveyard_body.hpp', 'base/bundle.cpp'],
  mech=[('TryAdd, DequeueCallAndExecute', 'base/thread_pool_body.hpp'), ('RunAction', 'base/recurring_thread_body.hpp'), ('Pull', 'base/push_pull_callback_body.hpp'), ('Toil, Join', 'base/bundle.cpp')],
  note='Each method is verified on its own against the interference of the others (rely: any change of the guarded state); mutexes, threads, promises and statuses are contracts. Races on atomics below the granularity of critical sections and tasks, and liveness, are not covered.'),
 dict(id='C37', title='Pull serialization and push deserialization through bounded queues', level='bounded',
  statement='Under every interleaving of the producer and the consumer, the concatenation of the chunks pulled (uncompressed block by block if compressed) is the serialized message, followed by an empty chunk; a chunk given to the client is not overwritten before the next pull; '
   'chunks lie within the preallocated memory and neither side deadlocks. Symmetrically the bytes pushed reach the deserializer intact, with every completion callback run once, in order, after its bytes have been consumed, and the final one last. '
   'The delegating streams give and take exactly the bytes written, backed up, skipped and read.',
  quant='all contents; messages of 0 to 8 bytes, chunks of 1 to 3 bytes, 3 to 5 chunks (1 to 4 for deserialization), with and without a compressor, all interleavings of critical sections',
  why='An overwritten chunk or an early callback needs a particular interleaving at a particular queue occupancy.',
  files=['base/pull_serializer_body.hpp', 'base/push_deserializer_body.hpp', 'base/sink_source_body.hpp'],
  mech=[('Push, Pull', 'base/pull_serializer_body.hpp'), ('Push, Pull, Start', 'base/push_deserializer_body.hpp')],
  note='Bounded sizes. The protocol buffer library is a contract (it backs up at the end of a message), and so are mutexes and threads; interleaving at the granularity of critical sections.'),
 dict(id='C39', title='Dimensional analysis, units, constants, elementary functions and parsing',
  statement='Arithmetic and comparison on quantities are those of their magnitudes in SI units, and the exponents of products, quotients, powers, roots and derivatives, hence the dimensions of every named quantity, are those of dimensional analysis; serialization records the dimensions injectively and '
   'reading checks them. Every unit, prefix and constant has its documented value and dimensions. Elementary functions on quantities are those on the magnitudes (Pow is iterated multiplication, UnwindFrom is the closest congruent angle), and parsing yields the quantity denoted by the text or fails.',
  quant='all magnitudes and exponents; powers from -21 to 31; for parsing every unit of the table, and texts with all operators and positions of blanks',
  why='A wrong exponent, unit or constant is silent; tests exercise few dimensions and texts.',
  files=['quantities/quantities_body.hpp', 'quantities/dimensions_body.hpp', 'quantities/generators_body.hpp', 'quantities/named_quantities.hpp', 'quantities/si.hpp', 'quantities/si_body.hpp', 'quantities/astronomy.hpp', 'quantities/bipm.hpp', 'quantities/cgs.hpp', 'quantities/constants.hpp',
   'quantities/uk.hpp', 'quantities/parser_body.hpp', 'quantities/tuples_body.hpp', 'base/algebra_body.hpp', 'numerics/elementary_functions_body.hpp'],
  mech=[('operator*, operator/, ReadFromMessage', 'quantities/quantities_body.hpp'), ('DimensionsProductGenerator', 'quantities/dimensions_body.hpp'), ('Pow, UnwindFrom', 'numerics/elementary_functions_body.hpp'), ('ParseQuotientUnit', 'quantities/parser_body.hpp')],
  note='The functions of the C++ library (sin, pow, strtod...) are contracts. Parsing is bounded to the listed texts. Formatting is not covered. Trusts clang -O1, the symbolic executor and Z3.'),
 dict(id='C30', title='Civil calendar dates, times and their texts',
  statement='For all dates of the Julian and Gregorian calendars, from -4712 to 9999, leap years, month lengths, Julian days, ordinals, successors, ISO weeks and the order of dates are those counted from the rules of the calendars, and a date is recovered from its Julian day, its ordinal or its week. '
   'Times of day, leap seconds, ends of day and Julian dates denote what they say, and equality of dates and times is that of the civil moments. '
   'The textual forms denote the date or time that they spell; dates, times and texts which do not exist are rejected.',
  quant='all years, months, days, weeks, ordinals, times; texts: all digits in the recognized shapes',
  why='Tests sample a few dozen dates; leap-year, century and sign errors only show on specific ones.',
  files=['astronomy/date_time.hpp', 'astronomy/date_time_body.hpp', 'base/mod.hpp'],
  mech=[('Date::JD, Date::Ordinal, Date::Week', 'astronomy/date_time_body.hpp'), ('DateParser, TimeParser', 'astronomy/date_time_body.hpp'), ('mod', 'base/mod.hpp')],
  note='Years are decomposed as 400 q + 100 c + 4 o + r, all values of each. Texts are bounded to the listed shapes and lengths. Trusts clang -O1, the symbolic executor and Z3.'),
 dict(id='C31', title='Time scales and epochs',
  statement='The conversions of Julian dates, civil dates and times, and literals to instants in TT, TAI, GPS, Бэйдоу, UTC (with leap seconds since 1972, and rates and steps before) and UT1 agree with the definitions of the scales and their tabulated offsets, and leap seconds exist exactly where they were inserted. '
   'Instants of UT1 are obtained by interpolation in the published tables, and the Earth rotation angle is its defining linear function of UT1.',
  quant='all days and times in the domain of each scale, for representative days for the tables',
  why='Tests check a few instants per scale; offsets change at dozens of dates.',
  files=['astronomy/time_scales.hpp', 'astronomy/time_scales_body.hpp', 'astronomy/epoch.hpp'],
  mech=[('TimeScale, FromUTC', 'astronomy/time_scales_body.hpp'), ('stretchy UTC offsets', 'astronomy/time_scales_body.hpp'), ('ExperimentalEOPC02 lookup', 'astronomy/time_scales_body.hpp')],
  note='Doubles are exact reals in the conversions. The lookup in the UT1 table is checked at selected entries (bounded). Trusts clang -O1, the symbolic executor and Z3.'),
 dict(id='C42', title='Arrays, matrices, their views and decompositions compute what algebra says',
   statement='In real arithmetic, with the elements of a matrix in row-major order: elements, copies, conversions, transposition, extension, truncation, equality and the vector and matrix operations (sums, scalings, inner, outer and matrix products, norms, symmetric products, identity, bilinear form) of fixed-size (stack or heap), run-time-size and triangular arrays, and of block and column views, are those of linear algebra, and an operation on a view changes no other element. The Cholesky and ᵗRDR factors of a symmetric matrix, the Q and R of (unitriangular) Gram-Schmidt, the triangular substitutions and Solve (for regular matrices) satisfy their defining equations. A Householder reflection is orthogonal and maps its vector to a nonnegative multiple of the first basis vector, a Jacobi rotation is orthogonal and annihilates its element, the Hessenberg form is similar to the matrix with zeroes below the subdiagonal, and the Rayleigh quotient is xᵀAx/xᵀx.',
   quant='all real elements; sizes 1 to 4 for the arrays, 1 to 3 or 4 for the algorithms',
   why='Tests compare a few numeric matrices; the laws range over all elements and shapes.',
   files=['numerics/fixed_arrays_body.hpp', 'numerics/unbounded_arrays_body.hpp', 'numerics/matrix_views_body.hpp', 'numerics/transposed_view_body.hpp', 'numerics/matrix_computations_body.hpp'],
   mech=[('elements and operators', 'numerics/fixed_arrays_body.hpp'), ('elements and operators', 'numerics/unbounded_arrays_body.hpp'), ('Block, Column', 'numerics/matrix_views_body.hpp'), ('CholeskyDecomposition, Solve, ClassicalJacobi...', 'numerics/matrix_computations_body.hpp')],
   note='Sizes are instances; rounding is not modelled. FrancisQRStep, RealSchurDecomposition, RayleighQuotientIteration (convergence) and the output operators are not covered.'),
 dict(id='C06', title='Double-word arithmetic: exact transformations, and operators that lose no error',
   statement='TwoSum, TwoDifference, QuickTwoSum, QuickTwoDifference, TwoProduct (with and without FMA) and Veltkamp-Dekker products of doubles, quantities, instants and vectors are, bit for bit, the algorithms whose value and error are known to sum exactly to the result in binary64. The sums, differences, products, quotients, unary and compound operators, Increment, Decrement and Scale of DoublePrecision compose them as the cited double-word algorithms do, so that no error term of an operand or of an intermediate operation is lost. Trunc and Frac are the integral part towards zero and the fractional part of the sum of value and error, whichever has the fractional point; comparisons are lexicographic.',
   quant='all doubles (bit-for-bit, overflow of the exactness theorems excluded); all reals for the operators, Trunc and Frac',
   why='A lost or misapplied error term changes results below the tolerance of most tests, and only for some roundings.',
   files=['numerics/double_precision_body.hpp', 'numerics/double_precision.hpp', 'numerics/fma_body.hpp'],
   mech=[('TwoSum, TwoProduct, operators', 'numerics/double_precision_body.hpp'), ('FusedMultiplySubtract', 'numerics/fma_body.hpp')],
   note='Exactness of the algorithms is a machine-checked Coq lemma over Flocq. The operators are in addition verified over the contracts of the transformations, in real arithmetic; their relative error bounds are cited, not proved.'),
 dict(id='C16', title='Quadrature and the discrete Fourier transform',
   statement='To within rounding, Gauss-Legendre quadrature with n points (1 to 50) integrates every polynomial of degree less than 2 n exactly, Clenshaw-Curtis quadrature with n points (3 to 33) every polynomial of degree less than n, and the midpoint rule is the sum of the values at the middles of the intervals times their width. Automatic Clenshaw-Curtis doubles the intervals until two successive estimates agree to the given relative error or the maximum number of points is reached; the maximum suggested for an angular frequency is at least the given minimum, and otherwise the given number of points per period. For any samples and any power-of-two size (2 to 64) the fast Fourier transform is the defining sum with its frequencies, from any container; the power spectrum holds its squared norms, and Mode is the interval between the neighbours of the largest peak in the given range.',
   quant='all intervals, all coefficients, all integrands (midpoint, automatic), all samples',
   why='Tests integrate a sine and transform a few signals; a wrong node, weight or butterfly shows only on some inputs or sizes.',
   files=['numerics/quadrature_body.hpp', 'numerics/fast_fourier_transform_body.hpp', 'numerics/gauss_legendre_weights.mathematica.h', 'numerics/legendre_roots.mathematica.h'],
   mech=[('GaussLegendre, ClenshawCurtis, AutomaticClenshawCurtis, Midpoint', 'numerics/quadrature_body.hpp'), ('FastFourierTransform', 'numerics/fast_fourier_transform_body.hpp')],
   note='Sizes are instances. The 1 to 16 point Gauss rules are decided symbolically; all 50 also by executing the rules in binary64 on Legendre polynomials. The sines of constant angles are taken as the mathematical functions. Rounding is not modelled.'),
 dict(id='C21', title='Rigid and similar motions, and aggregates of bodies',
   statement='To within rounding, a rigid or similar motion maps a position by its affine map and a velocity by that of the moving frame (rotation, velocity of the origin, angular velocity, rate of dilatation) at that position; inverses and compositions are those of the maps acting on positions and velocities, for both handednesses; the motions of the identity, of a nonrotating frame of opposite handedness and the one derived from another frame are what their definitions say, and the acceleration of an accelerated motion is transported likewise. The mass, centre of mass, linear motion, angular momentum and inertia tensor of a mechanical system of one or two bodies are the sums over its bodies.',
   quant='all positions, velocities, rotations, angular velocities, dilatations, masses and inertias',
   why='Tests sample a few motions with a tolerance; a sign or an order of composition can cancel in symmetric cases.',
   files=['physics/rigid_motion_body.hpp', 'physics/similar_motion_body.hpp', 'physics/mechanical_system_body.hpp'],
   mech=[('RigidMotion, AcceleratedRigidMotion', 'physics/rigid_motion_body.hpp'), ('SimilarMotion', 'physics/similar_motion_body.hpp'), ('MechanicalSystem', 'physics/mechanical_system_body.hpp')],
   note='Serialization, the diagonalization of inertia and MakeNonRotatingMotion between frames of the same handedness are not covered. Rounding is not modelled.'),
 dict(id='C23', title='Massive, rotating and oblate bodies',
   statement='The gravitational parameter and mass of a body determine one another, and radii, angle, angular velocity, axes, pole angles and reference radius of a rotating body are those it was constructed with; its angle grows linearly from the reference instant. The polar and biequatorial or equatorial axes and the rotations from the surface frame and to the celestial frame are those of the right ascension, declination and angle of the body, and are inverse and orthogonal as defined. An oblate body constructed from j2 has the coefficient of degree 2 that j2 defines, and zero masses, zero angular frequencies and nonpositive j2 are refused.',
   quant='all parameters, angles and instants',
   why='Tests construct a few bodies; errors of axis or sign depend on the orientation.',
   files=['physics/massive_body_body.hpp', 'physics/rotating_body_body.hpp', 'physics/oblate_body_body.hpp'],
   mech=[('MassiveBody::Parameters', 'physics/massive_body_body.hpp'), ('RotatingBody', 'physics/rotating_body_body.hpp'), ('OblateBody::Parameters', 'physics/oblate_body_body.hpp')],
   note='The trigonometric functions are constrained by cos² + sin² = 1. Serialization is not covered.'),
 dict(id='C25', title='Geopotential: the acceleration is the damped gradient of the spherical harmonics',
   statement='To within rounding, for any normalized coefficients C and S up to degree 8 and any rotation about the third axis (for the oblateness, about any axis), the potential and acceleration of the geopotential at a point off the axis are those of the sum of the spherical harmonics (from degree 2, without the harmonic of degree 2 and order 1), as given by the recurrences of the solid harmonics. On the axis the acceleration is that of the zonal harmonics. Each damped harmonic is multiplied by 1 below its inner threshold, 0 beyond its outer threshold (three times the inner one) and the continuously differentiable cubic in between, the acceleration being the gradient of the damped potential; the thresholds of a degree are where the greatest bound of its harmonics (or of higher degrees, and for the sectoral one of degree 2 and order 2) meets the tolerance.',
   quant='all positions, coefficients, rotations, tolerances and thresholds',
   why='Tests compare a few fields and points; a wrong factor in one degree or on one side of a threshold is easily missed.',
   files=['physics/geopotential_body.hpp', 'physics/harmonic_damping_body.hpp', 'numerics/legendre_normalization_factor.mathematica.h', 'physics/oblate_body_body.hpp'],
   mech=[('GeneralSphericalHarmonicsAcceleration', 'physics/geopotential_body.hpp'), ('ComputeDampedRadialQuantities', 'physics/harmonic_damping_body.hpp'), ('Geopotential::Geopotential', 'physics/geopotential_body.hpp')],
   note='Degrees (2 to 6 zonal, 2 to 8 general, 2 and 3 damped) are instances. The table of maxima of the Legendre functions is trusted. Rounding is not modelled.'),
]
