"""Property texts. Edit here, then run tools/gen_meta.py."""
AI = "abstract interpretation of LLVM IR compiled from the current headers into guarded value graphs, decided by exact polynomial normal forms"
BASE = ("Trusted: clang 18 front end and its -O1 pipeline, the IR dumper, the abstract interpreter's IR semantics, the polynomial normaliser and the oracle written from the mathematical definition. ")
REAL = "Element arithmetic is interpreted over exact reals (rounding is not modelled). "
PROPS = []


def P(id, title, statement, over, forall, why, files, mech, tech=AI, note="", na=None, level="other"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why,
                      files=["include/nil/crypto3/" + f for f in files], mech=[(a, "include/nil/crypto3/" + b) for a, b in mech],
                      tech=tech, note=note, na=na, level=level))


T_ALG = "The two existing tests compare a handful of literal vectors and matrices at compile time; they cannot range over all element values, dimensions and zero/sign patterns."

P("A01", "Vector arithmetic is componentwise and reductions are exact",
  "Every arithmetic operator on fixed-size vectors returns the componentwise result in argument order (sum, product, quotient, scalar forms on both sides, conjugate, real and imaginary parts). Reductions (inner product, sum, fold, minimum, maximum and their indices, equality) return the value of their mathematical definition for every content.",
  ["inputs", "programs"], "all element values (as reals or complex pairs), every weak ordering/equality pattern, dimensions 1..12 (quick: 1,2,3,5,8)", T_ALG,
  ["algebra/vector/operators.hpp", "algebra/vector/math.hpp", "algebra/vector/utility.hpp", "algebra/vector/vector.hpp"],
  [("elementwise", "algebra/vector/utility.hpp"), ("dot/sum/min/max", "algebra/vector/math.hpp")],
  note=BASE + REAL + "Per dimension the result is proved as a polynomial identity for all inputs; dimensions are enumerated.")
P("A02", "Matrix arithmetic computes the defined products, transposes and norms",
  "Matrix sums, Hadamard products and quotients, scalar operations, the matrix product, matrix-vector and vector-matrix products, the Kronecker product, (Hermitian) transpose, trace, and the maximum absolute row and column sums equal their mathematical definition entry by entry. Equality of matrices holds exactly when all entries are equal.",
  ["inputs", "programs"], "all entry values, a family of shapes including non-square and single-row/column ones", T_ALG,
  ["algebra/matrix/operators.hpp", "algebra/matrix/math.hpp", "algebra/matrix/matrix.hpp"],
  [("matmul/kron/transpose/macs/mars", "algebra/matrix/math.hpp"), ("operators", "algebra/matrix/operators.hpp")],
  note=BASE + REAL + "Shapes are enumerated; within a shape the identity is proved for all entries.")
P("A03", "Layout operations move exactly the documented elements",
  "Reshaping, tiling, concatenation, slicing, rotation, row and column extraction and swapping, generation from indices, fills and identities place at every position exactly the source element the documentation names, and touch no other element. This holds for every shape, including non-square ones, and every in-range index argument.",
  ["inputs", "configurations"], "all element values, all in-range index arguments for each of the enumerated shapes", T_ALG,
  ["algebra/matrix/utility.hpp", "algebra/vector/utility.hpp", "algebra/matrix/matrix.hpp", "algebra/vector/vector.hpp"],
  [("swaprow/swapcol/submat/horzcat/vertcat/repmat/reshape", "algebra/matrix/utility.hpp"), ("rotate/slice/iota/linspace", "algebra/vector/utility.hpp")],
  note=BASE + "Index arguments and shapes are enumerated; element values are symbolic.")
P("A04", "Elimination yields the true echelon form, rank, determinant and inverse",
  "The reduced row echelon form, rank, determinant and inverse equal the exact ones for every matrix whose entries are either exactly zero or not negligible, in every zero pattern, rank-deficient family and pivot order. A singular matrix is never inverted and an invertible one is never rejected.",
  ["inputs"], "all entry values grouped by zero pattern, linear dependency and pivot order; shapes up to 3x3 (thorough: all zero patterns)", T_ALG,
  ["algebra/matrix/math.hpp"], [("gauss_jordan_impl", "algebra/matrix/math.hpp"), ("rref/rank/det/inverse", "algebra/matrix/math.hpp")],
  note=BASE + REAL + "The tolerance is modelled as a positive infinitesimal; ties in pivot magnitude follow the strict order of either side.")
P("A05", "Out-of-range and ill-dimensioned requests are rejected",
  "Accessing a row, column, slice or submatrix that does not lie inside the object raises an error instead of reading other memory, for every offset including those near the top of the index range. Operations whose operand dimensions do not agree, and inverses of singular matrices, are refused (at compile time where dimensions are static).",
  ["inputs", "programs"], "all shapes and offsets enumerated around every boundary incl. wrap-around; one ill-formed and one well-formed program per operation", T_ALG,
  ["algebra/matrix/utility.hpp", "algebra/vector/utility.hpp", "algebra/matrix/matrix.hpp", "detail/same_value.hpp"],
  [("submat/slice bound checks", "algebra/matrix/utility.hpp"), ("all_same_value", "detail/same_value.hpp")],
  tech="bounds effects of abstract interpretation over LLVM IR plus compile-fail witnesses (each with a well-formed twin)",
  note=BASE + "Compile-fail witnesses are paired with an accepted twin so that an unrelated compile error cannot discharge them.")
P("A06", "Scalar powers, absolute values and conjugates are exact",
  "Raising to an integer power returns the base multiplied by itself that many times (its reciprocal for negative exponents, one for exponent zero). Absolute values are the non-negative magnitude (for complex arguments the root of the sum of squares), conjugation negates exactly the imaginary part, and roots reject negative arguments and map zero to zero.",
  ["inputs"], "all bases symbolically, exponents -40..64 and powers of two around 128/256 (thorough: -300..519)", T_ALG,
  ["algebra/scalar/math.hpp"], [("exponentiate/abs/conj/sqrt/nthroot", "algebra/scalar/math.hpp")],
  note=BASE + REAL + "The numeric iteration inside the square root is not analysed (see N01).")
P("N01", "Iterative roots converge to the correctly rounded value",
  "Square and n-th roots terminate for every finite non-negative argument and return the correctly rounded result.",
  ["inputs"], "all finite non-negative doubles and degrees", T_ALG, ["algebra/scalar/math.hpp"], [("sqrt/nthroot", "algebra/scalar/math.hpp")],
  na="Termination and accuracy of a floating-point Newton iteration depend on runtime rounding of every iterate; no sound static bound is in reach (the n-th root iteration is in fact known to enter 2-cycles for some inputs).")

# ------------------------------------------------------------------ group law on curves
FIELD = "Field elements are symbolic: identities are proved over the field of fractions (characteristic 0 with the curve equation as rewrite rule), hence for every field of large characteristic; exceptional loci found in the code's own branch conditions are analysed as further strata. "
T_CUR = "No test in the tree instantiates a curve (the curve tests need an absent dependency); even a full test samples a few points, never the loci where formulas degenerate."
FM = "algebra/curves/detail/forms/"
SWJ, SWP, TE_ = FM + "short_weierstrass/", FM + "short_weierstrass/projective/", FM + "twisted_edwards/"
CLS_F = [SWJ + x + "/element_g1.hpp" for x in ("jacobian", "jacobian_with_a4_0", "jacobian_with_a4_minus_3", "projective", "projective_with_a4_minus_3")] + [
    SWJ + "element_g1_affine.hpp", TE_ + "extended_with_a_minus_1/element_g1.hpp", TE_ + "inverted/element_g1.hpp", TE_ + "element_g1_affine.hpp", FM + "montgomery/element_g1_affine.hpp", "algebra/curves/detail/edwards/element_g2.hpp"]
P("C01", "Point addition is the group law for every pair of points",
  "For every curve form and coordinate system, adding two points gives the chord-and-tangent (or Edwards) sum of the points the operands represent, whatever projective representative is used. This includes equal points, opposite points, points of order two and the point at infinity on either side, and both the operator and the in-place form. The second operand is never modified.",
  ["inputs", "programs"], "all points in all representations of all 11 element classes and 8 formula families, every special stratum", T_CUR,
  [SWJ + "jacobian/add_2007_bl.hpp", SWJ + "jacobian_with_a4_0/add_2007_bl.hpp", SWJ + "jacobian_with_a4_minus_3/add_2007_bl.hpp", SWP + "add_1998_cmo_2.hpp", TE_ + "extended_with_a_minus_1/add_2008_hwcd_3.hpp", TE_ + "inverted/add_2008_bbjlp.hpp", FM + "edwards/inverted/add_2007_bl.hpp"] + CLS_F,
  [("add formulas (process)", SWJ + "jacobian/add_2007_bl.hpp"), ("operator+ / operator+=", SWJ + "jacobian/element_g1.hpp")], note=BASE + FIELD)
P("C02", "Point doubling is the group law for every point",
  "Doubling a point in any coordinate system yields the tangent-rule double of the represented point, for every representative. The point at infinity stays at infinity and points of order two give the point at infinity, whether doubling is requested directly or happens inside an addition of equal points.",
  ["inputs", "programs"], "all points in all representations of all 11 element classes and 8 formula families, every special stratum", T_CUR,
  [SWJ + "jacobian/dbl_2007_bl.hpp", SWJ + "jacobian_with_a4_0/dbl_2009_l.hpp", SWJ + "jacobian_with_a4_minus_3/dbl_2007_bl.hpp", SWP + "dbl_2007_bl.hpp", TE_ + "extended_with_a_minus_1/dbl_2008_hwcd.hpp", TE_ + "inverted/dbl_2008_bbjlp.hpp", FM + "edwards/inverted/dbl_2007_bl.hpp"] + CLS_F,
  [("doubling formulas (process)", SWJ + "jacobian/dbl_2007_bl.hpp"), ("double_inplace", SWJ + "jacobian/element_g1.hpp")], note=BASE + FIELD)
P("C03", "Mixed addition of a normalised point is the group law",
  "Adding a point whose Z coordinate is one through the mixed-addition entry point gives the same point as ordinary addition. This holds for every accumulator, including the point at infinity, the same point, and its negative.",
  ["inputs", "programs"], "all accumulators in all representations, all normalised addends, every special stratum", T_CUR,
  [SWJ + "jacobian/madd_2007_bl.hpp", SWJ + "jacobian_with_a4_0/madd_2007_bl.hpp", SWJ + "jacobian_with_a4_minus_3/madd_2007_bl.hpp", TE_ + "extended_with_a_minus_1/madd_2008_hwcd_2.hpp", TE_ + "inverted/madd_2008_bbjlp.hpp", FM + "edwards/inverted/madd_2007_bl.hpp"] + CLS_F[:5] + CLS_F[6:8] + CLS_F[10:],
  [("mixed_add", SWJ + "projective/element_g1.hpp"), ("madd formulas", SWJ + "jacobian/madd_2007_bl.hpp")], note=BASE + FIELD)
P("C04", "Point equality, negation, subtraction and the identity agree with the group",
  "Two point objects compare equal exactly when they represent the same group element, independent of the projective representative, and only the point at infinity tests as zero. Negation gives the inverse element (including the point at infinity), subtraction is addition of the inverse, and the default, zero and generator elements are the ones the parameters define.",
  ["inputs", "programs"], "all pairs of points in all representations of all 11 element classes", T_CUR, CLS_F,
  [("operator== / is_zero / operator- / one / zero", SWJ + "jacobian/element_g1.hpp")], note=BASE + FIELD)
P("C05", "Coordinate conversions preserve the represented point",
  "Converting a point to affine, projective, extended, inverted or (twisted Edwards to and from Montgomery) other-form coordinates gives a representation of the same group element, and the point at infinity converts to the point at infinity. Round trips return the original point.",
  ["inputs", "programs"], "all points outside the birational maps' exceptional set, in all representations", T_CUR, CLS_F,
  [("to_affine / to_projective / to_inverted / to_extended_with_a_minus_1", TE_ + "element_g1_affine.hpp"), ("to_montgomery / to_twisted_edwards", FM + "montgomery/element_g1_affine.hpp")], note=BASE + FIELD)
P("C06", "Well-formedness holds exactly for points on the curve",
  "The well-formedness test of every element class accepts every representation of every curve point including the point at infinity, and rejects every other coordinate tuple. For redundant coordinates it also rejects inconsistent auxiliary coordinates.",
  ["inputs"], "all coordinate tuples and all curve parameters, for each element class that offers the test", T_CUR, [f for f in CLS_F if not f.endswith("short_weierstrass/element_g1_affine.hpp")],
  [("is_well_formed", SWJ + "jacobian/element_g1.hpp")], note=BASE + FIELD + "The code's own equality guards are shown to be a unit multiple of the curve equation. ")

# ------------------------------------------------------------------ fields
EL = "algebra/fields/detail/element/"
ELS = [EL + f"fp{x}.hpp" for x in ("2", "3", "4", "6_2over3", "6_3over2", "12_2over3over2")]
T_FLD = "No stable test instantiates a field (the field tests need an absent dependency); even with it, tests sample a few elements of a few concrete fields."
TOW = "The towers are instantiated over an exact symbolic base field with small pairwise distinct structure constants, so coefficients that a concrete curve makes equal are told apart; coordinates are symbolic, so each identity holds for all elements. "
P("F01", "Prime-field elements compute in the field, whatever the operand kinds",
  "Sums, differences, products, negation, doubling, squaring, inversion, increments and decrements (prefix and postfix, with their returned values), compound and mixed integer-element operators return the field value. Construction from integers reduces modulo the prime, equality and order compare canonical representatives, powers equal repeated multiplication for every exponent kind, is_square is Euler's criterion (zero is a square), and equal elements hash equally.",
  ["inputs", "programs"], "all element values of three prime fields of different width; integer operands and exponents enumerated up to 256 bits", T_FLD, [EL + "fp.hpp", EL + "operations.hpp", "algebra/fields/params.hpp"],
  [("element_fp", EL + "fp.hpp"), ("mixed operators", EL + "operations.hpp")], note=BASE + "Residue arithmetic of the absent multiprecision dependency is modelled as exact arithmetic modulo the (concrete) prime. ")
P("F02", "Extension-field addition and multiplication are those of the quotient ring",
  "In the quadratic, cubic, quartic, sextic (both towers) and twelfth-degree extensions, sums, differences, negation, doubling, products, products with scalars of every subfield on either side, compound assignments (also with the object itself as operand), zero, one, equality, construction and hashing agree with arithmetic modulo the defining polynomial. Operands are left unchanged.",
  ["inputs", "programs"], "all coordinates of all elements of the six element classes", T_FLD, ELS, [("operator* / operator*=", EL + "fp6_3over2.hpp"), ("operators", EL + "fp2.hpp")], note=BASE + TOW)
P("F03", "Squares and inverses in extension fields are exact",
  "The specialised squaring formulas equal the product of an element with itself, an element times its inverse is one for every invertible element, and the unitary inverse negates exactly the upper half of the coordinates.",
  ["inputs"], "all elements of the six element classes", T_FLD, ELS, [("squared / inversed / unitary_inversed", EL + "fp12_2over3over2.hpp")], note=BASE + TOW)
P("F04", "The Frobenius map multiplies each coordinate by its own table entry",
  "For every power, the Frobenius map conjugates each coordinate in its subfield and multiplies it by the coefficient that the tables list for that power and that coordinate, the power being reduced modulo the extension degree. Power zero is the identity.",
  ["inputs", "configurations"], "all elements of the six element classes, powers 0..degree and beyond, all integer kinds of the power", T_FLD, ELS, [("Frobenius_map", EL + "fp12_2over3over2.hpp")], note=BASE + TOW + "That the published tables hold the right constants is property K03. ")
P("F05", "Sparse and special products equal the general product",
  "Multiplication by sparse line values (mul_by_023, mul_by_024, mul_by_045, mul_by_2345), by the non-residue, by the adjoined element, by single base-field coordinates and cyclotomic squaring give the same element as the general multiplication by the corresponding full element. For the sparse operands this holds whenever the documented coordinates are zero, for cyclotomic squaring whenever the element satisfies the cyclotomic relation.",
  ["inputs"], "all elements of the classes that offer the operation", T_FLD, ELS, [("mul_by_045 / mul_by_024", EL + "fp12_2over3over2.hpp"), ("mul_by_023 / cyclotomic_squared", EL + "fp4.hpp"), ("mul_by_2345", EL + "fp6_2over3.hpp")], note=BASE + TOW)
P("F06", "Powers, cyclotomic powers and square roots follow the exponent laws",
  "Raising an extension-field element to an integer gives the element multiplied by itself that many times for every exponent including zero and one, and cyclotomic exponentiation gives the same on unitary elements. The square root of every square terminates and squares back to its argument (zero included), and is_square accepts exactly zero and the squares.",
  ["inputs"], "exponents 0..35 and selected ones up to 65 bits; every element of cyclic groups of order 2^s*t for several s, t", T_FLD, ELS + ["algebra/fields/detail/exponentiation.hpp"], [("pow / sqrt / is_square", EL + "fp2.hpp"), ("power", "algebra/fields/detail/exponentiation.hpp"), ("cyclotomic_exp", EL + "fp4.hpp")],
  tech="abstract interpretation of LLVM IR over the exponent domain (elements abstracted to discrete logarithms in a cyclic group)", note=BASE + "Multiplication, squaring and inversion are abstracted to addition, doubling and negation of discrete logarithms (justified by F02, F03, F05); exponents and group orders are enumerated. ")

# ------------------------------------------------------------------ published constants
CA = "constant evaluation of the current headers (compile-time initialisers read from LLVM IR), decided by exact number-theoretic relations and closed formulas"
T_CON = "No test reads a parameter constant; a wrong digit only shows as failing cryptography in a curve nobody sampled, or as a silently weaker group."
K_N = "Trusted: clang 18 front end, the IR dumper, the interpreter's constant semantics, the exact-integer stand-in for the absent multiprecision library, Miller-Rabin with fixed bases. "
FP_ = "algebra/fields/"
P("K01", "Field moduli and their derived constants are the published ones",
  "Every prime field's modulus is a prime of the declared width, equal to the published closed formula where a standard defines one. The declared bit counts, the half group order (p-1)/2 and the arity derive from that modulus, and each curve's base and scalar field belong together (Hasse interval).",
  ["configurations"], "every field header and every declared width", T_CON,
  [FP_ + x for x in ("alt_bn128/base_field.hpp", "bls12/base_field.hpp", "mnt4/base_field.hpp", "secp/secp_k1/base_field.hpp", "secp/secp_r1/scalar_field.hpp", "brainpool_r1/base_field.hpp", "curve25519/base_field.hpp", "goldilocks64/base_field.hpp", "modp_ietf.hpp", "ffdhe_ietf.hpp", "dsa_botan.hpp")],
  [("modulus / group_order_minus_one_half", FP_ + "bls12/base_field.hpp"), ("modulus", FP_ + "modp_ietf.hpp")], tech=CA, note=K_N + "The field headers depend on an absent library and are compiled against a stand-in. ")
P("K02", "Curve parameters define a curve of the stated group order",
  "For every curve, the generator lies on the non-singular curve its coefficients define, has the stated prime order and the stated cofactor, and the zero element is the group identity's marker. Where a curve is published in two forms, the coefficients and generators of both forms correspond under the birational map.",
  ["configurations"], "every curve parameter header and width, both G1 and G2", T_CON,
  ["algebra/curves/detail/" + x for x in ("bls12/381/short_weierstrass_params.hpp", "bls12/377/short_weierstrass_params.hpp", "alt_bn128/254/short_weierstrass_params.hpp", "mnt4/298/short_weierstrass_params.hpp", "mnt6/298/short_weierstrass_params.hpp", "secp_k1/256/short_weierstrass_params.hpp", "secp_r1/256/short_weierstrass_params.hpp", "pallas/params.hpp", "vesta/params.hpp", "jubjub/params.hpp", "babyjubjub/params.hpp", "curve25519/params.hpp", "edwards/183/twisted_edwards_params.hpp", "edwards/183/edwards_params.hpp", "edwards/basic_policy.hpp")]
  + ["algebra/curves/" + x + ".hpp" for x in ("brainpool_r1", "gost_A", "sm2p_v1", "frp_v1", "x962_p")],
  [("coefficients and generators", "algebra/curves/detail/bls12/381/short_weierstrass_params.hpp")], tech=CA, note=K_N + "Five curve families whose headers do not compile at all (brainpool_r1, gost_A, sm2p_v1, frp_v1, x962_p) are read from their literals in the syntax. ")
P("K03", "Extension-field parameters fit the tower they are used in",
  "In every field extension, the non-residue makes the defining polynomial irreducible, each Frobenius coefficient is the power of the non-residue its table position stands for, and the square-root parameters (s, t, a non-square and its power, half the group order) derive from the group order.",
  ["configurations"], "every extension parameter header (degrees 2, 3, 4, 6 and 12)", T_CON,
  [FP_ + "detail/extension_params/" + x for x in ("bls12/fp2.hpp", "bls12/fp6_3over2.hpp", "bls12/fp12_2over3over2.hpp", "alt_bn128/fp2.hpp", "alt_bn128/fp6_3over2.hpp", "alt_bn128/fp12_2over3over2.hpp", "bn128/fp2.hpp", "bn128/fp6_3over2.hpp", "bn128/fp12_2over3over2.hpp", "mnt4/fp2.hpp", "mnt4/fp4.hpp", "mnt6/fp3.hpp", "mnt6/fp6_2over3.hpp", "edwards/fp3.hpp", "edwards/fp6_2over3.hpp")],
  [("Frobenius_coeffs_c1 / non_residue / nqr_to_t", FP_ + "detail/extension_params/bls12/fp2.hpp")], tech=CA, note=K_N)
P("K04", "FFT roots of unity and generators have their stated order",
  "For every field with arithmetic parameters, the multiplicative generator is a quadratic non-residue outside the trivial subgroups, the root of unity has order exactly 2^s for the largest s dividing the group order, and the remaining constants (Montgomery radix powers, square-root parameters, DSA group order and generator) derive from the modulus.",
  ["configurations"], "every arithmetic_params header and declared width", T_CON,
  [FP_ + f"arithmetic_params/{x}.hpp" for x in ("alt_bn128", "bls12", "bn128", "dsa_botan", "dsa_jce", "edwards", "goldilocks64", "mnt4", "mnt6", "pallas", "vesta")],
  [("root_of_unity / multiplicative_generator", FP_ + "arithmetic_params/bls12.hpp")], tech=CA, note=K_N)

# ------------------------------------------------------------------ scalar multiplication, multi-exponentiation
T_MUL = "No stable test performs a scalar multiplication; even a full test samples a few random scalars, never the bit patterns, lengths and list shapes at which loops and windows end."
LINC = "Group elements are formal integer combinations of symbolic base points (the group law itself is C01-C04); scalars and list shapes are enumerated, so control flow over their bits is decided exactly. Residue and integer arithmetic of the absent dependency is modelled exactly. "
P("C07", "Scalar multiplication adds the point to itself exactly that many times",
  "Multiplying a group element by an integer or a scalar-field element, on either side and in place, gives the sum of that many copies of the element for every scalar including zero, one and the largest. This holds whether or not the element is normalised or its form offers mixed addition, and operands other than an in-place target are left unchanged. An element constructed or assigned from an integer is that multiple of the generator.",
  ["inputs"], "all points symbolically (normalised and not), scalars 0..39 and 33 selected ones up to 255 bits, every operand kind; six integers for each of the library's groups", T_MUL,
  ["algebra/curves/detail/scalar_mul.hpp"], [("scalar_mul / operator* / operator*=", "algebra/curves/detail/scalar_mul.hpp")], tech="abstract interpretation of LLVM IR over the domain of formal linear combinations", note=BASE + LINC)
P("C08", "Multi-exponentiation equals the sum of the individual products",
  "Multi-exponentiation by every method (plain, bucket, Bos-Coster), with any chunk count and in its mixed-addition variant, equals the sum of scalar times base for every list, including empty lists, zero and repeated scalars. Windowed and wNAF exponentiation, fixed-base tables, batch exponentiation (with coefficient), window selection, batch normalisation and the inner product equal their definition.",
  ["inputs"], "all base points symbolically; 33 scalar lists of length 0..33 with zero/equal/extreme patterns, chunk counts 1..4, windows 1..8, scalar sizes 1..255 bits", T_MUL,
  ["algebra/multiexp/multiexp.hpp", "algebra/multiexp/policies.hpp", "algebra/multiexp/inner_product.hpp", "algebra/wnaf.hpp"],
  [("multiexp / get_window_table / windowed_exp / batch_*", "algebra/multiexp/multiexp.hpp"), ("multiexp_method_*", "algebra/multiexp/policies.hpp"), ("fixed_window_wnaf_exp / opt_window_wnaf_exp", "algebra/wnaf.hpp")], tech="abstract interpretation of LLVM IR over the domain of formal linear combinations", note=BASE + LINC)

# ------------------------------------------------------------------ traits, utilities, number helpers, wiring
T_UT = "The existing tests instantiate none of these templates; their guarantees range over all types, placements and argument values."
P("T01", "Type classification traits accept exactly the types they describe",
  "is_curve, is_curve_group, is_field, is_extended_field, is_field_element, is_extended_field_element, is_group_element, is_g1/is_g2_group_element, has_mixed_add, is_complex and the range, container, iterator, codec, cipher, hash, mac, kdf and passhash traits hold exactly for types that offer every member the concept requires. Missing any single one, or having it as another kind of member, makes the trait false; the library's own curves, groups, fields and elements are classified accordingly.",
  ["programs", "configurations"], "every trait, every required member removed or replaced by a near miss, and all compiling curve families", T_UT,
  ["algebra/type_traits.hpp", "detail/type_traits.hpp"], [("is_curve / is_field / is_group_element / is_complex", "algebra/type_traits.hpp"), ("has_* / is_hash / is_block_cipher", "detail/type_traits.hpp")],
  tech="truth tables of type-level queries, evaluated by the compiler and read from LLVM IR", note=BASE + "Near-miss member kinds are a fixed list. ")
P("D01", "Byte, shift and array helpers compute their defined values",
  "make_array copies a range of matching length in order, make_uint_t and extract_uint_t pack and extract words most significant first, the unbounded shifts give zero once the (compile-time, or right-shift) amount reaches the width, low_bits and high_bits mask exactly the requested bits. strxor is the bytewise exclusive or with inputs untouched, the state adder adds componentwise over the shorter length, and the complex/real/integral assertion macros reject exactly the types outside their class.",
  ["inputs", "programs"], "all widths 8..64, shift amounts around every boundary, lengths 0..17, all listed types", T_UT,
  ["detail/make_array.hpp", "detail/make_uint_t.hpp", "detail/unbounded_shift.hpp", "detail/state_adder.hpp", "detail/stream_endian.hpp", "detail/assert.hpp", "detail/same_value.hpp", "detail/inline_variable.hpp", "algebra/algorithms/strxor.hpp"],
  [("unbounded_shl / unbounded_shr / low_bits / high_bits", "detail/unbounded_shift.hpp"), ("make_uint_t / extract_uint_t", "detail/make_uint_t.hpp"), ("strxor", "algebra/algorithms/strxor.hpp")],
  tech="abstract interpretation of LLVM IR on enumerated widths and patterns, plus compile-accept/compile-reject witnesses", note=BASE + "Integer arguments are enumerated bit patterns, array contents symbolic. ")
P("D02", "Prime search, factorisation and totient agree with number theory",
  "first_prime returns the smallest prime above 2^n congruent to 1 modulo m; next_prime and previous_prime return the nearest prime reached in steps of m; prime_factorize collects exactly the distinct prime factors (0 and 1 have none) and keeps what the set already held. totient counts the coprimes, totient_list lists them in ascending order, and primality is decided with enough rounds to be trusted.",
  ["inputs"], "n up to 127 bits and steps up to 4096, integers 0..40 and selected ones up to 38 bits, every way of splitting off a factor", T_UT,
  ["algebra/primes.hpp", "algebra/totient.hpp"], [("first_prime / next_prime / previous_prime / prime_factorize", "algebra/primes.hpp"), ("totient / totient_list", "algebra/totient.hpp")],
  note=BASE + "The randomised splitting (Pollard rho) is replaced by its contract 'some proper factor of a composite', the probabilistic primality test by exact primality (adversarial below 20 rounds); arguments are enumerated. ")
P("R01", "Random elements use the full range once per coordinate",
  "A random prime-field element is the reduction of one draw from the distribution over [0, p-1] of the given generator; a random extension-field element fills every coordinate, in order, with its own draw. A random group element is the generator multiplied by a random scalar of the scalar field.",
  ["inputs"], "every outcome of the generator, fields of degree 1..12 in every tower shape, groups", T_UT,
  ["algebra/random_element.hpp"], [("random_element", "algebra/random_element.hpp")], note=BASE + "Draws are fresh unknowns; statistical quality of the generator is out of reach. ")
P("C09", "The subgroup test accepts exactly the points killed by the group order",
  "subgroup_check of a point returns true exactly when the curve's subgroup order q times the point is the point at infinity, for points inside and outside the subgroup and for the point at infinity itself. The point is not modified.",
  ["inputs"], "every element of cyclic groups of eight order/cofactor combinations", T_UT,
  ["algebra/curves/detail/subgroup_check.hpp"], [("subgroup_check", "algebra/curves/detail/subgroup_check.hpp")], note=BASE + "Group elements are discrete logarithms in enumerated cyclic groups (the group law is C01-C04, the product C07). ")
P("P04", "Pairing front-end functions apply the policy's steps in the defined order",
  "precompute_g1/g2, miller_loop, double_miller_loop, final_exponentiation and pair return exactly what the corresponding policy step gives for their arguments in order; pair is the Miller loop of the two precomputations and pair_reduced its final exponentiation, except that both are one when either point is the identity. This holds for the curve's default policy and for any policy the caller names.",
  ["inputs", "programs"], "all arguments, default and caller-supplied policies", T_UT,
  ["algebra/algorithms/pair.hpp", "algebra/pairing/pairing_policy.hpp"], [("pair / pair_reduced / double_miller_loop", "algebra/algorithms/pair.hpp")], note=BASE + "Policies are mocks whose steps are injective asymmetric polynomials, so a swapped, dropped or repeated step changes the result. ")

# ------------------------------------------------------------------ pairings
T_PAIR = "No existing test evaluates a pairing; correctness must hold for every pair of points, and a wrong line, exponent bit or Frobenius twist still yields a plausible field element."
LOGD = "Field elements are exact symbolic scalars, target-group elements are known by their logarithm as a linear form. "
_PF = ["algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/", "algebra/pairing/forms/short_weierstrass/projective/", "algebra/pairing/mnt4/298/", "algebra/pairing/mnt6/298/", "algebra/pairing/edwards/183/"]
P("P01", "The final exponentiation raises to the defined exponent",
  "For BLS12-381, MNT4-298, MNT6-298 and Edwards-183 the final exponentiation of every invertible target-field element is that element raised to a fixed multiple, coprime to r, of (p^k - 1)/r (three times it for BLS12-381, exactly it otherwise). Cyclotomic shortcuts are applied only to elements already in the cyclotomic subgroup, and the input is not modified.",
  ["inputs"], "every non-zero target-field element, four pairing families", T_PAIR,
  [_PF[0] + "final_exponentiation.hpp", _PF[2] + "final_exponentiation.hpp", _PF[3] + "final_exponentiation.hpp", _PF[4] + "final_exponentiation.hpp"],
  [("final_exponentiation::process", _PF[0] + "final_exponentiation.hpp")], tech="abstract interpretation of LLVM IR over the logarithm domain of the target group", note=BASE + LOGD + "Field operations themselves are F02-F06. ")
P("P02", "Precomputation and Miller loop evaluate the true tangent and chord lines",
  "For BLS12-381, MNT4-298, MNT6-298 and Edwards-183 the G1 precomputation holds the point's affine data and the G2 precomputation (of a point other than the identity) holds one line per loop step: the tangent at, or the chord through, the running multiple of the point, up to a factor the final exponentiation kills. The Miller loop multiplies exactly these lines, evaluated at the G1 point, squaring between steps, for every loop count and sign.",
  ["inputs"], "all points (symbolically for short loops, random-point polynomial identity testing for long ones and the real loop count), 17 loop counts up to twelve bits, both signs", T_PAIR,
  [d + f for d in (_PF[0], _PF[1], _PF[4]) for f in ("ate_precompute_g1.hpp", "ate_precompute_g2.hpp")] + [d + "ate_miller_loop.hpp" for d in (_PF[0], _PF[2], _PF[3], _PF[4])],
  [("ate_precompute_g2 / doubling_step / mixed_addition_step", _PF[0] + "ate_precompute_g2.hpp"), ("ate_miller_loop", _PF[0] + "ate_miller_loop.hpp")], tech="abstract interpretation of LLVM IR; lines compared as polynomials modulo the curve equation, the loop over the logarithm domain", note=BASE + LOGD)
P("P03", "The double Miller loop is the product of two Miller loops",
  "For BLS12-381, MNT4-298, MNT6-298 and Edwards-183 the double Miller loop of two precomputed pairs returns the product of the two single Miller loops, for every loop count and sign and for all precomputed values.",
  ["inputs"], "all precomputed line and point values, 17 loop counts of every bit pattern up to four bits and selected longer ones, both signs, and the real loop counts", T_PAIR,
  [d + "ate_double_miller_loop.hpp" for d in (_PF[0], _PF[2], _PF[3], _PF[4])],
  [("ate_double_miller_loop", _PF[0] + "ate_double_miller_loop.hpp")], tech="abstract interpretation of LLVM IR over the logarithm domain of the target group", note=BASE + LOGD)
P("P05", "Precomputed pairing values are equal exactly when all their parts are",
  "Two precomputed G1 or G2 values (and their line coefficients) compare equal exactly when every stored coordinate, twisted coordinate and line coefficient agrees and the coefficient lists have the same length, for all values and list lengths and in both argument orders.",
  ["inputs"], "all member values, list lengths 0..4, four pairing families", T_PAIR,
  ["algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp", "algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp", "algebra/pairing/detail/edwards/183/types.hpp"],
  [("operator==", "algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp")], note=BASE)
P("K05", "Pairing parameters match the curve and its twist",
  "The loop count and its sign of every pairing parameter set (BLS12-381, MNT4-298, MNT6-298, Edwards-183, alt_bn128) are those of the curve's trace or seed; final-exponent constants equal the value their decomposition of (p^k - 1)/r requires. Twist elements and twisted curve coefficients are those of the field tower and the curve.",
  ["configurations"], "every constant of every compiling pairing parameter set", T_PAIR,
  ["algebra/pairing/detail/bls12/381/params.hpp", "algebra/pairing/detail/mnt4/298/params.hpp", "algebra/pairing/detail/mnt6/298/params.hpp", "algebra/pairing/detail/edwards/183/params.hpp", "algebra/pairing/detail/alt_bn128/params.hpp"],
  [("ate_loop_count / final_exponent_*", "algebra/pairing/detail/mnt4/298/params.hpp")], tech="constants read from LLVM IR and decided against number-theoretic definitions", note=BASE)
P("H01", "Hash-to-curve maps follow the standard for every argument",
  "The simplified SWU map returns the point of RFC 9380 6.6.2 for every field element, the exceptional ones included: the first candidate when its right-hand side is a square, else the second, with y of the same sign as the argument. The 11- and 3-isogeny maps of BLS12-381 send every point of the isogenous curve to its image on the curve, and the kernel of the isogeny to the point at infinity. map_to_curve is their composition.",
  ["inputs"], "every argument (symbolically; both outcomes of every squareness and sign test), every point of the isogenous curves", "No existing test compiles these maps; the exceptional arguments are a handful out of 2^381 and are never sampled.",
  ["algebra/curves/detail/h2c/h2c_m2c.hpp", "algebra/curves/detail/h2c/h2c_iso_map.hpp"], [("m2c_simple_swu::process", "algebra/curves/detail/h2c/h2c_m2c.hpp"), ("iso_map::process", "algebra/curves/detail/h2c/h2c_iso_map.hpp")],
  tech="abstract interpretation of LLVM IR; polynomial identities modulo the curve equation and the kernel polynomial", note=BASE + "The suites (absent from the repository) are supplied by the check; squareness, square root, sign and inverse (zero for zero) are uninterpreted (their correctness is F02-F06). ")
T_MAR = "No existing test compiles the serialisers; every point, every octet string and every stale buffer content counts, and a wrong sign rule or flag test only shows against another implementation or a crafted input."
P("M01", "Points serialise to exactly the standard octets and only valid octets decode",
  "BLS12-381 G1/G2 points encode to the ZCash format: 48/96 octets compressed, 96/192 uncompressed, big-endian, imaginary part first, flag bits in the leading octet, the sign that of y (its imaginary part first), infinity with zero payload. Decoding returns the point; with assertions enabled it rejects bad flags, wrong lengths, unreduced coordinates, non-zero infinity payloads and points off the curve, for array and vector ranges; the input is not modified.",
  ["inputs"], "every octet of the result as a closed form over all points and octet strings, compared at points covering each sign, flag, length and coordinate shape", T_MAR,
  ["algebra/curves/detail/marshalling.hpp"], [("point_to_octets / point_to_octets_compress / octets_to_g1_point / octets_to_g2_point", "algebra/curves/detail/marshalling.hpp")],
  tech="abstract interpretation of LLVM IR on symbolic octets; decision diagrams of every output octet compared with the format", note=BASE + "The curve classes are replaced by stand-ins, big-number import/export by its contract (export writes only significant octets); closed forms are compared at valuations, not proved equal. ")
P("M02", "Field elements serialise to fixed-length octets that decode to themselves",
  "The bincode encoding of a field element is its coordinates in order, each little-endian on the octets of the modulus; writing fills the whole output whatever it held and nothing beyond it, and returns its length. Decoding returns the element, with the flag true exactly when every coordinate is below the modulus; with assertions enabled wrong lengths are rejected. Point encodings are the compressed format, and the announced sizes are the real ones.",
  ["inputs"], "every octet of the result as a closed form over all elements and prior buffer contents; prime fields with and without a partial top octet, towers of degree 2, 6 and 12", T_MAR,
  ["algebra/marshalling.hpp"], [("bincode::field::field_element_to_bytes / field_element_from_bytes", "algebra/marshalling.hpp"), ("bincode::curve::point_to_bytes / g1_point_from_bytes", "algebra/marshalling.hpp")],
  tech="abstract interpretation of LLVM IR on symbolic octets; decision diagrams of every output octet compared with the format", note=BASE + "As M01. ")
P("O01", "Printing an element writes well-formed text that names every coordinate",
  "Writing an element to a stream produces one well-formed JSON value and nothing else, whatever the coordinates' values: for a prime-field element its residue; for an extension-field element the nested lists of its coordinates in order; for a curve element an object in which every stored coordinate (X, Y, and Z and T where the system has them) stands once, under its own name; for a precomputed pairing value an object of its members with its lines as a list of lists, in order, of any length including zero. The stream written to is returned.",
  ["inputs"], "every element of the ten coordinate systems, the prime field and six extension towers, and precomputed values with 0 to 3 lines in each list", "No test prints anything; a missing quote or comma, an exchanged name or a value-dependent layout shows only when some consumer reads the text back.",
  ["algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp", "algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp", "algebra/fields/detail/element/fp12_2over3over2.hpp", "algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp", "algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp"],
  [("operator<<(std::ostream&, curve_element)", "algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp"), ("operator<<(std::ostream&, ate_g2_precomputed_type)", "algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp")],
  tech="abstract interpretation of LLVM IR on symbolic coordinates with a recording stream; every written character is an output, the text is parsed and compared with the coordinates", note=BASE + "std::ostream is replaced by a recording class with the same inserters; number formatting is the dependency's. List lengths are 0 to 3. The edwards<183> G2 class and precomputed values have no inserter. ")
P("W01", "Curve, group and extension-field classes name the parts that belong together",
  "Every curve class (and its version alias) names its base field, the field of its group order, the target field of its embedding degree, and groups that name that curve back and hold elements over the right field, in the requested form and coordinate system, with the curve's parameters and bit size. The generator is the curve's generator of that order, zero and the default element are the identity, and the coordinate system's assumption on the coefficient a is true. Every extension field has its base field's modulus and bit counts, its degree as arity, and elements over the level below. The window tables used by exponentiation belong to the curve's default groups and increase.",
  ["configurations"], "16 curve families at every width with every coordinate system they include, 7 towers of extension fields, 24 window tables", "No test names most of these classes; a wrong alias, field or group still compiles and gives plausible elements of another structure.",
  ["algebra/curves/" + x for x in ("alt_bn128.hpp", "bls12.hpp", "mnt4.hpp", "mnt6.hpp", "edwards.hpp", "babyjubjub.hpp", "jubjub.hpp", "ed25519.hpp", "pallas.hpp", "vesta.hpp", "secp_k1.hpp", "secp_r1.hpp", "params/multiexp/bls12.hpp")] + ["algebra/fields/fp2.hpp", "algebra/fields/fp12_2over3over2.hpp"],
  [("g1_type / g2_type / gt_type", "algebra/curves/bls12.hpp"), ("arity / value_bits", "algebra/fields/fp6_3over2.hpp")], tech="type identities and constants of the compiled headers, read from LLVM IR and decided against one table of the library's structure", note=K_N + "curve25519's default group (Montgomery form in extended coordinates) has no element class in the library: only its type-level parts are decided. ")
