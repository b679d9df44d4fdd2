TB = ("Trusted: rustc's MIR construction, the MIR serialiser driver/main.rs, the abstract interpreter engine/*.py and its "
      "models of std functions. ")

prop("A01", "Machine-word limb arithmetic is exact and canonical",
     "For every supported prime modulus and every pair of reduced operands, the word-level addition, subtraction, doubling, "
     "negation, Montgomery multiplication, squaring and reduction return the exact residue of the mathematical result. "
     "Every result is a reduced representative (strictly below the modulus), and none of them overflows or panics.",
     "all 4-word and 6-word operands of the BN254 base and scalar moduli, the BLS12-381 scalar modulus and the BLS12-381 base modulus",
     "Tests sample random elements; a wrong carry shows up only for operands with specific word patterns (probability 2^-64 each).",
     ["zkstd/src/arithmetic/limbs/bits_256/normal.rs", "zkstd/src/arithmetic/limbs/bits_384/normal.rs",
      "zkstd/src/arithmetic/limbs/bits_256/represent.rs", "zkstd/src/arithmetic/utils.rs"],
     [("carry chains", "bits_256/normal.rs, bits_384/normal.rs: add, sub, double, neg, mul, square, mont")],
     claim=("abstract interpretation of MIR: interval + carry-relation domain over machine words", "proof",
            TB + "Each routine is evaluated once over symbolic words; the result is proven congruent to the specification "
            "and inside [0,p) for all operands. The x86 assembly variant (feature asm) is not covered."))

prop("A02", "Published field constants satisfy their number-theoretic definitions",
     "The modulus, the Montgomery inverse, the additive and multiplicative identities, the multiplicative generators, the "
     "two-adicity, the roots of unity and their inverses exposed for the BN254 fields have exactly the values their definitions "
     "prescribe. The identities of the extension fields are the zero and one of the tower.",
     "every constant of the prime-field, FFT-field and ff-compatible interfaces of both BN254 fields and of the extension fields",
     "Most constants are never exercised by the tests; a root of unity of smaller order or a wrong delta passes them.",
     ["bn254/src/fr.rs", "bn254/src/fq.rs", "bn254/src/ff_compat.rs", "zkstd/src/macros/field.rs", "bn254/src/params.rs"],
     [("constants", "bn254/src/fr.rs, fq.rs, ff_compat.rs")], over=("configurations",),
     claim=("constant evaluation by the compiler compared with number-theoretic oracles", "proof",
            TB + "Generator orders are checked against the complete factorisation of p-1 (its product is verified)."))

prop("A03", "Every form of a field operator computes the operation it names",
     "For every field type, addition, subtraction, multiplication and negation give the same mathematical result in every form "
     "in which they are offered: by value, by reference, mixed, and assigning. Doubling and squaring, plain and in place, agree with "
     "x+x and x*x, and none of these operations panics or fails to terminate.",
     "all operands of the BN254 scalar and base fields and of their degree 2, 6 and 12 extensions, for every operator impl",
     "Generic code picks impls by reference form; the tests call a few of the forms on random values only.",
     ["zkstd/src/macros/field/group.rs", "zkstd/src/macros/field.rs", "zkstd/src/macros/extension_field/group.rs",
      "zkstd/src/macros/extension_field.rs", "bn254/src/fqn.rs"],
     [("operator impls", "macros/field/group.rs, macros/extension_field/group.rs")],
     claim=("abstract interpretation of MIR: polynomial value domain over the field, impls enumerated from the resolved program",
            "proof", TB + "The limb routines are summarised by the specifications that A01 proves from their bodies."))

prop("A04", "Extension field tower arithmetic follows the tower definition",
     "Multiplication, squaring, the sparse multiplications, multiplication by the non-residues, conjugation and every power of "
     "the Frobenius map on the degree 2, 6 and 12 extensions of the BN254 base field equal the operation in "
     "Fq[u]/(u^2+1), Fq2[v]/(v^3-(9+u)), Fq6[w]/(w^2-v). Inversion returns none exactly for zero and otherwise the element whose "
     "product with the argument is one.",
     "all elements of the three extension fields and Frobenius powers 0..13 (0..24 thorough)",
     "Tests compare random products against the library's own multiplication; they do not fix the tower, and inversion corner "
     "cases (zero components) are not sampled.",
     ["bn254/src/fqn.rs", "bn254/src/params.rs", "zkstd/src/macros/extension_field/group.rs"],
     [("tower formulas", "bn254/src/fqn.rs"), ("Frobenius coefficients", "bn254/src/params.rs")],
     claim=("abstract interpretation of MIR: polynomial identity against the tower definition", "proof",
            TB + "Inversion is decided level by level; the level below is summarised by its own obligation."))

prop("A05", "Inversion, division, exponentiation and square roots are exact",
     "Field inversion returns none exactly for zero and otherwise the multiplicative inverse; division multiplies by it. "
     "Exponentiation with any exponent returns the base multiplied by itself exponent-many times (one for exponent zero), also "
     "through the power-of-two helper. A square root is only ever returned if its square is the argument, and "
     "every base-field square has one.",
     "all field elements and all exponents",
     "Exponents with special bit patterns and elements without a root or inverse are hardly sampled.",
     ["zkstd/src/arithmetic/limbs/bits_256/normal.rs", "zkstd/src/macros/field.rs", "bn254/src/fr.rs", "bn254/src/fq.rs",
      "bn254/src/fqn.rs", "bn254/src/ff_compat.rs"],
     [("square and multiply", "bits_256/normal.rs: pow, invert; fr.rs, fq.rs: pow_vartime"), ("sqrt", "fr.rs, fq.rs, fqn.rs: sqrt")],
     claim=("abstract interpretation of MIR: powers of the base tracked by an exponent polynomial over the exponent's bits; roots decided as "
            "polynomial identities, existence by exponent arithmetic on y^2", "proof",
            TB + "Word-level products are summarised by A01. Completeness of the square root is decided for the base field only."))

prop("A06", "Field equality, zero test and ordering are consistent",
     "Two field elements compare equal exactly when they are the same residue, the zero test holds exactly for the additive "
     "identity, and the ordering of field elements is a total order that agrees with equality in all of its forms "
     "(less, less-or-equal, greater, greater-or-equal, compare). An element of the base field counts as lexicographically "
     "largest exactly when its value exceeds (q-1)/2; an element of the degree 2 extension when its imaginary part does, or that part is zero and the real part does.",
     "all pairs of field elements",
     "Random elements differ in every word, so the tests never reach a tie in the upper words or a boundary value.",
     ["zkstd/src/macros/field/ring.rs", "zkstd/src/macros/field/group.rs", "zkstd/src/macros/extension_field/ring.rs",
      "zkstd/src/macros/extension_field/group.rs", "bn254/src/fq.rs", "bn254/src/fqn.rs"],
     [("comparison loops", "macros/field/ring.rs, macros/extension_field/ring.rs")],
     claim=("abstract interpretation of MIR: comparison results evaluated under every order of the words; agreement and totality by case "
            "analysis over those orders", "proof", TB))

prop("A07", "Field byte encodings are canonical and round-trip",
     "Encoding a prime field element yields the 32-byte little-endian form of its canonical value, and decoding accepts a "
     "byte string exactly when it encodes an integer below the modulus, returning the element with that value. The same holds "
     "for the ff-compatible representation, whose bit form and parity are those of the canonical value.",
     "all field elements and all 32-byte strings",
     "Round-trip tests use random field elements; non-canonical and boundary byte strings are never decoded.",
     ["bn254/src/fr.rs", "bn254/src/fq.rs", "bn254/src/ff_compat.rs"],
     [("to_bytes/from_bytes", "bn254/src/fr.rs, fq.rs"), ("from_repr/to_repr", "bn254/src/ff_compat.rs")],
     claim=("abstract interpretation of MIR: bytes as polynomials over quotient atoms, acceptance decided by interval case analysis against the "
            "modulus", "proof", TB + "The derived SCALE codec (raw words) is outside the statement."))

prop("A08", "Conversions into field elements preserve the value",
     "Converting a machine integer, a 512-bit string or hash, random words, or an element of the other BN254 field into a field "
     "element yields the residue of the integer value, and sums and products of iterators of elements equal the repeated operation. "
     "Bitwise and/xor of scalars act on the canonical words; the coordinates of a random extension element come from distinct draws. Wide conversions reduce the full 512-bit little-endian integer, so sampling from eight uniform words is unbiased up to 2^-256.",
     "all 64-bit integers, all 64-byte strings, all elements of the other field",
     "Tests use small integers or compare one conversion against itself.",
     ["zkstd/src/macros/field.rs", "zkstd/src/arithmetic/limbs/bits_256/represent.rs", "bn254/src/fr.rs", "bn254/src/fq.rs"],
     [("from_u512", "bits_256/represent.rs"), ("From impls", "macros/field.rs, fr.rs, fq.rs")],
     claim=("abstract interpretation of MIR: conversions as integer polynomials modulo the target modulus", "proof",
            TB + "Iterator sums and products: lengths 0 to 5 (quick), 0 to 24 (thorough)."))

prop("A09", "Bit and signed-digit decompositions reconstruct the value",
     "The big-endian bit list of a field element has exactly 256 binary digits whose weighted sum is the canonical value. "
     "The signed-digit list read from its most significant end (doubling and adding each digit) reconstructs the canonical value, "
     "and no two adjacent digits are both non-zero. The base-4 digit list spells the canonical value too; the helpers that read or "
     "shift the words of an element (parity, low bits, signed low bits, division by a power of two) return those of the integer the "
     "words spell, and reduction yields the canonical words.",
     "all field elements of the 256-bit fields",
     "Tests use random scalars and check only the end result of scalar multiplications.",
     ["zkstd/src/arithmetic/limbs/bits_256/represent.rs", "zkstd/src/arithmetic/utils.rs", "zkstd/src/macros/field.rs"],
     [("to_bits, to_nafs", "bits_256/represent.rs")],
     claim=("abstract interpretation of MIR: digits as polynomials over quotient atoms; weighted sums telescope, non-adjacency from the "
            "defining relations", "proof", TB + "The search for the leading digit (skip_while) is decided from its predicate."))

prop("C01", "Weierstrass point addition and doubling implement the group law",
     "Adding, subtracting or doubling points of G1, G2 and Grumpkin, in any mix of affine and projective form, by value or by reference, "
     "gives the point prescribed by the chord-and-tangent law. This includes the identity, equal points and opposite points, and the "
     "result is again on the curve.",
     "all pairs of curve points in every coordinate form",
     "The tests add random multiples of the generator, so coincident, opposite and identity operands are rarely mixed "
     "in all representations.",
     ["zkstd/src/arithmetic/points/weierstrass.rs", "zkstd/src/macros/curve.rs", "zkstd/src/macros/curve/weierstrass.rs",
      "zkstd/src/macros/curve/weierstrass/group.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "grumpkin/src/curve.rs"],
     [("addition formulas", "arithmetic/points/weierstrass.rs")],
     claim=("abstract interpretation of MIR: rational functions on the curve compared with the chord-and-tangent law, impls enumerated "
            "from the resolved program", "proof",
            TB + "Field operations are summarised by their meaning (A01-A04 decide them). Operands range over representations the library itself "
            "constructs (identity with z = 0, finite points with z non-zero)."))

prop("C02", "Point representation conversions, equality and curve membership agree",
     "Converting between affine and projective form preserves the point (including the identity), negation negates it, two points "
     "compare equal exactly when they are the same curve point whatever their representation, and the on-curve test accepts exactly "
     "the solutions of the curve equation and the identity. The raw byte form of an affine point decodes to that point.",
     "all points of G1, G2 and Grumpkin in affine and projective form",
     "Tests compare points with themselves; representations of the identity and points differing only in sign are not sampled.",
     ["zkstd/src/macros/curve/weierstrass/group.rs", "zkstd/src/macros/curve/weierstrass.rs", "bn254/src/g1.rs", "bn254/src/g2.rs",
      "grumpkin/src/curve.rs"],
     [("conversions, equality", "macros/curve/weierstrass/group.rs")],
     claim=("abstract interpretation of MIR: symbolic points per representation and relation, decided modulo the curve equation", "proof",
            TB + "Field operations are summarised by their meaning (A01-A04 decide them)."))

prop("C03", "Scalar multiplication computes the scalar multiple",
     "Multiplying a point by a scalar, in every operator form and for both curves' coordinate systems, yields the sum of scalar-many "
     "copies of the point for every scalar including zero and one less than the order.",
     "all scalars and all points",
     "Only random scalars are tested; digit patterns such as long runs of ones or zero scalars are not.",
     ["zkstd/src/arithmetic/points/weierstrass.rs", "zkstd/src/macros/curve.rs", "bn254/src/g1.rs", "bn254/src/g2.rs",
      "grumpkin/src/curve.rs"],
     [("scalar_point", "arithmetic/points/weierstrass.rs")],
     claim=("abstract interpretation of MIR: point as a group element, scalar digits as unknown indicators, linear forms over the integers",
            "proof", TB + "Point operations are summarised by the group law (C01, C02), digit strings by A09. Digit-string lengths analysed: "
            "0 to 3 and 257 (quick), 0 to 39 and 64 to 257 selected (thorough); the loop body does not depend on the length."))

prop("C04", "Twisted Edwards arithmetic implements the complete group law",
     "Adding and doubling twisted Edwards points in affine and extended form gives the point of the Edwards addition law, including "
     "identity and inverse operands, keeping the extended coordinate invariant; scalar multiplication, conversions, equality and the on-curve test agree with it.",
     "all pairs of points of a twisted Edwards curve with a = -1",
     "Tests use one curve with random multiples of the generator.",
     ["zkstd/src/arithmetic/points/edwards.rs", "zkstd/src/macros/curve/edwards.rs", "zkstd/src/macros/curve/edwards/group.rs"],
     [("addition formulas", "arithmetic/points/edwards.rs")],
     claim=("abstract interpretation of MIR: the macros instantiated for one curve, rational functions compared with the complete addition law",
            "proof", TB + "Instantiation: Jubjub over the BLS12-381 scalar field (roots/src/jubjub.rs); that the denominators of the law never "
            "vanish for a non-square d is the Bernstein-Lange theorem."))

prop("C05", "Curve parameters and generators define the published curves",
     "The curve coefficients of G1, G2 and Grumpkin are those of BN254 and Grumpkin in every representation, the generators lie on their curve and have the "
     "group order, and the affine and projective identities and generators denote the same points.",
     "every curve constant of G1, G2 and Grumpkin",
     "Tests never compare the constants with the published curve.",
     ["bn254/src/params.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "grumpkin/src/params.rs", "grumpkin/src/curve.rs"],
     [("constants", "bn254/src/params.rs, grumpkin/src/params.rs")], over=("configurations",),
     claim=("constant evaluation by the compiler compared with the published parameters and integer curve arithmetic", "proof",
            TB + "The curve arithmetic of the oracle is in checks/c05.py."))

prop("C06", "Subgroup membership accepts exactly the points of the prime-order group",
     "The torsion test of G1 and of G2 accepts a curve point exactly when it belongs to the subgroup of prime order.",
     "all points of the two curves, including points of the G2 curve outside the subgroup",
     "Points outside the subgroup are never constructed by the tests.",
     ["bn254/src/g1.rs", "bn254/src/g2.rs"],
     [("is_torsion_free", "bn254/src/g1.rs, g2.rs")],
     claim=("abstract interpretation of MIR: the multiple of the point that is compared with the identity, kernel decided by gcd with the curve order",
            "proof", TB + "Point operations are summarised by the group law (C01)."))

prop("P01", "The Miller loop evaluates the optimal ate line functions",
     "The precomputed line coefficients and their evaluation are those of the tangent and chord lines of the optimal ate pairing for "
     "every G2 point, pairs containing the identity contribute nothing, and the multi-pairing loop is the product of the single "
     "Miller loops.",
     "all pairs of points",
     "Tests check bilinearity on random multiples of the generators.",
     ["bn254/src/g2.rs", "bn254/src/pairing.rs", "bn254/src/fqn.rs", "bn254/src/params.rs"],
     [("line functions", "bn254/src/g2.rs: double_eval, add_eval"), ("loop", "bn254/src/pairing.rs")],
     claim=("abstract interpretation of MIR: line steps as polynomial identities on the twist; the loop over divisors modulo vertical lines, "
            "compared with the divisor of the optimal ate function", "proof",
            TB + "G2 points are those of the subgroup of order r, on which the q-power Frobenius multiplies by q. The loop is run for up to 2 "
            "pairs (thorough: 3) with every combination of identity flags and for a few larger numbers of pairs; coordinates are symbolic."))

prop("P02", "The final exponentiation raises to the pairing exponent",
     "The final exponentiation maps every non-zero element f of the degree 12 extension to f^(k(q^12-1)/r) for one fixed k prime to r, and the target group "
     "operations are those of that group.",
     "all non-zero elements of the degree 12 extension",
     "Tests see only pairing outputs of random points.",
     ["bn254/src/fqn.rs", "bn254/src/gt.rs"],
     [("final_exp", "bn254/src/fqn.rs"), ("Gt", "bn254/src/gt.rs")],
     claim=("abstract interpretation of MIR: exponents modulo q^12-1 (modulo r for the target group operators); component routines decided "
            "modulo the relations of the cyclotomic subgroup by linear algebra over Fq", "proof",
            TB + "Products, inverses, conjugation and Frobenius maps of the tower are summarised (A03, A04, A06 decide them). Gt::invert, "
            "which is not implemented, is left out."))

prop("R01", "Constraint system satisfaction means every constraint holds",
     "The satisfaction test of a constraint system returns true exactly when the assigned values satisfy every recorded constraint, "
     "and building gates (sums, products, equality, constants, public and private inputs) records constraints whose solutions are exactly the intended "
     "relation.",
     "all constraint systems built from the gate interface and all assignments",
     "Tests run a few fixed circuits with satisfying assignments.",
     ["zkstd/src/r1cs.rs", "zkstd/src/r1cs/wire.rs", "zkstd/src/matrix.rs", "zkstd/src/matrix/row.rs"],
     [("is_sat", "zkstd/src/r1cs.rs"), ("rows", "zkstd/src/matrix/row.rs")],
     claim=("abstract interpretation of MIR: systems with symbolic coefficients and assignments, verdict of every path compared with the "
            "constraints", "other",
            TB + "System shapes are bounded (up to 3 constraints over 2 instance and 2 witness wires; thorough: every choice of rows from a "
            "pool for 1 and 2 constraints); coefficients and assignments are symbolic."))

prop("R02", "Sparse rows and dense vectors obey linear algebra",
     "Adding, subtracting, negating and scaling sparse rows, evaluating them on an assignment, and the vector and matrix operations give "
     "the result of the corresponding linear-algebra operation, with repeated wires merged and no term lost.",
     "all rows, vectors and matrices of matching size",
     "Tests use tiny fixed rows.",
     ["zkstd/src/matrix/row.rs", "zkstd/src/matrix/vector.rs", "zkstd/src/matrix.rs"],
     [("row operations", "zkstd/src/matrix/row.rs"), ("vector operations", "zkstd/src/matrix/vector.rs")],
     claim=("abstract interpretation of MIR: rows and vectors with symbolic coefficients, every coincidence pattern of wires enumerated",
            "other",
            TB + "Row lengths and vector lengths are bounded (rows up to 2x2 and 3x1 terms, thorough 3x3; all wire coincidence patterns); "
            "coefficients are symbolic."))

prop("R03", "Circuit gadgets compute their native function",
     "The value a circuit gadget assigns to its output equals the native function of the values assigned to its inputs: boolean "
     "operators, field operators, equality tests, bit decomposition, range checks and selection.",
     "all input assignments",
     "Tests run gadgets on a few values.",
     ["zkstd/src/circuit/gadget/binary.rs", "zkstd/src/circuit/gadget/field.rs", "zkstd/src/circuit/gadget/curve.rs"],
     [("gadgets", "zkstd/src/circuit/gadget/*.rs")],
     claim=("abstract interpretation of MIR: each gadget run over symbolic wire values and operand rows; output and recorded constraints "
            "evaluated on its own assignment", "other",
            TB + "Operand rows are a fixed set of shapes (single wires, sums, constants, shared wires). Small range checks are exhaustive up "
            "to 3 bits (thorough 5); 64, 254 and 256-bit ones by enumerating the first bit that differs from the bound. Scalar "
            "multiplication is decided for up to 3 bits (thorough 5) with point addition and doubling summarised by their own obligations."))

prop("R04", "Circuit gadgets constrain their output to the native function",
     "In every satisfying assignment the output wire of a gadget carries the native function of its input wires, so a prover cannot "
     "choose another output.",
     "all satisfying assignments of the gadget's constraints",
     "Tests only check that honest assignments satisfy the constraints; an under-constrained gadget passes all of them.",
     ["zkstd/src/circuit/gadget/binary.rs", "zkstd/src/circuit/gadget/field.rs", "zkstd/src/circuit/gadget/curve.rs"],
     [("gadgets", "zkstd/src/circuit/gadget/*.rs")], over=("inputs", "programs"),
     claim=("abstract interpretation of MIR yields the recorded constraints of each gadget; linear substitution and case splits decide "
            "whether they force the output with every added wire free", "other",
            TB + "Same bounds as R03; a boolean input wire is assumed to hold a bit."))

prop("G01", "The Groth16 verifier accepts exactly the pairing equation",
     "Verification accepts exactly when the pairing equation of Groth16 holds for the proof, the verifying key and the linear combination of "
     "all supplied public inputs, rejects any number of public inputs other than the one the key was made for, and the prepared key is "
     "that of the verifying key it was made from.",
     "all verifying keys, proofs and public input lists",
     "Tests verify honest proofs and one wrong input.",
     ["groth16/src/verifier.rs", "groth16/src/params.rs", "bn254/src/pairing.rs"],
     [("verify", "groth16/src/proof.rs: Proof::verify; groth16/src/verifier.rs: Verifier::verify, VerifyingKey::prepare")],
     claim=("abstract interpretation of MIR: points are named group elements, the pairing a bilinear form, the condition of every accepting and "
            "rejecting path is compared with the pairing equation", "other",
            TB + "The group operations and the pairing are summarised by their laws (C01, C02, C04, P01, P02 look at the bodies). Numbers of "
            "inputs are bounded (0 to 4; thorough: up to 32); points and inputs are symbolic."))

prop("G02", "Groth16 setup and prover satisfy the verification equation",
     "For every circuit and every draw of the secrets the generated parameters are those of the circuit's quadratic arithmetic program, and "
     "for every satisfying assignment and prover randomness the proof computed from them satisfies the verification equation.",
     "all circuits (shape-bounded), assignments and random choices",
     "Tests run one or two circuits.",
     ["groth16/src/zksnark.rs", "groth16/src/prover.rs", "groth16/src/fft.rs", "groth16/src/poly.rs", "groth16/src/msm.rs"],
     [("setup", "groth16/src/zksnark.rs: ZkSnark::setup, eval, eval_at_tau"), ("create_proof", "groth16/src/prover.rs: Prover::create_proof")],
     claim=("abstract interpretation of MIR: setup and prover run over symbolic coefficients, assignments, secrets and blinding factors; "
            "discrete logarithms of all results compared as polynomial identities", "other",
            TB + "Circuit shapes are bounded (hand-written and generated systems of 0 to 17 constraints; thorough: up to 50); coefficients, "
            "assignments and randomness are symbolic. Coincidences among the random draws alone (a zero secret, an evaluation point in the "
            "domain) are left out; multi-scalar multiplication is summarised by G05."))

prop("G03", "Groth16 randomness is fresh, independent and never published",
     "Each secret of the setup and each blinding factor of a proof is drawn separately from the caller's generator, every proof is blinded "
     "by two such factors, and no secret appears in the parameters or the proof except in the exponent.",
     "all circuits and random generators",
     "A constant or reused blinding factor gives valid proofs, so the tests cannot see it.",
     ["groth16/src/zksnark.rs", "groth16/src/prover.rs"],
     [("sampling", "groth16/src/zksnark.rs: ZkSnark::setup; groth16/src/prover.rs: Prover::create_proof")], over=("inputs", "histories"),
     claim=("information-flow analysis by abstract interpretation of MIR: every secret and blinding factor traced to the draws of the caller's "
            "generator, every field element in the results to what it depends on", "other",
            TB + "Circuit shapes as for G02 (up to 11 constraints)."))

prop("G04", "The number-theoretic transforms evaluate and interpolate polynomials",
     "The forward transform evaluates a polynomial at the powers of the domain root, the inverse transform inverts it, the coset variants do so on "
     "the shifted domain, and the vanishing-polynomial helpers equal x^n-1.",
     "all coefficient vectors, domain sizes 2^k (k bounded by the analysis)",
     "Tests use random polynomials of a few sizes.",
     ["groth16/src/fft.rs", "groth16/src/poly.rs"],
     [("fft", "groth16/src/fft.rs")],
     claim=("abstract interpretation of MIR: transforms run over symbolic vectors, results compared with evaluation at the powers of a "
            "primitive root", "other",
            TB + "Domain sizes 2 to 16 (thorough: 64 forward, 32 inverse), every input length up to the size for 2 and 4 and the boundary "
            "lengths above; coefficients are symbolic."))

prop("G05", "Multi-scalar multiplication equals the sum of scalar multiples",
     "Multi-scalar multiplication returns the sum of scalar times base over all pairs (as many as the shorter list has), for every number of "
     "pairs and every scalar value.",
     "all scalars and bases; number of pairs bounded by the analysis",
     "Tests compare random scalars for one size.",
     ["groth16/src/msm.rs"],
     [("msm", "groth16/src/msm.rs")],
     claim=("abstract interpretation of MIR: bases as named group elements, scalar bits unknown; the windows reaching each base must tile "
            "the scalar", "other",
            TB + "Numbers of bases and scalars are a fixed list covering the window widths 3 to 5 (thorough: up to 600 bases); scalars are unknown "
            "bit strings. Point addition and doubling are the group operation, decided by C01."))

prop("N01", "Nova folding preserves relaxed constraint satisfaction",
     "Folding a satisfying relaxed instance-witness pair with a satisfying pair, with any challenge, gives a satisfying relaxed "
     "pair whose commitments open to the folded vectors, and prover, verifier and witness folding agree on the "
     "folded instance.",
     "all shapes (bounded), witnesses, instances and challenges",
     "Tests fold one example circuit.",
     ["nova/src/prover.rs", "nova/src/verifier.rs", "nova/src/relaxed_r1cs.rs", "nova/src/relaxed_r1cs/instance.rs",
      "nova/src/relaxed_r1cs/witness.rs"],
     [("fold", "nova/src/relaxed_r1cs.rs, instance.rs, witness.rs"), ("cross term", "nova/src/prover.rs")],
     claim=("abstract interpretation of MIR: prover, verifier and folds run over symbolic shapes, vectors and commitments; the folded "
            "relation decided as a polynomial identity", "other",
            TB + "Shapes are bounded (up to 3 constraints, 2 inputs, 2 witnesses; thorough 4 constraints); values, coefficients and the "
            "challenge are symbolic. Points are named group elements (group law: C01)."))

prop("N02", "Prover, verifier and circuit derive the same transcript challenge",
     "The folding challenge carries at least 128 bits and is derived from the cross-term commitment and every field of the folded instances, and the prover, the native verifier and "
     "the in-circuit verifier absorb the same values in the same order and compute the same hash of them, whose round constants are digests of "
     "distinct inputs; the hash of an instance covers the step count, both "
     "states and every field of the instance, natively and in circuit alike.",
     "all instances",
     "Tests run the honest protocol; an instance field missing on all sides keeps it complete.",
     ["nova/src/hash.rs", "nova/src/prover.rs", "nova/src/verifier.rs", "nova/src/circuit/transcript.rs", "nova/src/circuit/nifs.rs",
      "nova/src/relaxed_r1cs/instance.rs"],
     [("absorb", "nova/src/hash.rs, circuit/transcript.rs")],
     claim=("abstract interpretation of MIR: absorbed sequences as symbolic values, native and in-circuit ones compared; the in-circuit "
            "permutation and squeeze compared with the native ones as expressions", "other",
            TB + "Expressions of the permutation are compared after naming sums; a mismatch is confirmed at pseudo-random points of the derived "
            "expressions. Numbers of absorbed values and of public inputs are small fixed lists; identity points included."))

prop("N03", "Recursive proof verification accepts only if every required check passes",
     "A recursive proof is accepted only if the two public outputs of its last instance equal the hashes of step count, start state, end state and running "
     "instance of each curve, and the running and last instance-witness pairs satisfy their constraint systems: every constraint holds, "
     "the lengths fit the shape, and every commitment opens to its witness.",
     "all recursive proofs",
     "Tests verify honest proofs; dropping a check keeps them passing.",
     ["nova/src/proof.rs", "nova/src/relaxed_r1cs.rs", "nova/src/ivc.rs"],
     [("verify", "nova/src/proof.rs")],
     claim=("abstract interpretation of MIR: every path of the verifier and of the satisfaction tests, its verdict compared with the "
            "conjunction of the required checks", "other",
            TB + "Shapes are bounded (up to 3 constraints, 2 inputs, 2 witnesses; thorough 4 constraints); entries are symbolic. The hash is "
            "an uninterpreted function here (N02 decides what it absorbs)."))

prop("N04", "Every recursive step folds and records exactly the previous step",
     "One step folds the last secondary instance into the running one, runs the primary circuit on the step number, start state, current state and that folding, "
     "commits to its witness, folds the new primary instance likewise and runs the secondary circuit on it; the new state, provers and returned proof "
     "consist of exactly these results, with the step number one higher. Initialisation and parameter generation are consistent with it.",
     "all states, instances and witnesses; any number of steps by induction",
     "Tests run a few steps of one circuit; a state mix-up that needs a longer history, or a stale instance in the returned proof, is not sampled.",
     ["nova/src/ivc.rs", "nova/src/proof.rs"],
     [("prove_step, init", "nova/src/ivc.rs"), ("setup", "nova/src/ivc.rs")],
     claim=("abstract interpretation of MIR: one step from an arbitrary symbolic state, the circuits and the folding prover as recording summaries; "
            "recorded arguments and resulting state compared with the specification", "other",
            TB + "Shapes and state lengths are small fixed lists; step numbers are a fixed list including word boundaries. Values are symbolic. The "
            "circuits are N05, the folding is N01."))

prop("N05", "The augmented circuit proves one step of the computation",
     "In every satisfying assignment of the augmented circuit: after step 0 the folded instance's first input is the hash of step number, start state, "
     "current state and running instance; in step 0 the current state is the start state; the challenge is the transcript's; the outputs are the folded "
     "instance's second input and the hash of step number plus one, start state, next state (the step function of the current state) and the folded running "
     "instance (in step 0 of the secondary circuit the folded-in one). The constraints do not depend on the inputs.",
     "all satisfying assignments of the circuit, on both curves",
     "Tests only check that honest assignments satisfy the circuit; a missing constraint is never noticed by them.",
     ["nova/src/circuit/augmented.rs", "nova/src/gadget", "nova/src/hash.rs"],
     [("generate", "nova/src/circuit/augmented.rs"), ("hash, conditional_select", "nova/src/gadget/relaxed_instance.rs")],
     claim=("abstract interpretation of MIR: the constraints the circuit emits, derived over symbolic inputs; the required equalities decided "
            "by elimination over the constraint system with every wire free", "other",
            TB + "The hash, the folding circuit, point normalisation and the conversion to limbs are uninterpreted wires (their own gadgets are "
            "R04, N02). One state element, two public inputs; the step function is x*x + 5."))

prop("N06", "Pedersen commitments bind every committed element",
     "A commitment is the sum of every vector element times its own, independently drawn generator, with no element ignored (a longer vector "
     "is refused), and the generated public parameters have a generator for every witness and every constraint.",
     "all vectors up to the key size",
     "Tests commit one vector.",
     ["nova/src/pedersen.rs", "groth16/src/msm.rs"],
     [("commit", "nova/src/pedersen.rs")],
     claim=("abstract interpretation of MIR: generators as named group elements, committed vectors symbolic; key size of the parameter "
            "generation compared with the shape", "other",
            TB + "Vector and key lengths are small fixed lists (0 to 8 elements); multi-scalar multiplication is summarised (G05)."))

prop("N07", "The folding circuit folds like the native folding",
     "In every satisfying assignment of the folding circuit the folded commitments are U.W + r u.W and U.E + r T, the folded scalar is U.u + r, and "
     "the folded inputs are congruent to U.x + r u.x modulo the order of the instance's scalar field, in limbs below 2^64; the modulus is a constant. "
     "Multiplication and reduction of limbed numbers imply the congruence between integers, the limbs of a field element are the digits of its "
     "canonical representative, and every honest carry and quotient fits its range.",
     "all satisfying assignments, all limb values below 2^64",
     "Tests multiply and reduce one small number and check only that the honest assignment satisfies the constraints.",
     ["nova/src/circuit/nifs.rs", "nova/src/gadget/big_nat.rs"],
     [("NifsCircuit::verify", "nova/src/circuit/nifs.rs"), ("mult_mod, red_mod, witness_from_field_assignment", "nova/src/gadget/big_nat.rs")],
     claim=("abstract interpretation of MIR: the constraints the circuit emits, derived with every witness value unknown; constraints modulo the native "
            "field lifted to integer equations by interval bounds from the range checks; congruence decided by linear algebra modulo the order", "other",
            TB + "Point addition and scalar multiplication, bit decomposition and range checks are summarised by their own properties (R04); big "
            "integers are modelled as exact integers or intervals. Four limbs of 64 bits; the running instance's limbs are assumed below 2^64."))

prop("S01", "Results do not depend on thread scheduling",
     "Parallel sections never share mutable state, so every computation returns the same result under every scheduling "
     "of the worker threads.",
     "all schedules",
     "Tests run on one machine with whatever schedule occurs.",
     ["groth16/src/fft.rs", "groth16/src/msm.rs", "groth16/src/poly.rs", "groth16/src/prover.rs", "nova/src"],
     [("rayon closures", "groth16/src/fft.rs, msm.rs, poly.rs")], over=("schedules",),
     claim=("effect and ownership analysis over the monomorphic MIR call graph: parallel operators, closure captures, and the statics, locks, "
            "atomics, thread-locals and environment reads reachable from each closure", "other",
            TB + "The instantiations listed in roots/src are analysed. Parallel operators outside a fixed list are undecided. Memory safety of "
            "safe Rust, and rayon keeping the order of indexed operators, are assumed."))
