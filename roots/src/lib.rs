//! Instantiations of the generic entry points of the analysed crates.  Nothing here is ever
//! executed: the MIR driver walks the resolved call graph from these functions.
#![allow(dead_code, unused_variables, clippy::all)]
use bn_254::{AteParing, Fq, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use rand_core::RngCore;
use zkgroth16::{Bn254Driver as GrothDriver, Circuit, Error, Proof, Verifier as GrothVerifier, ZkSnark};
use zknova::{
    Bn254Driver, FunctionCircuit, GrumpkinDriver, Ivc, PedersenCommitment, PublicParams,
    RecursiveProof,
};
use zkstd::circuit::prelude::{
    BinaryAssignment, CircuitDriver, FieldAssignment, PointAssignment, R1cs,
};
use zkstd::common::{BNAffine, BNProjective, Decode, Encode, Group, PrimeField, Ring, Vec};
use zkstd::matrix::{DenseVectors, SparseMatrix, SparseRow};

pub struct TestRng(u64);
impl RngCore for TestRng {
    fn next_u32(&mut self) -> u32 {
        rng_u32(self)
    }
    fn next_u64(&mut self) -> u64 {
        rng_u64(self)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        rng_fill(self, dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        rng_fill(self, dest);
        Ok(())
    }
}
// modelled: every call returns a fresh unknown
#[inline(never)]
pub fn rng_u32(r: &mut TestRng) -> u32 {
    r.0 as u32
}
#[inline(never)]
pub fn rng_u64(r: &mut TestRng) -> u64 {
    r.0
}
#[inline(never)]
pub fn rng_fill(_r: &mut TestRng, _d: &mut [u8]) {}

// ------------------------------------------------------------------ limbs
pub mod limbs {
    use zkstd::arithmetic::{bits_256, bits_384};
    // primes given as unknown-free constants by the analysis
    type A = [u64; 4];
    type B = [u64; 6];
    pub fn l4_add(a: A, b: A, p: A) -> A {
        bits_256::add(a, b, p)
    }
    pub fn l4_sub(a: A, b: A, p: A) -> A {
        bits_256::sub(a, b, p)
    }
    pub fn l4_double(a: A, p: A) -> A {
        bits_256::double(a, p)
    }
    pub fn l4_neg(a: A, p: A) -> A {
        bits_256::neg(a, p)
    }
    pub fn l4_mul(a: A, b: A, p: A, inv: u64) -> A {
        bits_256::mul(a, b, p, inv)
    }
    pub fn l4_square(a: A, p: A, inv: u64) -> A {
        bits_256::square(a, p, inv)
    }
    pub fn l4_mont(a: [u64; 8], p: A, inv: u64) -> A {
        bits_256::mont(a, p, inv)
    }
    pub fn l4_pow(a: A, b: A, one: A, p: A, inv: u64) -> A {
        bits_256::pow(a, b, one, p, inv)
    }
    pub fn l4_invert(a: A, e: A, one: A, p: A, inv: u64) -> Option<A> {
        bits_256::invert(a, e, one, p, inv)
    }
    pub fn l4_bits(a: A) -> Vec<u8> {
        bits_256::to_bits(a)
    }
    pub fn l4_nafs(a: A) -> zkstd::common::Nafs {
        bits_256::to_nafs(a)
    }
    pub fn l6_add(a: B, b: B, p: B) -> B {
        bits_384::add(a, b, p)
    }
    pub fn l6_sub(a: B, b: B, p: B) -> B {
        bits_384::sub(a, b, p)
    }
    pub fn l6_double(a: B, p: B) -> B {
        bits_384::double(a, p)
    }
    pub fn l6_neg(a: B, p: B) -> B {
        bits_384::neg(a, p)
    }
    pub fn l6_mul(a: B, b: B, p: B, inv: u64) -> B {
        bits_384::mul(a, b, p, inv)
    }
    pub fn l6_square(a: B, p: B, inv: u64) -> B {
        bits_384::square(a, p, inv)
    }
    pub fn l6_mont(a: [u64; 12], p: B, inv: u64) -> B {
        bits_384::mont(a, p, inv)
    }
    pub fn l6_pow(a: B, b: B, one: B, p: B, inv: u64) -> B {
        bits_384::pow(a, b, one, p, inv)
    }
    pub fn l6_invert(a: B, e: B, one: B, p: B, inv: u64) -> Option<B> {
        bits_384::invert(a, e, one, p, inv)
    }
    pub fn l6_bits(a: B) -> Vec<u8> {
        bits_384::to_bits(a)
    }
    pub fn l6_nafs(a: B) -> zkstd::common::Nafs {
        bits_384::to_nafs(a)
    }
    pub fn l6_one(r2: B, p: B, inv: u64) -> B {
        bits_384::one(r2, p, inv)
    }
    pub fn l6_from_u64(v: u64, r2: B, p: B, inv: u64) -> B {
        bits_384::from_u64(v, r2, p, inv)
    }
    pub fn l6_from_u512(v: [u64; 12], r2: B, r3: B, p: B, inv: u64) -> B {
        bits_384::from_u512(v, r2, r3, p, inv)
    }
    pub fn l6_to_mont(v: B, r2: B, p: B, inv: u64) -> B {
        bits_384::to_mont_form(v, r2, p, inv)
    }
    pub fn l6_little_fermat(p: B) -> B {
        bits_384::little_fermat(p)
    }
    pub fn l4_from_u512(v: [u64; 8], r2: A, r3: A, p: A, inv: u64) -> A {
        bits_256::from_u512(v, r2, r3, p, inv)
    }
    pub fn l4_little_fermat(p: A) -> A {
        bits_256::little_fermat(p)
    }
    pub fn l4_random(r: super::TestRng, r2: A, r3: A, p: A, inv: u64) -> A {
        bits_256::random_limbs(r, r2, r3, p, inv)
    }
}

// ---------------------------------------------------------------- circuits
pub fn r1cs_all<C: CircuitDriver>(
    cs: &mut R1cs<C>,
    x: &SparseRow<C::Scalar>,
    y: &SparseRow<C::Scalar>,
    z: &SparseRow<C::Scalar>,
    v: C::Scalar,
) -> bool {
    cs.mul_gate(x, y, z);
    cs.add_gate(x, y, z);
    cs.sub_gate(x, y, z);
    cs.equal_gate(x, y);
    let _ = cs.evaluate();
    let _ = cs.z_vectors(cs.l(), cs.m_l_1());
    let _ = cs.matrices();
    let _ = (cs.m(), cs.x(), cs.w());
    let _ = x + y;
    let _ = x - y;
    let _ = x.clone() + y.clone();
    let _ = x.clone() + y;
    let _ = x + y.clone();
    let _ = x.clone() - y.clone();
    let _ = x.clone() - y;
    let _ = x - y.clone();
    let _ = -x;
    let _ = -x.clone();
    let _ = x * v;
    let _ = x * &v;
    let _ = x.clone() * v;
    let _ = x.clone() * &v;
    let _ = SparseRow::new(vec![]) == *x;
    let _ = SparseRow::from(v);
    let _ = x.as_constant();
    let _ = SparseRow::<C::Scalar>::one();
    cs.is_sat()
}

pub fn dense_all<F: PrimeField>(
    a: DenseVectors<F>,
    b: DenseVectors<F>,
    k: F,
    m: &SparseMatrix<F>,
) -> bool {
    let _ = a.clone() * k;
    let _ = &a * k;
    let _ = a.clone() * b.clone();
    let _ = a.clone() + b.clone();
    let _ = &a + &b;
    let _ = a.clone() - b.clone();
    let _ = m.prod(3, 1, &a);
    let _ = (DenseVectors::<F>::one(3), DenseVectors::<F>::zero(3), a.len(), a.is_empty());
    a == b
}

pub fn gadget_all<C: CircuitDriver>(
    cs: &mut R1cs<C>,
    v: C::Scalar,
    fa: &FieldAssignment<C::Scalar>,
    fb: &FieldAssignment<C::Scalar>,
    ba: &BinaryAssignment,
    bb: &BinaryAssignment,
    bits: &[BinaryAssignment],
    pa: &PointAssignment<C::Scalar>,
    pb: &PointAssignment<C::Scalar>,
) {
    let _ = FieldAssignment::instance(cs, v);
    let _ = FieldAssignment::witness(cs, v);
    let _ = FieldAssignment::inputize(cs, fa.clone());
    let _ = fa.value(cs);
    let _ = FieldAssignment::constant(&v);
    let _ = FieldAssignment::square(cs, fa);
    let _ = FieldAssignment::mul(cs, fa, fb);
    let _ = FieldAssignment::add(cs, fa, fb);
    FieldAssignment::range_check_bits(cs, bits, 8);
    FieldAssignment::range_check(cs, bits, v);
    let _ = FieldAssignment::to_bits(cs, fa, 8);
    FieldAssignment::enforce_eq(cs, fa, fb);
    FieldAssignment::enforce_eq_bits(cs, fa, bits);
    FieldAssignment::conditional_enforce_equal(cs, fa, fb, ba);
    let _ = FieldAssignment::conditional_select(cs, fa, fb, ba);
    let _ = FieldAssignment::is_eq(cs, fa, fb);
    let _ = FieldAssignment::is_neq(cs, fa, fb);
    FieldAssignment::enforce_eq_constant(cs, fa, &v);
    let _ = FieldAssignment::<C::Scalar>::from(ba);
    let _ = fa + fb;
    let _ = fa - fb;
    let _ = -fa;
    let _ = BinaryAssignment::instance(cs, 1);
    let _ = BinaryAssignment::witness(cs, 1);
    BinaryAssignment::conditional_enforce_equal(cs, ba, bb, ba);
    let _ = BinaryAssignment::not(cs, ba);
    let _ = BinaryAssignment::and(cs, ba, bb);
    let _ = pa.add(pb, cs);
    let _ = pa.double(cs);
    let _ = pa.descale(cs);
    let _ = PointAssignment::<C::Scalar>::identity();
    let _ = PointAssignment::witness(cs, v, v, false);
    let _ = pa.scalar_point(cs, fa);
    let _ = PointAssignment::conditional_select(cs, pa, pb, ba);
    let _ = pa.select_identity(cs, ba);
}

pub fn point_public<C: CircuitDriver<Scalar = F>, F: PrimeField, P: BNAffine<Base = F>>(
    cs: &mut R1cs<C>,
    p: P,
    pa: &PointAssignment<F>,
) {
    let q = PointAssignment::instance(cs, p);
    pa.assert_equal_public_point(cs, p.to_extended());
}

pub fn circuits_fr(
    cs: &mut R1cs<Bn254Driver>,
    v: Fr,
    fa: &FieldAssignment<Fr>,
    ba: &BinaryAssignment,
    bits: &[BinaryAssignment],
    pa: &PointAssignment<Fr>,
    row: &SparseRow<Fr>,
    d: DenseVectors<Fr>,
    m: &SparseMatrix<Fr>,
) {
    gadget_all(cs, v, fa, fa, ba, ba, bits, pa, pa);
    r1cs_all(cs, row, row, row, v);
    dense_all(d.clone(), d, v, m);
}
pub fn circuits_fq(
    cs: &mut R1cs<GrumpkinDriver>,
    v: Fq,
    fa: &FieldAssignment<Fq>,
    ba: &BinaryAssignment,
    bits: &[BinaryAssignment],
    pa: &PointAssignment<Fq>,
    g: G1Affine,
) {
    gadget_all(cs, v, fa, fa, ba, ba, bits, pa, pa);
    point_public(cs, g, pa);
}
pub fn circuits_pub_fr(cs: &mut R1cs<Bn254Driver>, g: grumpkin::Affine, pa: &PointAssignment<Fr>) {
    point_public(cs, g, pa);
}

// ------------------------------------------------------------------ groth16
#[derive(Debug, Default)]
pub struct DemoCircuit {
    pub x: Fr,
    pub o: Fr,
}
// a circuit with 5 constraints: x^3 + x + 5 = o, w^2 = v
impl Circuit for DemoCircuit {
    fn synthesize(&self, composer: &mut R1cs<GrothDriver>) -> Result<(), Error> {
        let x = FieldAssignment::instance(composer, self.x);
        let o = FieldAssignment::instance(composer, self.o);
        let c = FieldAssignment::constant(&Fr::from(5));
        let sym1 = FieldAssignment::mul(composer, &x, &x);
        let y = FieldAssignment::mul(composer, &sym1, &x);
        let sym2 = FieldAssignment::add(composer, &y, &x);
        FieldAssignment::enforce_eq(composer, &(&sym2 + &c), &o);
        Ok(())
    }
}
pub fn groth(rng: TestRng, r2: &mut TestRng, c: DemoCircuit, inputs: &[Fr]) -> bool {
    let (mut p, v) = ZkSnark::setup::<DemoCircuit>(rng).unwrap();
    let proof = p.create_proof(r2, c).unwrap();
    v.verify(&proof, inputs).is_ok()
}

// --------------------------------------------------------------------- nova
#[derive(Debug, Clone, Default, PartialEq, Eq, Encode, Decode)]
pub struct DemoFunction<T: PrimeField>(core::marker::PhantomData<T>);
impl<T: PrimeField> FunctionCircuit<T> for DemoFunction<T> {
    fn invoke(z: &DenseVectors<T>) -> DenseVectors<T> {
        DenseVectors::new(vec![z[0] * z[0] + T::from(5)])
    }
    fn invoke_cs<C: CircuitDriver<Scalar = T>>(
        cs: &mut R1cs<C>,
        z_i: Vec<FieldAssignment<T>>,
    ) -> Vec<FieldAssignment<T>> {
        let five = FieldAssignment::constant(&T::from(5));
        let sq = FieldAssignment::mul(cs, &z_i[0], &z_i[0]);
        vec![&sq + &five]
    }
}
type Pp = PublicParams<Bn254Driver, GrumpkinDriver, DemoFunction<Fr>, DemoFunction<Fq>>;
type Rp = RecursiveProof<Bn254Driver, GrumpkinDriver, DemoFunction<Fr>, DemoFunction<Fq>>;
pub fn nova(rng: &mut TestRng, a: DenseVectors<Fr>, b: DenseVectors<Fq>) -> bool {
    let pp: Pp = PublicParams::setup(rng);
    let mut ivc = Ivc::init(&pp, a, b);
    let proof: Rp = ivc.prove_step(&pp);
    proof.verify(&pp)
}
pub fn nova_fold(
    p: &zknova::Prover<GrumpkinDriver>,
    q: &zknova::Prover<Bn254Driver>,
    cs1: R1cs<GrumpkinDriver>,
    cs2: R1cs<Bn254Driver>,
    rng: &mut TestRng,
) {
    let f = zknova::Prover::<GrumpkinDriver>::prove;
    let g = zknova::Prover::<Bn254Driver>::prove;
    let v = zknova::Verifier::<GrumpkinDriver>::verify;
    let w = zknova::Verifier::<Bn254Driver>::verify;
    let s1 = zknova::R1csShape::from(cs1);
    let s2 = zknova::R1csShape::from(cs2);
    let k1 = PedersenCommitment::<grumpkin::Affine>::new(3, rng);
    let k2 = PedersenCommitment::<G1Affine>::new(3, rng);
}

// ------------------------------------------------------------------- curves
pub fn curves(a: G1Affine, p: G1Projective, k: Fr, b: G2Affine, q: G2Projective) {
    let _ = AteParing::multi_miller_loop(&[(a, b.into())]).final_exp();
    let _ = p * k;
    let _ = q * k;
}
pub mod jubjub;

// ------------------------------------------------------------------ constants
pub mod k {
    use bn_254::{Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G1Projective, G2Affine, G2Projective, Gt};
    use zkstd::common::*;
    macro_rules! prime {
        ($m:ident, $f:ident) => {
            pub mod $m {
                use super::*;
                pub fn modulus() -> $f { <$f as PrimeField>::MODULUS }
                pub fn inv() -> u64 { <$f as PrimeField>::INV }
                pub fn add_identity() -> $f { <$f as Group>::ADDITIVE_IDENTITY }
                pub fn add_generator() -> $f { <$f as Group>::ADDITIVE_GENERATOR }
                pub fn mul_identity() -> $f { <$f as Ring>::MULTIPLICATIVE_IDENTITY }
                pub fn ff_zero() -> $f { <$f as ff::Field>::ZERO }
                pub fn ff_one() -> $f { <$f as ff::Field>::ONE }
                pub fn ff_modulus() -> &'static str { <$f as ff::PrimeField>::MODULUS }
                pub fn ff_num_bits() -> u32 { <$f as ff::PrimeField>::NUM_BITS }
                pub fn ff_capacity() -> u32 { <$f as ff::PrimeField>::CAPACITY }
                pub fn ff_two_inv() -> $f { <$f as ff::PrimeField>::TWO_INV }
                pub fn ff_generator() -> $f { <$f as ff::PrimeField>::MULTIPLICATIVE_GENERATOR }
                pub fn ff_s() -> u32 { <$f as ff::PrimeField>::S }
                pub fn ff_root() -> $f { <$f as ff::PrimeField>::ROOT_OF_UNITY }
                pub fn ff_root_inv() -> $f { <$f as ff::PrimeField>::ROOT_OF_UNITY_INV }
                pub fn ff_delta() -> $f { <$f as ff::PrimeField>::DELTA }
            }
        };
    }
    prime!(fr, Fr);
    prime!(fq, Fq);
    pub fn fr_s() -> usize { <Fr as FftField>::S }
    pub fn fr_root() -> Fr { <Fr as FftField>::ROOT_OF_UNITY }
    pub fn fr_generator() -> Fr { <Fr as FftField>::MULTIPLICATIVE_GENERATOR }
    pub fn fr_pub_root() -> Fr { bn_254::ROOT_OF_UNITY }
    pub fn fr_pub_generator() -> Fr { bn_254::MULTIPLICATIVE_GENERATOR }
    pub fn fr_two_adacity() -> u32 { bn_254::TWO_ADACITY }
    pub fn bn_x() -> u64 { bn_254::params::BN_X }
    pub fn bn_x_neg() -> bool { bn_254::params::BN_X_IS_NEGATIVE }
    pub fn b3() -> Fq { bn_254::params::PARAM_B3 }
    macro_rules! ext {
        ($m:ident, $f:ident) => {
            pub mod $m {
                use super::*;
                pub fn add_identity() -> $f { <$f as Group>::ADDITIVE_IDENTITY }
                pub fn mul_identity() -> $f { <$f as Ring>::MULTIPLICATIVE_IDENTITY }
            }
        };
    }
    ext!(fq2, Fq2);
    ext!(fq6, Fq6);
    ext!(fq12, Fq12);
    pub fn gt_random(r: &mut super::TestRng) -> Gt { <Gt as Group>::random(r) }
    pub fn gt_identity() -> Gt { <Gt as Group>::ADDITIVE_IDENTITY }
    pub fn gt_generator() -> Gt { <Gt as Group>::ADDITIVE_GENERATOR }
    macro_rules! bn {
        ($m:ident, $a:ident, $p:ident, $f:ident, $s:ident) => {
            pub mod $m {
                use super::*;
                pub fn a_generator() -> $a { <$a as Group>::ADDITIVE_GENERATOR }
                pub fn a_identity() -> $a { <$a as Group>::ADDITIVE_IDENTITY }
                pub fn p_generator() -> $p { <$p as Group>::ADDITIVE_GENERATOR }
                pub fn p_identity() -> $p { <$p as Group>::ADDITIVE_IDENTITY }
                pub fn a_b() -> $f { <$a as BNCurve>::PARAM_B }
                pub fn a_b3() -> $f { <$a as BNCurve>::PARAM_3B }
                pub fn p_b() -> $f { <$p as BNCurve>::PARAM_B }
                pub fn p_b3() -> $f { <$p as BNCurve>::PARAM_3B }
            }
        };
    }
    use grumpkin::{Affine, Projective};
    bn!(g1, G1Affine, G1Projective, Fq, Fr);
    bn!(g2, G2Affine, G2Projective, Fq2, Fr);
    bn!(gk, Affine, Projective, Fr, Fq);
}

pub mod sums {
    use bn_254::{G1Projective, G2Projective};
    pub fn g1(v: &[G1Projective]) -> G1Projective { v.iter().sum() }
    pub fn g2(v: &[G2Projective]) -> G2Projective { v.iter().sum() }
    pub fn grumpkin(v: &[grumpkin::Projective]) -> grumpkin::Projective { v.iter().sum() }
}

pub mod subgroup {
    use bn_254::{G1Affine, G2Affine};
    pub fn g1(p: &G1Affine) -> bool { p.is_torsion_free() }
    pub fn g2(p: &G2Affine) -> bool { p.is_torsion_free() }
}

// ------------------------------------------------------------ conversions
pub mod conv {
    use super::TestRng;
    use bn_254::{Fq, Fq12, Fq2, Fq6, Fr};
    use zkstd::common::*;
    macro_rules! prime {
        ($m:ident, $f:ident) => {
            pub mod $m {
                use super::*;
                pub fn sum_ref(v: &[$f]) -> $f { v.iter().sum() }
                pub fn sum_val(v: Vec<$f>) -> $f { v.into_iter().sum() }
                pub fn product_ref(v: &[$f]) -> $f { v.iter().product() }
                pub fn product_val(v: Vec<$f>) -> $f { v.into_iter().product() }
                pub fn ff_random(r: &mut TestRng) -> $f { <$f as ff::Field>::random(r) }
                pub fn random(r: &mut TestRng) -> $f { <$f as Group>::random(r) }
            }
        };
    }
    prime!(fr, Fr);
    prime!(fq, Fq);
    pub fn fq2_random(r: &mut TestRng) -> Fq2 { Fq2::random(r) }
    pub fn fq6_random(r: &mut TestRng) -> Fq6 { Fq6::random(r) }
    pub fn fq12_random(r: &mut TestRng) -> Fq12 { Fq12::random(r) }
}
