use crate::ff::*;
use crate::serialize::*;
use std::fmt::Debug;
use std::ops::*;
pub trait PrimeGroup: Copy + Clone + Debug + Eq + Zero + Default + Add<Self, Output = Self> + Sub<Self, Output = Self> + Neg<Output = Self> + AddAssign<Self> + SubAssign<Self> + Mul<<Self as PrimeGroup>::ScalarField, Output = Self> + std::iter::Sum<Self> + 'static {
    type ScalarField: PrimeField;
    fn generator() -> Self;
    fn double(&self) -> Self { *self + *self }
}
pub trait VariableBaseMSM: PrimeGroup { type MulBase: Copy; fn msm(bases: &[Self::MulBase], scalars: &[Self::ScalarField]) -> Result<Self, usize>; fn msm_unchecked(bases: &[Self::MulBase], scalars: &[Self::ScalarField]) -> Self; }
pub trait CurveGroup: PrimeGroup + VariableBaseMSM<MulBase = <Self as CurveGroup>::Affine> { type Affine: AffineRepr<Group = Self, ScalarField = Self::ScalarField>; fn into_affine(self) -> Self::Affine; fn normalize_batch(v: &[Self]) -> Vec<Self::Affine> { v.iter().map(|x| x.into_affine()).collect() } }
pub trait AffineRepr: Copy + Clone + Debug + Eq + Default + CanonicalSerialize + CanonicalDeserialize + Into<<Self as AffineRepr>::Group> + Mul<<Self as AffineRepr>::ScalarField, Output = <Self as AffineRepr>::Group> + 'static { type ScalarField: PrimeField; type Group: CurveGroup<Affine = Self, ScalarField = Self::ScalarField>; fn into_group(self) -> Self::Group; fn generator() -> Self; fn zero() -> Self; fn is_zero(&self) -> bool; }
macro_rules! group { ($g:ident, $a:ident, $size:expr, $tag:expr) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)] pub struct $g(pub Fr);
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)] pub struct $a(pub Fr);
    impl Add for $g { type Output = $g; fn add(self, o: $g) -> $g { $g(self.0 + o.0) } }
    impl Add<$a> for $g { type Output = $g; fn add(self, o: $a) -> $g { $g(self.0 + o.0) } }
    impl Sub for $g { type Output = $g; fn sub(self, o: $g) -> $g { $g(self.0 - o.0) } }
    impl Neg for $g { type Output = $g; fn neg(self) -> $g { $g(-self.0) } }
    impl AddAssign for $g { fn add_assign(&mut self, o: $g) { self.0 += o.0 } }
    impl AddAssign<$a> for $g { fn add_assign(&mut self, o: $a) { self.0 += o.0 } }
    impl SubAssign for $g { fn sub_assign(&mut self, o: $g) { self.0 -= o.0 } }
    impl Mul<Fr> for $g { type Output = $g; fn mul(self, o: Fr) -> $g { $g(self.0 * o) } }
    impl<'a> Mul<&'a Fr> for $g { type Output = $g; fn mul(self, o: &'a Fr) -> $g { $g(self.0 * o) } }
    impl Mul<Fr> for $a { type Output = $g; fn mul(self, o: Fr) -> $g { $g(self.0 * o) } }
    impl Zero for $g { fn zero() -> $g { $g(Fr::zero()) } fn is_zero(&self) -> bool { self.0.is_zero() } }
    impl std::iter::Sum<$g> for $g { fn sum<I: Iterator<Item = $g>>(i: I) -> $g { i.fold($g::zero(), |a, b| a + b) } }
    impl PrimeGroup for $g { type ScalarField = Fr; fn generator() -> $g { $g(Fr::one()) } }
    impl VariableBaseMSM for $g { type MulBase = $a; fn msm(b: &[$a], s: &[Fr]) -> Result<$g, usize> { if b.len() != s.len() { Err(b.len().min(s.len())) } else { Ok(Self::msm_unchecked(b, s)) } } fn msm_unchecked(b: &[$a], s: &[Fr]) -> $g { $g(b.iter().zip(s).map(|(x, y)| x.0 * y).sum()) } }
    impl CurveGroup for $g { type Affine = $a; fn into_affine(self) -> $a { $a(self.0) } }
    impl From<$g> for $a { fn from(x: $g) -> $a { $a(x.0) } }
    impl From<$a> for $g { fn from(x: $a) -> $g { $g(x.0) } }
    impl AffineRepr for $a { type ScalarField = Fr; type Group = $g; fn into_group(self) -> $g { $g(self.0) } fn generator() -> $a { $a(Fr::one()) } fn zero() -> $a { $a(Fr::zero()) } fn is_zero(&self) -> bool { self.0.is_zero() } }
    impl CanonicalSerialize for $a { fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> { let n = self.serialized_size(c); let mut b = vec![$tag; n]; b[..32].copy_from_slice(&self.0.to_bytes()); w.write_all(&b)?; Ok(()) } fn serialized_size(&self, c: Compress) -> usize { if c == Compress::Yes { $size } else { 2 * $size } } }
    impl CanonicalDeserialize for $a { fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, _v: Validate) -> Result<$a, SerializationError> { let mut b = vec![0u8; if c == Compress::Yes { $size } else { 2 * $size }]; r.read_exact(&mut b)?; if b[32..].iter().any(|x| *x != $tag) { return Err(SerializationError::UnexpectedFlags); } Fr::from_bytes(&b[..32].try_into().unwrap()).map($a).ok_or(SerializationError::InvalidData) } }
    impl CanonicalSerialize for $g { fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { $a(self.0).serialize_with_mode(w, c) } fn serialized_size(&self, c: Compress) -> usize { $a(self.0).serialized_size(c) } }
} }
group!(G1, G1Affine, 33, 0x51u8);
group!(G2, G2Affine, 64, 0x62u8);
pub mod pairing {
    use super::*;
    pub trait Pairing: Sized + 'static + Copy + Debug + Eq + Send + Sync {
        type ScalarField: PrimeField;
        type G1: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine> + Into<Self::G1Prepared> + for<'a> Mul<&'a Self::ScalarField, Output = Self::G1> + AddAssign<Self::G1Affine>;
        type G1Affine: AffineRepr<Group = Self::G1, ScalarField = Self::ScalarField> + From<Self::G1> + Into<Self::G1Prepared>;
        type G1Prepared: Copy;
        type G2: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine> + Into<Self::G2Prepared> + for<'a> Mul<&'a Self::ScalarField, Output = Self::G2> + AddAssign<Self::G2Affine>;
        type G2Affine: AffineRepr<Group = Self::G2, ScalarField = Self::ScalarField> + From<Self::G2> + Into<Self::G2Prepared>;
        type G2Prepared: Copy;
        fn pairing(p: impl Into<Self::G1Prepared>, q: impl Into<Self::G2Prepared>) -> PairingOutput<Self>;
        fn multi_pairing(a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> PairingOutput<Self> { a.into_iter().zip(b).fold(PairingOutput::zero(), |s, (x, y)| s + Self::pairing(x, y)) }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct PairingOutput<P: Pairing>(pub P::ScalarField);
    impl<P: Pairing> Add for PairingOutput<P> { type Output = Self; fn add(self, o: Self) -> Self { Self(self.0 + o.0) } }
    impl<P: Pairing> Sub for PairingOutput<P> { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 - o.0) } }
    impl<P: Pairing> Neg for PairingOutput<P> { type Output = Self; fn neg(self) -> Self { Self(-self.0) } }
    impl<P: Pairing> AddAssign for PairingOutput<P> { fn add_assign(&mut self, o: Self) { self.0 += o.0 } }
    impl<P: Pairing> SubAssign for PairingOutput<P> { fn sub_assign(&mut self, o: Self) { self.0 -= o.0 } }
    impl<P: Pairing> Mul<P::ScalarField> for PairingOutput<P> { type Output = Self; fn mul(self, o: P::ScalarField) -> Self { Self(self.0 * o) } }
    impl<P: Pairing> Zero for PairingOutput<P> { fn zero() -> Self { Self(P::ScalarField::zero()) } fn is_zero(&self) -> bool { self.0.is_zero() } }
    impl<P: Pairing> CanonicalSerialize for PairingOutput<P> {
        // 384 bytes, like the real target group in compressed form
        fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> { let mut v = vec![]; self.0.serialize_with_mode(&mut v, c)?; let mut b = vec![]; for k in 0..12u8 { b.extend(v.iter().map(|x| x ^ k)); } w.write_all(&b)?; Ok(()) }
        fn serialized_size(&self, _c: Compress) -> usize { 384 }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Bn254;
impl pairing::Pairing for Bn254 {
    type ScalarField = Fr; type G1 = G1; type G1Affine = G1Affine; type G1Prepared = G1Affine; type G2 = G2; type G2Affine = G2Affine; type G2Prepared = G2Affine;
    fn pairing(p: impl Into<G1Affine>, q: impl Into<G2Affine>) -> pairing::PairingOutput<Bn254> { pairing::PairingOutput(p.into().0 * q.into().0) }
}
