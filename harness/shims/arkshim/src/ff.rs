use crate::serialize::*;
use rand::RngCore;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::iter::{Product, Sum};
use std::ops::*;
pub trait Zero: Sized + Add<Self, Output = Self> { fn zero() -> Self; fn is_zero(&self) -> bool; fn set_zero(&mut self) { *self = Self::zero(); } }
pub trait One: Sized + Mul<Self, Output = Self> { fn one() -> Self; fn is_one(&self) -> bool where Self: PartialEq { *self == Self::one() } }
pub trait UniformRand: Sized { fn rand<R: RngCore + ?Sized>(rng: &mut R) -> Self; }
pub trait AdditiveGroup: Copy + Zero { const ZERO: Self; fn double(&self) -> Self { *self + *self } fn neg_in_place(&mut self) -> &mut Self; }
pub trait Field: 'static + Copy + Clone + Debug + Display + Default + Send + Sync + Eq + Ord + Hash + Zero + One + UniformRand + AdditiveGroup
    + CanonicalSerialize + CanonicalDeserialize + Neg<Output = Self> + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + DivAssign<Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
    + Sum<Self> + Product<Self> + for<'a> Sum<&'a Self> + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<i128> + From<i64> + From<i32> + From<i16> + From<i8> + From<bool> {
    const ONE: Self;
    fn square(&self) -> Self { *self * *self }
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> { match self.inverse() { Some(x) => { *self = x; Some(self) } None => None } }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self { let mut r = Self::one(); for w in exp.as_ref().iter().rev() { for i in (0..64).rev() { r = r * r; if (w >> i) & 1 == 1 { r = r * *self; } } } r }
}
pub trait PrimeField: Field + std::str::FromStr {
    const MODULUS_BIT_SIZE: u32;
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self;
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self { let mut b = bytes.to_vec(); b.reverse(); Self::from_le_bytes_mod_order(&b) }
    fn root_of_unity(log: u32) -> Option<Self>;
}
pub trait FftField: PrimeField {}
impl<F: PrimeField> FftField for F {}

pub const MODULUS: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
const INV: u64 = { let mut x = 1u64; let mut i = 0; while i < 6 { x = x.wrapping_mul(2u64.wrapping_sub(MODULUS[0].wrapping_mul(x))); i += 1; } 0u64.wrapping_sub(x) };
const R2: [u64; 4] = { // 2^512 mod p by doubling
    let mut a = [1u64, 0, 0, 0]; let mut i = 0; while i < 512 { a = dbl(a); i += 1; } a };
const R1: [u64; 4] = { let mut a = [1u64, 0, 0, 0]; let mut i = 0; while i < 256 { a = dbl(a); i += 1; } a };
const fn geq(a: [u64; 4]) -> bool { let mut i = 3i32; while i >= 0 { if a[i as usize] > MODULUS[i as usize] { return true; } if a[i as usize] < MODULUS[i as usize] { return false; } i -= 1; } true }
const fn subm(a: [u64; 4]) -> [u64; 4] { let mut r = [0u64; 4]; let mut b = 0u128; let mut i = 0; while i < 4 { let t = (a[i] as u128).wrapping_sub(MODULUS[i] as u128 + b); r[i] = t as u64; b = (t >> 64) & 1; i += 1; } r }
const fn dbl(a: [u64; 4]) -> [u64; 4] { let r = [a[0] << 1, (a[1] << 1) | (a[0] >> 63), (a[2] << 1) | (a[1] >> 63), (a[3] << 1) | (a[2] >> 63)]; if geq(r) { subm(r) } else { r } }
fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 { let x = t[j] as u128 + a[j] as u128 * b[i] as u128 + c; t[j] = x as u64; c = x >> 64; }
        let x = t[4] as u128 + c; t[4] = x as u64; t[5] = (x >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let mut c = (t[0] as u128 + m as u128 * MODULUS[0] as u128) >> 64;
        for j in 1..4 { let x = t[j] as u128 + m as u128 * MODULUS[j] as u128 + c; t[j - 1] = x as u64; c = x >> 64; }
        let x = t[4] as u128 + c; t[3] = x as u64; t[4] = t[5] + (x >> 64) as u64;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(r) { subm(r) } else { r }
}
/// BN254 scalar field, Montgomery form inside
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Fr([u64; 4]);
impl Fr {
    pub fn limbs(&self) -> [u64; 4] { mont(&self.0, &[1, 0, 0, 0]) }
    pub fn from_limbs(a: [u64; 4]) -> Option<Fr> { if geq(a) { None } else { Some(Fr(mont(&a, &R2))) } }
    pub fn to_bytes(&self) -> [u8; 32] { let mut o = [0u8; 32]; for (i, l) in self.limbs().iter().enumerate() { o[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes()); } o }
    pub fn from_bytes(b: &[u8; 32]) -> Option<Fr> { let mut a = [0u64; 4]; for i in 0..4 { a[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); } Fr::from_limbs(a) }
}
impl PartialOrd for Fr { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Fr { fn cmp(&self, o: &Self) -> std::cmp::Ordering { let (a, b) = (self.limbs(), o.limbs()); for i in (0..4).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } } std::cmp::Ordering::Equal } }
impl Debug for Fr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Display::fmt(self, f) } }
impl Display for Fr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut b = self.to_bytes(); b.reverse(); let s: String = b.iter().map(|x| format!("{:02x}", x)).collect(); let t = s.trim_start_matches('0'); write!(f, "0x{}", if t.is_empty() { "0" } else { t }) } }
fn addf(a: Fr, b: Fr) -> Fr { let mut r = [0u64; 4]; let mut c = 0u128; for i in 0..4 { let t = a.0[i] as u128 + b.0[i] as u128 + c; r[i] = t as u64; c = t >> 64; } Fr(if geq(r) { subm(r) } else { r }) }
fn negf(a: Fr) -> Fr { if a.0 == [0; 4] { return a; } let mut r = [0u64; 4]; let mut b = 0u128; for i in 0..4 { let t = (MODULUS[i] as u128).wrapping_sub(a.0[i] as u128 + b); r[i] = t as u64; b = (t >> 64) & 1; } Fr(r) }
fn subf(a: Fr, b: Fr) -> Fr { addf(a, negf(b)) }
fn mulf(a: Fr, b: Fr) -> Fr { Fr(mont(&a.0, &b.0)) }
fn divf(a: Fr, b: Fr) -> Fr { mulf(a, b.inverse().expect("division by zero")) }
macro_rules! op { ($t:ident, $m:ident, $ta:ident, $ma:ident, $f:ident) => {
    impl $t<Fr> for Fr { type Output = Fr; fn $m(self, o: Fr) -> Fr { $f(self, o) } }
    impl<'a> $t<&'a Fr> for Fr { type Output = Fr; fn $m(self, o: &'a Fr) -> Fr { $f(self, *o) } }
    impl<'a> $t<Fr> for &'a Fr { type Output = Fr; fn $m(self, o: Fr) -> Fr { $f(*self, o) } }
    impl<'a, 'b> $t<&'a Fr> for &'b Fr { type Output = Fr; fn $m(self, o: &'a Fr) -> Fr { $f(*self, *o) } }
    impl $ta<Fr> for Fr { fn $ma(&mut self, o: Fr) { *self = $f(*self, o) } }
    impl<'a> $ta<&'a Fr> for Fr { fn $ma(&mut self, o: &'a Fr) { *self = $f(*self, *o) } }
} }
op!(Add, add, AddAssign, add_assign, addf);
op!(Sub, sub, SubAssign, sub_assign, subf);
op!(Mul, mul, MulAssign, mul_assign, mulf);
op!(Div, div, DivAssign, div_assign, divf);
impl Neg for Fr { type Output = Fr; fn neg(self) -> Fr { negf(self) } }
impl Zero for Fr { fn zero() -> Fr { Fr([0; 4]) } fn is_zero(&self) -> bool { self.0 == [0; 4] } }
impl One for Fr { fn one() -> Fr { Fr(R1) } }
impl AdditiveGroup for Fr { const ZERO: Fr = Fr([0; 4]); fn neg_in_place(&mut self) -> &mut Self { *self = -*self; self } }
impl Sum<Fr> for Fr { fn sum<I: Iterator<Item = Fr>>(i: I) -> Fr { i.fold(Fr::zero(), |a, b| a + b) } }
impl<'a> Sum<&'a Fr> for Fr { fn sum<I: Iterator<Item = &'a Fr>>(i: I) -> Fr { i.fold(Fr::zero(), |a, b| a + b) } }
impl Product<Fr> for Fr { fn product<I: Iterator<Item = Fr>>(i: I) -> Fr { i.fold(Fr::one(), |a, b| a * b) } }
impl UniformRand for Fr { fn rand<R: RngCore + ?Sized>(rng: &mut R) -> Fr { loop { let mut a = [0u64; 4]; for x in a.iter_mut() { *x = rng.next_u64(); } a[3] &= (1 << 62) - 1; if let Some(f) = Fr::from_limbs(a) { crate::tap::push_draw(f.to_bytes()); return f; } } } }
impl Field for Fr {
    const ONE: Fr = Fr(R1);
    fn inverse(&self) -> Option<Fr> { if self.is_zero() { None } else { let mut e = MODULUS; e[0] -= 2; Some(self.pow(e)) } }
}
impl PrimeField for Fr {
    const MODULUS_BIT_SIZE: u32 = 254;
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Fr { let m = Fr::from(256u64); bytes.iter().rev().fold(Fr::zero(), |a, b| a * m + Fr::from(*b as u64)) }
    fn root_of_unity(log: u32) -> Option<Fr> { if log > 28 { return None; } let mut e = MODULUS; e[0] -= 1; // (p-1)/2^28, p-1 = 2^28 * odd
        let s = 28; let mut q = [0u64; 4]; for i in 0..4 { q[i] = e[i] >> s; if i < 3 { q[i] |= e[i + 1] << (64 - s); } } let mut g = Fr::from(5u64).pow(q); for _ in log..28 { g = g * g; } Some(g) }
}
impl std::str::FromStr for Fr { type Err = (); fn from_str(s: &str) -> Result<Fr, ()> { let (n, d) = match s.strip_prefix('-') { Some(d) => (true, d), None => (false, s.strip_prefix('+').unwrap_or(s)) }; if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return Err(()); } let ten = Fr::from(10u64); let v = d.bytes().fold(Fr::zero(), |a, b| a * ten + Fr::from((b - b'0') as u64)); Ok(if n { -v } else { v }) } }
macro_rules! fromu { ($($t:ty),*) => { $(impl From<$t> for Fr { fn from(x: $t) -> Fr { let x = x as u128; Fr::from_limbs([x as u64, (x >> 64) as u64, 0, 0]).unwrap() } })* } }
macro_rules! fromi { ($($t:ty),*) => { $(impl From<$t> for Fr { fn from(x: $t) -> Fr { let v = Fr::from(x.unsigned_abs()); if x < 0 { -v } else { v } } })* } }
fromu!(u8, u16, u32, u64, u128, bool);
fromi!(i8, i16, i32, i64, i128);
impl CanonicalSerialize for Fr { fn serialize_with_mode<W: Write>(&self, mut w: W, _c: Compress) -> Result<(), SerializationError> { w.write_all(&self.to_bytes())?; Ok(()) } fn serialized_size(&self, _c: Compress) -> usize { 32 } }
impl CanonicalDeserialize for Fr { fn deserialize_with_mode<R: Read>(mut r: R, _c: Compress, _v: Validate) -> Result<Fr, SerializationError> { let mut b = [0u8; 32]; r.read_exact(&mut b)?; Fr::from_bytes(&b).ok_or(SerializationError::InvalidData) } }
