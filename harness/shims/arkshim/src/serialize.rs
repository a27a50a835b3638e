pub use std::io::{Read, Write};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Compress { Yes, No }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Validate { Yes, No }
#[derive(Debug)]
pub enum SerializationError { NotEnoughSpace, InvalidData, UnexpectedFlags, IoError(std::io::Error) }
impl std::fmt::Display for SerializationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for SerializationError {}
impl From<std::io::Error> for SerializationError { fn from(e: std::io::Error) -> Self { Self::IoError(e) } }
pub trait Valid { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
pub trait CanonicalSerialize {
    fn serialize_with_mode<W: Write>(&self, writer: W, compress: Compress) -> Result<(), SerializationError>;
    fn serialized_size(&self, compress: Compress) -> usize;
    fn serialize_compressed<W: Write>(&self, writer: W) -> Result<(), SerializationError> { self.serialize_with_mode(writer, Compress::Yes) }
    fn serialize_uncompressed<W: Write>(&self, writer: W) -> Result<(), SerializationError> { self.serialize_with_mode(writer, Compress::No) }
    fn compressed_size(&self) -> usize { self.serialized_size(Compress::Yes) }
    fn uncompressed_size(&self) -> usize { self.serialized_size(Compress::No) }
}
pub trait CanonicalDeserialize: Sized {
    fn deserialize_with_mode<R: Read>(reader: R, compress: Compress, validate: Validate) -> Result<Self, SerializationError>;
    fn deserialize_compressed<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(reader, Compress::Yes, Validate::Yes) }
    fn deserialize_compressed_unchecked<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(reader, Compress::Yes, Validate::No) }
    fn deserialize_uncompressed<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(reader, Compress::No, Validate::Yes) }
    fn deserialize_uncompressed_unchecked<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(reader, Compress::No, Validate::No) }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> { w.write_all(&(self.len() as u64).to_le_bytes())?; for x in self { x.serialize_with_mode(&mut w, c)?; } Ok(()) }
    fn serialized_size(&self, c: Compress) -> usize { 8 + self.iter().map(|x| x.serialized_size(c)).sum::<usize>() }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { let mut b = [0u8; 8]; r.read_exact(&mut b)?; let mut o = vec![]; for _ in 0..u64::from_le_bytes(b) { o.push(T::deserialize_with_mode(&mut r, c, v)?); } Ok(o) }
}
impl CanonicalSerialize for u8 { fn serialize_with_mode<W: Write>(&self, mut w: W, _c: Compress) -> Result<(), SerializationError> { w.write_all(&[*self])?; Ok(()) } fn serialized_size(&self, _c: Compress) -> usize { 1 } }
impl CanonicalDeserialize for u8 { fn deserialize_with_mode<R: Read>(mut r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> { let mut b = [0u8; 1]; r.read_exact(&mut b)?; Ok(b[0]) } }
macro_rules! int { ($($t:ty),*) => { $(
impl CanonicalSerialize for $t { fn serialize_with_mode<W: Write>(&self, mut w: W, _c: Compress) -> Result<(), SerializationError> { w.write_all(&self.to_le_bytes())?; Ok(()) } fn serialized_size(&self, _c: Compress) -> usize { std::mem::size_of::<$t>() } }
impl CanonicalDeserialize for $t { fn deserialize_with_mode<R: Read>(mut r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> { let mut b = [0u8; std::mem::size_of::<$t>()]; r.read_exact(&mut b)?; Ok(<$t>::from_le_bytes(b)) } }
)* } }
int!(u16, u32, u64);
impl<T: CanonicalSerialize, const N: usize> CanonicalSerialize for [T; N] { fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> { for x in self { x.serialize_with_mode(&mut w, c)?; } Ok(()) } fn serialized_size(&self, c: Compress) -> usize { self.iter().map(|x| x.serialized_size(c)).sum() } }
impl<T: CanonicalDeserialize, const N: usize> CanonicalDeserialize for [T; N] { fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { let mut o = vec![]; for _ in 0..N { o.push(T::deserialize_with_mode(&mut r, c, v)?); } o.try_into().map_err(|_| SerializationError::InvalidData) } }
