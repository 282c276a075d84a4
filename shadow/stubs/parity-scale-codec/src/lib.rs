//! Offline stand-in for parity-scale-codec: the SCALE encoding of the types that /repo encodes.
pub use parity_scale_codec_derive::{Decode, Encode};
use std::collections::{BTreeMap, BTreeSet, LinkedList, VecDeque, BinaryHeap};
use std::{rc::Rc, sync::Arc, borrow::Cow, marker::PhantomData};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error { cause: Option<Box<Error>>, desc: Cow<'static, str> }
impl Error {
    pub fn chain(self, desc: impl Into<Cow<'static, str>>) -> Self { Error { desc: desc.into(), cause: Some(Box::new(self)) } }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.desc)?;
        if let Some(c) = &self.cause { write!(f, ": {c}")? }
        Ok(())
    }
}
impl std::error::Error for Error {}
impl From<&'static str> for Error { fn from(s: &'static str) -> Self { Error { cause: None, desc: s.into() } } }

pub trait Input {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
    fn read_byte(&mut self) -> Result<u8, Error> { let mut b = [0u8]; self.read(&mut b)?; Ok(b[0]) }
    fn descend_ref(&mut self) -> Result<(), Error> { Ok(()) }
    fn ascend_ref(&mut self) {}
    fn on_before_alloc_mem(&mut self, _size: usize) -> Result<(), Error> { Ok(()) }
}
impl Input for &[u8] {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> { Ok(Some(self.len())) }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.len() { return Err("Not enough data to fill buffer".into()); }
        let n = into.len();
        into.copy_from_slice(&self[..n]);
        *self = &self[n..];
        Ok(())
    }
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> { Ok(None) }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> { self.0.read_exact(into).map_err(|_| "io error".into()) }
}
pub trait Output {
    fn write(&mut self, bytes: &[u8]);
    fn push_byte(&mut self, b: u8) { self.write(&[b]) }
}
impl<W: std::io::Write> Output for W {
    fn write(&mut self, bytes: &[u8]) { self.write_all(bytes).expect("Codec outputs are infallible") }
}

pub trait Encode {
    fn size_hint(&self) -> usize { 0 }
    fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) { self.using_encoded(|b| dest.write(b)) }
    fn encode(&self) -> Vec<u8> { let mut v = Vec::new(); self.encode_to(&mut v); v }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.encode()) }
    fn encoded_size(&self) -> usize { self.encode().len() }
}
pub trait Decode: Sized {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
    fn skip<I: Input>(input: &mut I) -> Result<(), Error> { Self::decode(input).map(|_| ()) }
    fn encoded_fixed_size() -> Option<usize> { None }
}
pub trait DecodeAll: Sized { fn decode_all(input: &mut &[u8]) -> Result<Self, Error>; }
impl<T: Decode> DecodeAll for T {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
        let r = T::decode(input)?;
        if input.is_empty() { Ok(r) } else { Err("Input buffer has still data left after decoding!".into()) }
    }
}
pub trait Codec: Decode + Encode {}
impl<T: Decode + Encode> Codec for T {}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}

pub trait WrapperTypeEncode: std::ops::Deref {}
impl<X> Encode for X where X: WrapperTypeEncode, X::Target: Encode {
    fn size_hint(&self) -> usize { (**self).size_hint() }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { (**self).encode_to(dest) }
    fn encode(&self) -> Vec<u8> { (**self).encode() }
}
impl<T: ?Sized> WrapperTypeEncode for Box<T> {}
impl<T: ?Sized> WrapperTypeEncode for &T {}
impl<T: ?Sized> WrapperTypeEncode for &mut T {}
impl<T: ?Sized> WrapperTypeEncode for Arc<T> {}
impl<T: ?Sized> WrapperTypeEncode for Rc<T> {}
impl<'a, T: ToOwned + ?Sized> WrapperTypeEncode for Cow<'a, T> {}
impl<T> WrapperTypeEncode for Vec<T> {}
impl WrapperTypeEncode for String {}
impl<T: Encode> EncodeLike for Box<T> {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: Encode> EncodeLike for &T {}
impl<T: Encode> EncodeLike<T> for &T {}
impl<T: Encode> EncodeLike<T> for &&T {}
impl<T: Encode> EncodeLike<T> for &mut T {}
impl<T: Encode> EncodeLike for Arc<T> {}
impl<T: Encode> EncodeLike<T> for Arc<T> {}
impl<'a, T: ToOwned + Encode> EncodeLike for Cow<'a, T> {}
impl<'a, T: ToOwned + Encode> EncodeLike<T> for Cow<'a, T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}
impl EncodeLike for String {}
impl EncodeLike<String> for &str {}

pub trait WrapperTypeDecode: Sized { type Wrapped: Into<Self>; }
impl<T> WrapperTypeDecode for Box<T> { type Wrapped = T; }
impl<T> WrapperTypeDecode for Rc<T> { type Wrapped = T; }
impl<T> WrapperTypeDecode for Arc<T> { type Wrapped = T; }
impl<T> Decode for T where T: WrapperTypeDecode, T::Wrapped: Decode {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { Ok(T::Wrapped::decode(input)?.into()) }
}

macro_rules! ints { ($($t:ty),*) => {$(
    impl Encode for $t { fn encode_to<T: Output + ?Sized>(&self, d: &mut T) { d.write(&self.to_le_bytes()) } }
    impl EncodeLike for $t {}
    impl Decode for $t { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let mut b = [0u8; std::mem::size_of::<$t>()]; i.read(&mut b)?; Ok(<$t>::from_le_bytes(b)) } }
)*} }
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
impl Encode for bool { fn encode_to<T: Output + ?Sized>(&self, d: &mut T) { d.push_byte(*self as u8) } }
impl EncodeLike for bool {}
impl Decode for bool { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match i.read_byte()? { 0 => Ok(false), 1 => Ok(true), _ => Err("Invalid boolean representation".into()) } } }
impl Encode for () { fn encode_to<T: Output + ?Sized>(&self, _d: &mut T) {} }
impl EncodeLike for () {}
impl Decode for () { fn decode<I: Input>(_: &mut I) -> Result<Self, Error> { Ok(()) } }
impl<T> Encode for PhantomData<T> { fn encode_to<O: Output + ?Sized>(&self, _d: &mut O) {} }
impl<T> EncodeLike for PhantomData<T> {}
impl<T> Decode for PhantomData<T> { fn decode<I: Input>(_: &mut I) -> Result<Self, Error> { Ok(PhantomData) } }

impl<T: Encode> Encode for Option<T> {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { match self { None => d.push_byte(0), Some(x) => { d.push_byte(1); x.encode_to(d) } } }
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: Decode> Decode for Option<T> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match i.read_byte()? { 0 => Ok(None), 1 => Ok(Some(T::decode(i)?)), _ => Err("unexpected first byte decoding Option".into()) } }
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { match self { Ok(x) => { d.push_byte(0); x.encode_to(d) } Err(x) => { d.push_byte(1); x.encode_to(d) } } }
}
impl<T: Encode, E: Encode> EncodeLike for Result<T, E> {}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match i.read_byte()? { 0 => Ok(Ok(T::decode(i)?)), 1 => Ok(Err(E::decode(i)?)), _ => Err("unexpected first byte decoding Result".into()) } }
}
impl<T: Encode> Encode for [T] {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { Compact(self.len() as u32).encode_to(d); for x in self { x.encode_to(d) } }
}
impl Encode for str { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.as_bytes().encode_to(d) } }
impl<T: Encode, const N: usize> Encode for [T; N] { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { for x in self { x.encode_to(d) } } }
impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: Decode, const N: usize> Decode for [T; N] {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        let mut v = Vec::with_capacity(N);
        for _ in 0..N { v.push(T::decode(i)?) }
        Ok(v.try_into().ok().expect("length"))
    }
}
fn declen<I: Input>(i: &mut I) -> Result<usize, Error> { Ok(<Compact<u32>>::decode(i)?.0 as usize) }
impl<T: Decode> Decode for Vec<T> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        let n = declen(i)?;
        let mut v = Vec::with_capacity(n.min(4096));
        for _ in 0..n { v.push(T::decode(i)?) }
        Ok(v)
    }
}
impl Decode for String {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { String::from_utf8(Vec::decode(i)?).map_err(|_| "Invalid utf8 sequence".into()) }
}
impl<'a, T: ToOwned + ?Sized> Decode for Cow<'a, T> where T::Owned: Decode {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(Cow::Owned(Decode::decode(i)?)) }
}
macro_rules! coll { ($($t:ident {$($b:tt)*}),*) => {$(
    impl<T: Encode $($b)*> Encode for $t<T> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { Compact(self.len() as u32).encode_to(d); for x in self.iter() { x.encode_to(d) } } }
    impl<T: Encode $($b)*> EncodeLike for $t<T> {}
    impl<T: Decode $($b)*> Decode for $t<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let n = declen(i)?; let mut v = Vec::new(); for _ in 0..n { v.push(T::decode(i)?) } Ok(v.into_iter().collect()) } }
)*} }
coll!(BTreeSet {+ Ord}, LinkedList {}, VecDeque {}, BinaryHeap {+ Ord});
impl<K: Encode + Ord, V: Encode> Encode for BTreeMap<K, V> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { Compact(self.len() as u32).encode_to(d); for (k, v) in self { k.encode_to(d); v.encode_to(d) } } }
impl<K: Encode + Ord, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let n = declen(i)?; let mut m = BTreeMap::new(); for _ in 0..n { m.insert(K::decode(i)?, V::decode(i)?); } Ok(m) } }
macro_rules! tuples { ($(($($t:ident $u:ident $k:tt),*))*) => {$(
    impl<$($t: Encode),*> Encode for ($($t,)*) { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { $(self.$k.encode_to(d);)* } }
    impl<$($t: EncodeLike<$u>, $u: Encode),*> EncodeLike<($($u,)*)> for ($($t,)*) {}
    impl<$($t: Decode),*> Decode for ($($t,)*) { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(($($t::decode(i)?,)*)) } }
)*} }
tuples! { (A AA 0) (A AA 0, B BB 1) (A AA 0, B BB 1, C CC 2) (A AA 0, B BB 1, C CC 2, D DD 3) (A AA 0, B BB 1, C CC 2, D DD 3, E EE 4) (A AA 0, B BB 1, C CC 2, D DD 3, E EE 4, F FF 5) }
impl Encode for std::time::Duration { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { (self.as_secs(), self.subsec_nanos()).encode_to(d) } }
impl EncodeLike for std::time::Duration {}
impl Decode for std::time::Duration { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let (s, n) = <(u64, u32)>::decode(i)?; Ok(std::time::Duration::new(s, n)) } }
macro_rules! nonzero { ($($t:ty, $u:ty);*) => {$(
    impl Encode for $t { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.get().encode_to(d) } }
    impl EncodeLike for $t {}
    impl Decode for $t { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { <$t>::new(<$u>::decode(i)?).ok_or("cannot create non-zero number from 0".into()) } }
)*} }
nonzero!(std::num::NonZeroU8, u8; std::num::NonZeroU16, u16; std::num::NonZeroU32, u32; std::num::NonZeroU64, u64; std::num::NonZeroU128, u128);

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> { fn from(t: T) -> Self { Compact(t) } }
pub trait HasCompact: Sized { type Type: Encode + Decode + From<Self> + Into<Self> + Clone; }
pub trait CompactLen<T> { fn compact_len(v: &T) -> usize; }
fn clen(v: u128) -> usize {
    if v < 1 << 6 { 1 } else if v < 1 << 14 { 2 } else if v < 1 << 30 { 4 } else { 1 + ((128 - v.leading_zeros() as usize + 7) / 8).max(4) }
}
macro_rules! compact { ($($t:ty),*) => {$(
    impl Encode for Compact<$t> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
        let v = self.0 as u128;
        match clen(v) {
            1 => d.push_byte((v as u8) << 2),
            2 => d.write(&(((v as u16) << 2) | 1).to_le_bytes()),
            4 => d.write(&(((v as u32) << 2) | 2).to_le_bytes()),
            n => { let k = n - 1; d.push_byte(3 + (((k - 4) as u8) << 2)); d.write(&v.to_le_bytes()[..k]) }
        }
    } }
    impl EncodeLike for Compact<$t> {}
    impl CompactLen<$t> for Compact<$t> { fn compact_len(v: &$t) -> usize { clen(*v as u128) } }
    impl Decode for Compact<$t> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        let b = i.read_byte()?;
        let mut buf = [0u8; 16];
        let (v, min): (u128, u128) = match b & 3 {
            0 => ((b >> 2) as u128, 0),
            1 => { buf[0] = b; i.read(&mut buf[1..2])?; (u128::from_le_bytes(buf) >> 2, 1 << 6) }
            2 => { buf[0] = b; i.read(&mut buf[1..4])?; (u128::from_le_bytes(buf) >> 2, 1 << 14) }
            _ => { let k = (b >> 2) as usize + 4; if k > 16 { return Err("unexpected prefix decoding Compact".into()); } i.read(&mut buf[..k])?; (u128::from_le_bytes(buf), if k == 4 { 1 << 30 } else { 1 << (8 * (k - 1)) }) }
        };
        if v < min { return Err("out of range decoding Compact".into()); }
        <$t>::try_from(v).map(Compact).map_err(|_| "out of range decoding Compact".into())
    } }
    impl From<Compact<$t>> for $t { fn from(c: Compact<$t>) -> $t { c.0 } }
    impl HasCompact for $t { type Type = Compact<$t>; }
)*} }
compact!(u8, u16, u32, u64, u128);
