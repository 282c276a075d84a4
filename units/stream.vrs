// Hashes in one go and in pieces, over an uninterpreted digest function of each library type: a stream gives the digest of
// what was written since it was made, reset or finalized; the sizes are those of the stream type.
use vstd::prelude::*;
//@ source I crypto/src/hash/internal.rs
//@ source H crypto/src/hash/mod.rs
//@ expand H impl_hasher_stream_with_extra_steps_trait Sha256Ripmd160Stream Ripemd160 generic_array::typenum::U20
//@ expand H impl_hasher_trait Blake2b blake2::Blake2b<typenum::U64> typenum::U64
//@ expand H impl_hasher_stream_trait Blake2bStream generic_array::typenum::U64
//@ expand H impl_hasher_trait Blake2b32 blake2::Blake2b<typenum::U64> typenum::U32
//@ expand H impl_hasher_stream_trait Blake2b32Stream generic_array::typenum::U32
//@ expand H impl_hasher_trait Sha1 sha1::Sha1 typenum::U20
//@ expand H impl_hasher_stream_trait Sha1Stream generic_array::typenum::U20
//@ expand H impl_hasher_trait Sha256 sha2::Sha256 typenum::U32
//@ expand H impl_hasher_stream_trait Sha256Stream generic_array::typenum::U32
//@ expand H impl_hasher_trait Sha3_512 sha3::Sha3_512 typenum::U64
//@ expand H impl_hasher_stream_trait Sha3_512Stream generic_array::typenum::U64
//@ expand H impl_hasher_trait Ripemd160 ripemd::Ripemd160 typenum::U20
//@ expand H impl_hasher_stream_trait Ripemd160Stream generic_array::typenum::U20
//@ expand H impl_hasher_stream_with_extra_steps_trait Sha256Ripmd160Stream Ripemd160 generic_array::typenum::U20
//@ mono T Bytes
//@ path blake2::Blake2b => Lib
//@ path sha1::Sha1 => Sha1Lib
//@ path sha2::Sha256 => Sha256Lib
//@ path sha3::Sha3_512 => Sha3Lib
//@ path ripemd::Ripemd160 => RipemdLib
//@ path typenum::U64 => U64
//@ path typenum::U32 => U32
//@ path typenum::U20 => U20
verus! {
pub struct U20; pub struct U32; pub struct U64;
pub trait Size { spec fn n() -> nat; }
impl Size for U20 { open spec fn n() -> nat { 20 } }
impl Size for U32 { open spec fn n() -> nat { 32 } }
impl Size for U64 { open spec fn n() -> nat { 64 } }
/// generic_array::GenericArray<u8, N>: N bytes, of which split() gives the first M and the rest
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
pub struct Arr<N> { n: core::marker::PhantomData<N> }
impl<N: Size> Arr<N> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn split<M: Size>(self) -> (r: (Arr<M>, ())) requires M::n() <= N::n() ensures r.0@ == self@.take(M::n() as int) { unimplemented!() }
}
/// The digests of the libraries (blake2, sha1, sha2, sha3, ripemd): a function of the bytes fed since new() or the last reset
pub trait Lib0: Sized {
    type Out;
    spec fn digest(data: Seq<u8>) -> Seq<u8>;
    spec fn fed(&self) -> Seq<u8>;
    spec fn bytes(o: Self::Out) -> Seq<u8>;
    fn new() -> (r: Self) ensures r.fed() == Seq::<u8>::empty();
    fn update(&mut self, d: &[u8]) ensures final(self).fed() == old(self).fed() + d@;
    fn reset(&mut self) ensures final(self).fed() == Seq::<u8>::empty();
    fn finalize(self) -> (r: Self::Out) ensures Self::bytes(r) == Self::digest(self.fed());
    fn finalize_reset(&mut self) -> (r: Self::Out) ensures final(self).fed() == Seq::<u8>::empty(), Self::bytes(r) == Self::digest(old(self).fed());
}
}
macro_rules! lib { ($t:ident, $n:ident) => { verus! {
#[verifier::external_body]
pub struct $t { x: u8 }
impl $t { pub uninterp spec fn digest_(data: Seq<u8>) -> Seq<u8>; pub uninterp spec fn fed_(&self) -> Seq<u8>; }
impl Lib0 for $t {
    type Out = Arr<$n>;
    open spec fn digest(data: Seq<u8>) -> Seq<u8> { Self::digest_(data) }
    open spec fn fed(&self) -> Seq<u8> { self.fed_() }
    open spec fn bytes(o: Arr<$n>) -> Seq<u8> { o@ }
    #[verifier::external_body]
    fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn update(&mut self, d: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn reset(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn finalize(self) -> (r: Arr<$n>) { unimplemented!() }
    #[verifier::external_body]
    fn finalize_reset(&mut self) -> (r: Arr<$n>) { unimplemented!() }
}
} } }
lib!(Blake2Lib, U64);
lib!(Sha1Lib, U20);
lib!(Sha256Lib, U32);
lib!(Sha3Lib, U64);
lib!(RipemdLib, U20);
pub type Lib<N> = <N as WithSize>::L;
pub trait WithSize { type L; }
impl WithSize for U64 { type L = Blake2Lib; }
verus! {
//@ path Digest => Lib0
//@ path Reset => Lib0
//@ path FixedOutputReset => Lib0
pub type Bytes<'a> = &'a [u8];
//@ fn I hash as vf_hash
//@ . retype D::Out
//@|    ensures D::bytes(r) == D::digest(in_bytes@)
//@ . proof start
//@|    proof { assert(Seq::<u8>::empty() + in_bytes@ =~= in_bytes@); }
//@ struct I InternalStreamHasher
//@ impl I impl<D: Digest + Reset + FixedOutputReset> InternalStreamHasher<D>
//@ fn new
//@|    ensures r.hasher.fed() == Seq::<u8>::empty()
//@ fn write
//@|    ensures final(self).hasher.fed() == old(self).hasher.fed() + in_bytes@
//@ fn reset
//@|    ensures final(self).hasher.fed() == Seq::<u8>::empty()
//@ fn finalize
//@ . retype D::Out
//@|    ensures final(self).hasher.fed() == Seq::<u8>::empty(), D::bytes(r) == D::digest(old(self).hasher.fed())
//@ endimpl
pub struct Blake2b; pub struct Blake2b32; pub struct Sha1; pub struct Sha256; pub struct Sha3_512; pub struct Ripemd160;
//@ inherent H impl Hasher for Blake2b
//@ fn hash
//@ . replace internal::hash::<blake2::Blake2b<typenum::U64>, T>(data) =>> vf_hash::<Blake2Lib>(data)
//@ . retype Arr<U64>
//@|    ensures r@ == Blake2Lib::digest_(data@).take(64)
//@ endimpl
//@ struct H Blake2bStream
//@ inherent H impl StreamHasher for Blake2bStream
//@ fn new
//@|    ensures r.0.hasher.fed() == Seq::<u8>::empty()
//@ fn write
//@|    ensures r.0.hasher.fed() == old(self).0.hasher.fed() + in_bytes@, *final(r) == *final(self)
//@ fn reset
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty()
//@ fn finalize
//@ . retype Arr<U64>
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty(), r@ == Blake2Lib::digest_(old(self).0.hasher.fed()).take(64)
//@ endimpl
//@ inherent H impl Hasher for Blake2b32
//@ fn hash
//@ . replace internal::hash::<blake2::Blake2b<typenum::U64>, T>(data) =>> vf_hash::<Blake2Lib>(data)
//@ . retype Arr<U32>
//@|    ensures r@ == Blake2Lib::digest_(data@).take(32)
//@ endimpl
//@ struct H Blake2b32Stream
//@ inherent H impl StreamHasher for Blake2b32Stream
//@ fn new
//@|    ensures r.0.hasher.fed() == Seq::<u8>::empty()
//@ fn write
//@|    ensures r.0.hasher.fed() == old(self).0.hasher.fed() + in_bytes@, *final(r) == *final(self)
//@ fn reset
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty()
//@ fn finalize
//@ . retype Arr<U32>
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty(), r@ == Blake2Lib::digest_(old(self).0.hasher.fed()).take(32)
//@ endimpl
//@ inherent H impl Hasher for Sha1
//@ fn hash
//@ . replace internal::hash::<sha1::Sha1, T>(data) =>> vf_hash::<Sha1Lib>(data)
//@ . retype Arr<U20>
//@|    ensures r@ == Sha1Lib::digest_(data@).take(20)
//@ endimpl
//@ struct H Sha1Stream
//@ inherent H impl StreamHasher for Sha1Stream
//@ fn new
//@|    ensures r.0.hasher.fed() == Seq::<u8>::empty()
//@ fn write
//@|    ensures r.0.hasher.fed() == old(self).0.hasher.fed() + in_bytes@, *final(r) == *final(self)
//@ fn reset
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty()
//@ fn finalize
//@ . retype Arr<U20>
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty(), r@ == Sha1Lib::digest_(old(self).0.hasher.fed()).take(20)
//@ endimpl
//@ inherent H impl Hasher for Sha256
//@ fn hash
//@ . replace internal::hash::<sha2::Sha256, T>(data) =>> vf_hash::<Sha256Lib>(data)
//@ . retype Arr<U32>
//@|    ensures r@ == Sha256Lib::digest_(data@).take(32)
//@ endimpl
//@ struct H Sha256Stream
//@ inherent H impl StreamHasher for Sha256Stream
//@ fn new
//@|    ensures r.0.hasher.fed() == Seq::<u8>::empty()
//@ fn write
//@|    ensures r.0.hasher.fed() == old(self).0.hasher.fed() + in_bytes@, *final(r) == *final(self)
//@ fn reset
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty()
//@ fn finalize
//@ . retype Arr<U32>
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty(), r@ == Sha256Lib::digest_(old(self).0.hasher.fed()).take(32)
//@ endimpl
//@ inherent H impl Hasher for Sha3_512
//@ fn hash
//@ . replace internal::hash::<sha3::Sha3_512, T>(data) =>> vf_hash::<Sha3Lib>(data)
//@ . retype Arr<U64>
//@|    ensures r@ == Sha3Lib::digest_(data@).take(64)
//@ endimpl
//@ struct H Sha3_512Stream
//@ inherent H impl StreamHasher for Sha3_512Stream
//@ fn new
//@|    ensures r.0.hasher.fed() == Seq::<u8>::empty()
//@ fn write
//@|    ensures r.0.hasher.fed() == old(self).0.hasher.fed() + in_bytes@, *final(r) == *final(self)
//@ fn reset
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty()
//@ fn finalize
//@ . retype Arr<U64>
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty(), r@ == Sha3Lib::digest_(old(self).0.hasher.fed()).take(64)
//@ endimpl
//@ inherent H impl Hasher for Ripemd160
//@ fn hash
//@ . replace internal::hash::<ripemd::Ripemd160, T>(data) =>> vf_hash::<RipemdLib>(data)
//@ . retype Arr<U20>
//@|    ensures r@ == RipemdLib::digest_(data@).take(20)
//@ endimpl
//@ struct H Ripemd160Stream
//@ inherent H impl StreamHasher for Ripemd160Stream
//@ fn new
//@|    ensures r.0.hasher.fed() == Seq::<u8>::empty()
//@ fn write
//@|    ensures r.0.hasher.fed() == old(self).0.hasher.fed() + in_bytes@, *final(r) == *final(self)
//@ fn reset
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty()
//@ fn finalize
//@ . retype Arr<U20>
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty(), r@ == RipemdLib::digest_(old(self).0.hasher.fed()).take(20)
//@ endimpl
//@ struct H Sha256Ripmd160Stream
//@ inherent H impl StreamHasher for Sha256Ripmd160Stream
//@ fn new
//@|    ensures r.0.hasher.fed() == Seq::<u8>::empty()
//@ fn write
//@|    ensures r.0.hasher.fed() == old(self).0.hasher.fed() + in_bytes@, *final(r) == *final(self)
//@ fn reset
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty()
//@ fn finalize
//@ . replace hash::<Ripemd160, _>(first_res) =>> Ripemd160::hash(first_res.as_bytes())
//@ . retype Arr<U20>
//@|    ensures final(self).0.hasher.fed() == Seq::<u8>::empty(), r@ == RipemdLib::digest_(Sha256Lib::digest_(old(self).0.hasher.fed())).take(20)
//@ endimpl
}
fn main() {}
