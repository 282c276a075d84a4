// Signatures: a message is signed by hashing it and handing hash, key and auxiliary data to the library; a signature verifies
// exactly if the library accepts it for the hash of that message under the x-only form of that key. The hash and the signature
// scheme are uninterpreted; of the scheme it is assumed that what a key signs verifies.
use vstd::prelude::*;
//@ source M crypto/src/key/secp256k1/mod.rs
//@ source K crypto/src/key/mod.rs
//@ source H crypto/src/key/key_holder.rs
//@ source S crypto/src/key/signature/mod.rs
//@ source A crypto/src/key/aux_data_provider.rs
pub mod secp256k1 {
use vstd::prelude::*;
verus! {
pub mod schnorr { use vstd::prelude::*; use super::Error; verus! {
#[verifier::external_body]
pub struct Signature { x: [u8; 64] }
impl Signature {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: Result<Signature, Error>) ensures match r { Ok(s) => b@.len() == 64 && s@ == b@, Err(_) => b@.len() != 64 } { unimplemented!() }
}
} }
#[derive(Debug)]
pub struct Error;
pub struct All; pub struct VerifyOnly;
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Secp256k1<C> { x: core::marker::PhantomData<C> }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SecretKey { x: [u8; 32] }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PublicKey { x: [u8; 64] }
#[verifier::external_body]
pub struct XOnlyPublicKey { x: u8 }
#[verifier::external_body]
pub struct Message { x: u8 }
#[verifier::external_body]
pub struct Keypair { x: u8 }
pub struct Parity;
pub struct Point(pub int);
pub uninterp spec fn point(k: Seq<u8>) -> Point;
pub uninterp spec fn x_only(p: Point) -> Seq<u8>;
pub uninterp spec fn compressed(p: Point) -> Seq<u8>;
pub uninterp spec fn is_key(b: Seq<u8>) -> bool;
pub uninterp spec fn is_point(b: Seq<u8>) -> Option<Point>;
pub uninterp spec fn schnorr_sign(k: Seq<u8>, m: Seq<u8>, aux: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn schnorr_ok(x: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool;
/// (of the library) signatures verify; keys written are read
#[verifier::external_body]
pub proof fn signatures_verify(k: Seq<u8>, m: Seq<u8>, aux: Seq<u8>) ensures schnorr_ok(x_only(point(k)), m, schnorr_sign(k, m, aux)) {}
#[verifier::external_body]
pub proof fn points_read(p: Point) ensures is_point(compressed(p)) == Some(p), compressed(p).len() == 33 {}
impl Secp256k1<All> {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn sign_schnorr_with_aux_rand(&self, m: &Message, k: &Keypair, aux: &[u8; 32]) -> (r: schnorr::Signature) ensures r@ == schnorr_sign(k@, m@, aux@) { unimplemented!() }
}
impl Secp256k1<VerifyOnly> {
    #[verifier::external_body]
    pub fn verify_schnorr(&self, s: &schnorr::Signature, m: &Message, x: &XOnlyPublicKey) -> (r: Result<(), Error>) ensures r is Ok == schnorr_ok(x@, m@, s@) { unimplemented!() }
}
impl SecretKey {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: Result<SecretKey, Error>) ensures match r { Ok(k) => is_key(b@) && k@ == b@, Err(_) => !is_key(b@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn keypair(&self, s: &Secp256k1<All>) -> (r: Keypair) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl Keypair { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl XOnlyPublicKey { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl Message {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_digest_slice(b: &[u8]) -> (r: Result<Message, Error>) ensures match r { Ok(m) => b@.len() == 32 && m@ == b@, Err(_) => b@.len() != 32 } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_digest(b: [u8; 32]) -> (r: Message) ensures r@ == b@ { unimplemented!() }
}
impl PublicKey {
    pub uninterp spec fn view(&self) -> Point;
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: Result<PublicKey, Error>) ensures match r { Ok(p) => is_point(b@) == Some(p@), Err(_) => is_point(b@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secret_key(s: &Secp256k1<All>, k: &SecretKey) -> (r: PublicKey) ensures r@ == point(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(&self) -> (r: [u8; 33]) ensures r@ == compressed(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn x_only_public_key(&self) -> (r: (XOnlyPublicKey, Parity)) ensures r.0@ == x_only(self@) { unimplemented!() }
}
pub mod constants { pub const PUBLIC_KEY_SIZE: usize = 33; }
} }
//@ mono AuxP Aux
//@ path Secp256k1Schnorr => Signature::Secp256k1Schnorr
verus! {
global size_of usize == 8;
use secp256k1::*;
#[verifier::external_body]
fn vf_verifier() -> (r: &'static Secp256k1<VerifyOnly>) { unimplemented!() }
/// Where auxiliary data come from
#[verifier::external_body]
pub struct Aux { x: u8 }
impl Aux {
    pub uninterp spec fn next(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn get_secp256k1_schnorr_aux_data(&mut self) -> (r: [u8; 32]) ensures r@ == old(self).next() { unimplemented!() }
}
/// The hash of a message (the contracts of the stream are proved in stream.vrs)
pub uninterp spec fn blake(m: Seq<u8>) -> Seq<u8>;
pub struct Blake2b32Stream { pub fed: Ghost<Seq<u8>> }
#[verifier::external_body]
pub struct Digest32 { x: u8 }
impl Digest32 {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() == 32 { unimplemented!() }
}
impl Blake2b32Stream {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.fed@ == Seq::<u8>::empty() { unimplemented!() }
    /// (write returns the stream itself)
    #[verifier::external_body]
    pub fn write(self, d: &[u8]) -> (r: Self) ensures r.fed@ == self.fed@ + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: Digest32) ensures r@ == blake(self.fed@) { unimplemented!() }
}
//@ struct M Secp256k1PrivateKey
//@ struct M Secp256k1PublicKey
//@ enum M Secp256k1KeyError
//@ enum H PrivateKeyHolder
//@ enum H PublicKeyHolder
//@ enum S Signature
//@ enum S SignatureKind
//@ enum K SignatureError
//@ enum K KeyKind
//@ struct K PrivateKey
//@ struct K PublicKey
//@ struct A PredefinedSigAuxDataProvider
pub type Bytes<'a> = &'a [u8];
impl PrivateKey { pub open spec fn bytes(self) -> Seq<u8> { match self.key { PrivateKeyHolder::Secp256k1Schnorr(k) => k.data@ } } }
impl PublicKey { pub open spec fn point(self) -> Point { match self.pub_key { PublicKeyHolder::Secp256k1Schnorr(k) => k.pubkey_data@ } } }
impl Signature { pub open spec fn bytes(self) -> Seq<u8> { match self { Signature::Secp256k1Schnorr(s) => s@ } } }
/// What a key makes of a message, and when a signature is accepted
pub open spec fn signature_of(k: Seq<u8>, msg: Seq<u8>, aux: Seq<u8>) -> Seq<u8> { schnorr_sign(k, blake(msg), aux) }
pub open spec fn accepted(p: Point, msg: Seq<u8>, s: Seq<u8>) -> bool { schnorr_ok(x_only(p), blake(msg), s) }
/// A signature made with a key is accepted for its public key and the message
pub proof fn signed_is_accepted(k: Seq<u8>, msg: Seq<u8>, aux: Seq<u8>) ensures accepted(point(k), msg, signature_of(k, msg, aux)) { signatures_verify(k, blake(msg), aux); }
pub trait VfInto<T>: Sized { spec fn same(self, t: T) -> bool; fn vf_into(self) -> (r: T) ensures self.same(r); }
impl VfInto<PublicKey> for Secp256k1PublicKey {
    open spec fn same(self, t: PublicKey) -> bool { t.point() == self.pubkey_data@ }
    fn vf_into(self) -> (r: PublicKey) { PublicKey::from(self) }
}
impl VfInto<[u8; 32]> for Digest32 {
    open spec fn same(self, t: [u8; 32]) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn vf_into(self) -> (r: [u8; 32]) { unimplemented!() }
}
//@ inherent A impl Secp256k1SchnorrAuxDataProvider for PredefinedSigAuxDataProvider
//@ fn get_secp256k1_schnorr_aux_data
//@|    ensures r@ == Seq::new(32, |i: int| 0u8)
//@ . proof end
//@|    proof { assert(vf_ret@ =~= Seq::new(32, |i: int| 0u8)); }
//@ endimpl
//@ impl M impl Secp256k1PrivateKey
//@ fn as_bytes
//@|    ensures r@ == self.data@
//@ fn from_bytes
//@ . opt result
//@|    ensures match r { Ok(k) => is_key(bytes@) && k.data@ == bytes@, Err(_) => !is_key(bytes@) }
//@ fn as_native
//@|    ensures *r == self.data
//@ fn from_native
//@|    ensures r.data == native
//@ fn sign_message
//@ . opt result
//@|    ensures r@ == signature_of(self.data@, msg@, old(aux_data_provider).next())
//@ . proof start
//@|    proof { assert(Seq::<u8>::empty() + msg@ =~= msg@); }
//@ endimpl
//@ impl M impl Secp256k1PublicKey
//@ fn as_bytes
//@|    ensures r@ == compressed(self.pubkey_data@)
//@ fn from_bytes
//@ . opt result
//@|    ensures match r { Ok(p) => is_point(bytes@) == Some(p.pubkey_data@), Err(_) => is_point(bytes@) is None }
//@ fn as_native
//@|    ensures *r == self.pubkey_data
//@ fn from_native
//@|    ensures r.pubkey_data == native
//@ fn from_private_key
//@|    ensures r.pubkey_data@ == point(private_key.data@)
//@ fn verify_message
//@ . method into => vf_into
//@|    ensures r == accepted(self.pubkey_data@, msg@, signature@)
//@ . proof start
//@|    proof { assert(Seq::<u8>::empty() + msg@ =~= msg@); }
//@ fn verify_message_hashed
//@ . replace VERIFIER =>> vf_verifier()
//@|    ensures r == schnorr_ok(x_only(self.pubkey_data@), msg_hashed@, signature@)
//@ endimpl
//@ impl K impl PrivateKey
//@ fn kind
//@ fn get_internal_key
//@|    ensures *r == self.key
//@ fn sign_message
//@|    ensures r matches Ok(s) && s.bytes() == signature_of(self.bytes(), msg@, old(aux_data_provider).next())
//@ endimpl
//@ inherent K impl From<Secp256k1PrivateKey> for PrivateKey
//@ fn from
//@|    ensures r.bytes() == sk.data@
//@ endimpl
//@ inherent K impl From<Secp256k1PublicKey> for PublicKey
//@ fn from
//@|    ensures r.point() == pk.pubkey_data@
//@ endimpl
//@ impl K impl PublicKey
//@ fn from_private_key
//@ . method into => vf_into
//@|    ensures r.point() == point(private_key.bytes())
//@ fn verify_message
//@|    ensures r == accepted(self.point(), msg@, signature.bytes())
//@ fn is_aggregable
//@|    ensures !r
//@ endimpl
//@ impl S impl Signature
//@ fn from_raw_data
//@ . mono T Bytes
//@ . replace data.as_ref() =>> data
//@|    ensures match r { Ok(s) => data@.len() == 64 && s.bytes() == data@, Err(_) => data@.len() != 64 }
//@ fn is_aggregable
//@|    ensures !r
//@ fn kind
//@|    ensures r is Secp256k1Schnorr
//@ endimpl
}
fn main() {}
