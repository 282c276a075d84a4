// Deriving child keys: what is put into the keyed hash, how its output makes the child key and chain code, what is refused,
// and that a public key derives the public key of what its private key derives. The keyed hash (HMAC-SHA512) and the curve are
// uninterpreted; of the curve it is assumed that adding a tweak to a private key adds it to the public key.
use vstd::prelude::*;
//@ source K crypto/src/key/secp256k1/extended_keys.rs
//@ source M crypto/src/key/secp256k1/mod.rs
//@ source T crypto/src/util/mod.rs
//@ source C crypto/src/key/hdkd/chain_code.rs
//@ source U crypto/src/key/hdkd/u31.rs
//@ source N crypto/src/key/hdkd/child_number.rs
//@ source P crypto/src/key/hdkd/derivation_path.rs
//@ source D crypto/src/key/hdkd/derivable.rs
//@ inline T to_key_and_chain_code as util::to_key_and_chain_code
pub mod secp256k1 {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SecretKey { x: [u8; 32] }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PublicKey { x: [u8; 64] }
#[verifier::external_body]
pub struct Scalar { x: [u8; 32] }
pub struct Error;
pub struct All;
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Secp256k1<C> { x: core::marker::PhantomData<C> }
impl Secp256k1<All> {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
}
/// a point of the curve
pub struct Point(pub int);
pub uninterp spec fn is_key(b: Seq<u8>) -> bool;
pub uninterp spec fn point(k: Seq<u8>) -> Point;
pub uninterp spec fn add_key(k: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn add_point(p: Point, t: Seq<u8>) -> Option<Point>;
pub uninterp spec fn compressed(p: Point) -> Seq<u8>;
#[verifier::external_body]
pub proof fn curve(k: Seq<u8>, t: Seq<u8>)
    ensures match add_key(k, t) { Some(s) => add_point(point(k), t) == Some(point(s)), None => add_point(point(k), t) is None }, is_key(t) && is_key(k) ==> add_key(k, t) == add_key(t, k) {}
impl SecretKey {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: Result<SecretKey, Error>) ensures match r { Ok(k) => is_key(b@) && k@ == b@, Err(_) => !is_key(b@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn add_tweak(self, t: &Scalar) -> (r: Result<SecretKey, Error>) ensures match r { Ok(k) => add_key(self@, t@) == Some(k@), Err(_) => add_key(self@, t@) is None } { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn keys(k: SecretKey) ensures (#[trigger] k@).len() == 32, is_key(k@) {}
impl Scalar { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl PublicKey {
    pub uninterp spec fn view(&self) -> Point;
    #[verifier::external_body]
    pub fn from_secret_key(s: &Secp256k1<All>, k: &SecretKey) -> (r: PublicKey) ensures r@ == point(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(&self) -> (r: [u8; 33]) ensures r@ == compressed(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_exp_tweak(self, s: &Secp256k1<All>, t: &Scalar) -> (r: Result<PublicKey, Error>) ensures match r { Ok(p) => add_point(self@, t@) == Some(p@), Err(_) => add_point(self@, t@) is None } { unimplemented!() }
}
} }
verus! {
global size_of usize == 8;
broadcast use secp256k1::keys;
use secp256k1::{SecretKey, Scalar, point, compressed, add_key, add_point, is_key, Point};
//@ struct U U31 derive Clone,Copy
//@ struct N ChildNumber derive Clone,Copy
//@ struct P DerivationPath
//@ const P MAX_PATH_SIZE
//@ enum D DerivationError
//@ const C CHAINCODE_LENGTH
//@ struct C ChainCode derive Clone,Copy
//@ struct M Secp256k1PrivateKey
//@ struct M Secp256k1PublicKey
//@ struct K Secp256k1ExtendedPrivateKey
//@ struct K Secp256k1ExtendedPublicKey
/// HMAC-SHA512
pub uninterp spec fn hmac(key: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub struct Sha512;
#[derive(Clone, Copy)]
pub struct U32;
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Hmac<D> { x: core::marker::PhantomData<D> }
#[verifier::external_body]
pub struct CtOutput { x: u8 }
#[verifier::external_body]
pub struct Out64 { x: u8 }
/// 32 bytes of the library's generic arrays
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct GenericArray<A, B> { x: core::marker::PhantomData<(A, B)> }
#[derive(Debug)]
pub struct InvalidLength;
impl Hmac<Sha512> {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_from_slice(key: &[u8]) -> (r: Result<Hmac<Sha512>, InvalidLength>) ensures r matches Ok(m) && m.key() == key@ && m.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, d: &[u8]) ensures final(self).key() == old(self).key(), final(self).fed() == old(self).fed() + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: CtOutput) ensures r@ == hmac(self.key(), self.fed()) { unimplemented!() }
}
impl CtOutput {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Out64) ensures r@ == self@ { unimplemented!() }
}
impl Out64 {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn split(&self) -> (r: (GenericArray<u8, U32>, GenericArray<u8, U32>)) ensures r.0@ == self@.take(32), r.1@ == self@.skip(32) { unimplemented!() }
    #[verifier::external_body]
    pub fn zeroize(&mut self) { unimplemented!() }
}
impl Clone for GenericArray<u8, U32> {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
impl Copy for GenericArray<u8, U32> {}
impl GenericArray<u8, U32> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn zeroize(&mut self) { unimplemented!() }
}
/// Into, with a contract
pub trait VfInto<T>: Sized {
    spec fn same(self, t: T) -> bool;
    fn vf_into(self) -> (r: T) ensures self.same(r);
}
impl VfInto<[u8; CHAINCODE_LENGTH]> for GenericArray<u8, U32> {
    open spec fn same(self, t: [u8; CHAINCODE_LENGTH]) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn vf_into(self) -> (r: [u8; CHAINCODE_LENGTH]) { unimplemented!() }
}
impl VfInto<Scalar> for SecretKey {
    open spec fn same(self, t: Scalar) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn vf_into(self) -> (r: Scalar) { unimplemented!() }
}
impl VfInto<Secp256k1PrivateKey> for SecretKey {
    open spec fn same(self, t: Secp256k1PrivateKey) -> bool { t.data == self }
    fn vf_into(self) -> (r: Secp256k1PrivateKey) { Secp256k1PrivateKey::from(self) }
}
impl VfInto<Secp256k1PublicKey> for secp256k1::PublicKey {
    open spec fn same(self, t: Secp256k1PublicKey) -> bool { t.pubkey_data == self }
    fn vf_into(self) -> (r: Secp256k1PublicKey) { Secp256k1PublicKey::from(self) }
}
pub trait VfTry { fn vf_try(self) -> (r: Result<DerivationPath, DerivationError>); }
impl VfTry for Vec<ChildNumber> {
    fn vf_try(self) -> (r: Result<DerivationPath, DerivationError>)
        ensures match r { Ok(p) => p.0 == self && self@.len() <= 255, Err(e) => self@.len() > 255 && e == DerivationError::PathTooLong }
    { DerivationPath::try_from(self) }
}
//@ inherent M impl From<secp256k1::SecretKey> for Secp256k1PrivateKey
//@ fn from
//@|    ensures r.data == sk
//@ endimpl
//@ inherent M impl From<secp256k1::PublicKey> for Secp256k1PublicKey
//@ fn from
//@|    ensures r.pubkey_data == pk
//@ endimpl
#[verifier::external_body]
fn vf_key_bytes(k: &SecretKey) -> (r: &[u8]) ensures r@ == k@ { unimplemented!() }
impl View for ChainCode { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl View for Secp256k1PrivateKey { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.data@ } }
impl View for Secp256k1PublicKey { type V = Point; open spec fn view(&self) -> Point { self.pubkey_data@ } }
impl View for DerivationPath { type V = Seq<ChildNumber>; open spec fn view(&self) -> Seq<ChildNumber> { self.0@ } }
impl DerivationPath {
    #[verifier::external_body]
    pub fn vf_clone(&self) -> (r: DerivationPath) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: DerivationPath) ensures r@.len() == 0 { unimplemented!() }
}
pub uninterp spec fn be4(x: u32) -> Seq<u8>;
/// What is hashed for a child: the key for a hardened child, the public key for others; then the number
pub open spec fn fed_private(k: Seq<u8>, num: ChildNumber) -> Seq<u8> { (if num.0 >= 0x8000_0000 { seq![0u8] + k } else { compressed(point(k)) }) + be4(num.0) }
pub open spec fn hash_private(e: Secp256k1ExtendedPrivateKey, num: ChildNumber) -> Seq<u8> { hmac(e.chain_code@, fed_private(e.private_key@, num)) }
pub open spec fn hash_public(e: Secp256k1ExtendedPublicKey, num: ChildNumber) -> Seq<u8> { hmac(e.chain_code@, compressed(e.public_key@) + be4(num.0)) }
/// The child of an extended private key
pub open spec fn child_private(e: Secp256k1ExtendedPrivateKey, num: ChildNumber, c: Secp256k1ExtendedPrivateKey) -> bool {
    let h = hash_private(e, num);
    is_key(h.take(32)) && add_key(e.private_key@, h.take(32)) == Some(c.private_key@) && c.chain_code@ == h.skip(32) && c.derivation_path@ == e.derivation_path@.push(num)
}
pub open spec fn no_child_private(e: Secp256k1ExtendedPrivateKey, num: ChildNumber, x: DerivationError) -> bool {
    let h = hash_private(e, num);
    if !is_key(h.take(32)) || add_key(e.private_key@, h.take(32)) is None { x is KeyDerivationError } else { e.derivation_path@.len() >= 255 && x is PathTooLong }
}
pub open spec fn child_public(e: Secp256k1ExtendedPublicKey, num: ChildNumber, c: Secp256k1ExtendedPublicKey) -> bool {
    let h = hash_public(e, num);
    num.0 < 0x8000_0000 && is_key(h.take(32)) && add_point(e.public_key@, h.take(32)) == Some(c.public_key@) && c.chain_code@ == h.skip(32) && c.derivation_path@ == e.derivation_path@.push(num)
}
pub open spec fn no_child_public(e: Secp256k1ExtendedPublicKey, num: ChildNumber, x: DerivationError) -> bool {
    let h = hash_public(e, num);
    if num.0 >= 0x8000_0000 { x == DerivationError::CannotDeriveHardenedKeyFromPublicKey(num) }
    else if !is_key(h.take(32)) || add_point(e.public_key@, h.take(32)) is None { x is KeyDerivationError } else { e.derivation_path@.len() >= 255 && x is PathTooLong }
}
/// the public form of an extended private key
pub open spec fn public_form(e: Secp256k1ExtendedPrivateKey, p: Secp256k1ExtendedPublicKey) -> bool { p.chain_code@ == e.chain_code@ && p.public_key@ == point(e.private_key@) && p.derivation_path@ == e.derivation_path@ }
/// For a normal child number: the public key's child is the public form of the private key's child
pub proof fn public_agrees(e: Secp256k1ExtendedPrivateKey, p: Secp256k1ExtendedPublicKey, num: ChildNumber, c: Secp256k1ExtendedPrivateKey, q: Secp256k1ExtendedPublicKey)
    requires public_form(e, p), num.0 < 0x8000_0000, child_private(e, num, c), child_public(p, num, q)
    ensures public_form(c, q)
{ secp256k1::curve(e.private_key@, hash_private(e, num).take(32)); }
/// and where the one has no child, the other has none
pub proof fn public_refuses(e: Secp256k1ExtendedPrivateKey, p: Secp256k1ExtendedPublicKey, num: ChildNumber, c: Secp256k1ExtendedPrivateKey, q: Secp256k1ExtendedPublicKey, x: DerivationError)
    requires public_form(e, p), num.0 < 0x8000_0000
    ensures !(child_private(e, num, c) && c.derivation_path@.len() <= 255 && no_child_public(p, num, x)), !(no_child_private(e, num, x) && child_public(p, num, q) && q.derivation_path@.len() <= 255)
{ secp256k1::curve(e.private_key@, hash_private(e, num).take(32)); }
//@ const U MSB_BIT
//@ impl U impl U31
//@ fn from_u32_with_msb
//@|    ensures r.1 == (val >= 0x8000_0000)
//@ . proof start
//@|    proof { assert((val & 0x8000_0000 != 0) == (val >= 0x8000_0000)) by (bit_vector); }
//@ endimpl
//@ impl N impl ChildNumber
//@ fn is_hardened
//@|    ensures r == (self.0 >= 0x8000_0000)
//@ fn is_normal
//@|    ensures r == (self.0 < 0x8000_0000)
//@ fn into_encoded_index
//@|    ensures r == self.0
//@ fn into_encoded_be_bytes
//@ . replace self.0.to_be_bytes() =>> vf_be(self.0)
//@|    ensures r@ == be4(self.0)
//@ endimpl
#[verifier::external_body]
fn vf_be(x: u32) -> (r: [u8; 4]) ensures r@ == be4(x) { x.to_be_bytes() }
//@ impl P impl DerivationPath
//@ fn into_vec
//@|    ensures r == self.0
//@ endimpl
//@ path Self::Error => DerivationError
//@ inherent P impl TryFrom<Vec<ChildNumber>> for DerivationPath
//@ fn try_from
//@|    ensures match r { Ok(p) => p.0 == path && path@.len() <= 255, Err(e) => path@.len() > 255 && e == DerivationError::PathTooLong }
//@ endimpl
//@ impl C impl ChainCode
//@ fn into_array
//@|    ensures r == self.0
//@ endimpl
//@ inherent C impl From<[u8; CHAINCODE_LENGTH]> for ChainCode
//@ fn from
//@|    ensures r.0 == arr
//@ endimpl
//@ fn T new_hmac_sha_512
//@|    ensures r.key() == key@, r.fed() == Seq::<u8>::empty()
//@ fn K to_key_and_chain_code
//@ . method into => vf_into
//@|    ensures match r { Ok((k, c)) => is_key(hmac(mac.key(), mac.fed()).take(32)) && k@ == hmac(mac.key(), mac.fed()).take(32) && c@ == hmac(mac.key(), mac.fed()).skip(32), Err(e) => !is_key(hmac(mac.key(), mac.fed()).take(32)) && e is KeyDerivationError }
//@ inherent K impl Derivable for Secp256k1ExtendedPrivateKey
//@ fn derive_child
//@ . replace secp_key[..] =>> *vf_key_bytes(&secp_key)
//@ . method into => vf_into
//@ . method try_into => vf_try
//@|    ensures match r { Ok(c) => child_private(self, num, c) && c.derivation_path@.len() <= 255, Err(e) => no_child_private(self, num, e) }
//@ . proof before let key_part
//@|    proof {
//@|        assert(mac.fed() =~= fed_private(self.private_key@, num));
//@|        secp256k1::curve(hash_private(self, num).take(32), self.private_key@);
//@|    }
//@ endimpl
//@ inherent K impl Derivable for Secp256k1ExtendedPublicKey
//@ fn derive_child
//@ . method into => vf_into
//@ . method try_into => vf_try
//@|    ensures match r { Ok(c) => child_public(self, num, c) && c.derivation_path@.len() <= 255, Err(e) => no_child_public(self, num, e) }
//@ . proof before let key_part
//@|    proof { assert(mac.fed() =~= compressed(self.public_key@) + be4(num.0)); }
//@ endimpl
//@ impl K impl Secp256k1ExtendedPublicKey
//@ fn from_private_key
//@ . method into => vf_into
//@ . method clone => vf_clone
//@|    ensures public_form(*private_key, r)
//@ endimpl
//@ impl K impl Secp256k1ExtendedPrivateKey
//@ fn new_master
//@ . method into => vf_into
//@|    ensures ({ let h = hmac(b"Bitcoin seed"@, seed@); match r { Ok(e) => is_key(h.take(32)) && e.private_key@ == h.take(32) && e.chain_code@ == h.skip(32) && e.derivation_path@.len() == 0, Err(x) => !is_key(h.take(32)) && x is KeyDerivationError } })
//@ endimpl
}
fn main() {}
