// Symmetric encryption and shared secrets, over the authenticated cipher of the library as an uninterpreted pair of functions
// (seal and open, with open(seal(m)) = m assumed): what the code feeds to it, how nonce and text are put together and taken
// apart, what is refused.
use vstd::prelude::*;
//@ source C crypto/src/symkey/chacha20poly1305/mod.rs
//@ source S crypto/src/symkey/mod.rs
//@ source E crypto/src/ephemeral_e2e/mod.rs
//@ source X crypto/src/ephemeral_e2e/error.rs
//@ mono T Bytes
//@ mono R Rng
//@ path chacha20poly1305::Key => Key
//@ path symkey::Error => Error
verus! {
global size_of usize == 8;
pub type Bytes<'a> = &'a [u8];
/// the source of random numbers
pub struct Rng { pub x: u64 }
#[verifier::external_body]
pub struct XChaCha20Poly1305 { x: u8 }
#[verifier::external_body]
pub struct XNonce { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Key { x: [u8; 32] }
pub struct AeadError;
/// (of bytes only, here)
pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
impl Key { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl XNonce {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    /// panics if there are not 24 bytes
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: &XNonce) requires b@.len() == 24 ensures r@ == b@ { unimplemented!() }
}
pub uninterp spec fn seal(key: Seq<u8>, nonce: Seq<u8>, ad: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn open(key: Seq<u8>, nonce: Seq<u8>, ad: Seq<u8>, text: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body]
pub proof fn opens(key: Seq<u8>, nonce: Seq<u8>, ad: Seq<u8>, msg: Seq<u8>) ensures open(key, nonce, ad, seal(key, nonce, ad, msg)) == Some(msg) {}
impl XChaCha20Poly1305 {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(key: &Key) -> (r: Self) ensures r.key() == key@ { unimplemented!() }
    #[verifier::external_body]
    pub fn encrypt_in_place(&self, nonce: &XNonce, ad: &[u8], buf: &mut Vec<u8>) -> (r: Result<(), AeadError>)
        ensures r is Ok ==> final(buf)@ == seal(self.key(), nonce@, ad@, old(buf)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn decrypt_in_place(&self, nonce: &XNonce, ad: &[u8], buf: &mut Vec<u8>) -> (r: Result<(), AeadError>)
        ensures match r { Ok(_) => open(self.key(), nonce@, ad@, old(buf)@) == Some(final(buf)@), Err(_) => open(self.key(), nonce@, ad@, old(buf)@) is None } { unimplemented!() }
}
#[verifier::external_body]
fn vf_string<E>(e: E) -> String { unimplemented!() }
#[verifier::external_body]
fn vf_none() -> (r: &'static [u8]) ensures r@ == Seq::<u8>::empty() { b"" }
#[verifier::external_body]
fn vf_nonce_bytes(n: &XNonce) -> (r: [u8; 24]) ensures r@ == n@ { unimplemented!() }
#[verifier::external_body]
fn vf_chain(a: [u8; 24], b: Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ + b@ { a.into_iter().chain(b).collect() }
#[verifier::external_body]
fn vf_random24(r: &mut Rng) -> (x: [u8; 24]) { unimplemented!() }
#[verifier::external_body]
fn vf_random32(r: &mut Rng) -> (x: [u8; 32]) { unimplemented!() }
/// TryFrom<&[u8]> for [u8; 32]
#[verifier::external_body]
fn vf_array32(b: &[u8]) -> (r: Result<[u8; 32], ()>) ensures match r { Ok(a) => b@.len() == 32 && a@ == b@, Err(_) => b@.len() != 32 } { b.try_into().map_err(|_| ()) }
#[verifier::external_body]
fn vf_key(b: [u8; 32]) -> (r: Key) ensures r@ == b@ { unimplemented!() }
//@ enum S Error
//@ enum S SymmetricKeyKind
//@ struct C Chacha20poly1305Key
//@ enum S SymmetricKeyHolder
//@ struct S SymmetricKey
pub open spec fn text_ok(key: Seq<u8>, c: Seq<u8>, ad: Seq<u8>, m: Seq<u8>) -> bool { c.len() >= 24 && c.skip(24) == seal(key, c.take(24), ad, m) }
/// What decryption must give for a text
pub open spec fn opened(key: Seq<u8>, c: Seq<u8>, ad: Seq<u8>) -> Option<Seq<u8>> { if c.len() < 24 { None } else { open(key, c.take(24), ad, c.skip(24)) } }
/// Encryption followed by decryption with the same key and associated data gives the message
pub proof fn comes_back(key: Seq<u8>, c: Seq<u8>, ad: Seq<u8>, m: Seq<u8>) requires text_ok(key, c, ad, m) ensures opened(key, c, ad) == Some(m) { opens(key, c.take(24), ad, m); }
//@ impl C impl Chacha20poly1305Key
//@ implconst NONCE_LEN
//@ implconst KEY_LEN
//@ fn new_from_array
//@ . replace key_data.into() =>> vf_key(key_data)
//@|    ensures r.key_data@ == key_data@
//@ fn new_from_bytes_slice
//@ . replace bytes_slice.try_into() =>> vf_array32(bytes_slice)
//@|    ensures match r { Ok(k) => bytes_slice@.len() == 32 && k.key_data@ == bytes_slice@, Err(e) => bytes_slice@.len() != 32 && e == Error::WrongLenKeyBytes(bytes_slice@.len() as usize, 32) }
//@ fn encrypt_with_nonce_and_aead
//@ . replace message.as_ref() =>> message
//@ . replace e.to_string() =>> vf_string(e)
//@ . replace (*nonce).into() =>> vf_nonce_bytes(nonce)
//@ . replace nonce.into_iter().chain(cipher_text).collect::<Vec<_>>() =>> vf_chain(nonce, cipher_text)
//@|    requires nonce@.len() == 24
//@|    ensures match r { Ok(c) => c@ == nonce@ + seal(self.key_data@, nonce@, associated_data@, message@), Err(e) => e is EncryptionError }
//@ fn encrypt
//@ . replace rng.random::<[u8; Self::NONCE_LEN]>() =>> vf_random24(rng)
//@|    ensures match r { Ok(c) => text_ok(self.key_data@, c@, associated_data@, message@), Err(e) => e is EncryptionError }
//@ . proof after let nonce
//@|    proof { assert(forall|t: Seq<u8>| #![auto] (nonce@ + t).take(24) =~= nonce@ && (nonce@ + t).skip(24) =~= t); }
//@ fn decrypt_with_nonce_and_aead
//@ . replace cipher_text.as_ref() =>> cipher_text
//@ . replace e.to_string() =>> vf_string(e)
//@ . replace nonce.into() =>> XNonce::from_slice(nonce)
//@ . replace associated_data.unwrap_or(b"") =>> associated_data.unwrap_or(vf_none())
//@|    requires nonce@.len() == 24
//@|    ensures match r { Ok(m) => open(self.key_data@, nonce@, (match associated_data { Some(a) => a@, None => Seq::empty() }), cipher_text@) == Some(m@), Err(e) => e is DecryptionError && open(self.key_data@, nonce@, (match associated_data { Some(a) => a@, None => Seq::empty() }), cipher_text@) is None }
//@ fn decrypt
//@ . replace cipher_text_in.as_ref() =>> cipher_text_in
//@|    ensures match r { Ok(m) => opened(self.key_data@, cipher_text_in@, (match associated_data { Some(a) => a@, None => Seq::empty() })) == Some(m@), Err(e) => opened(self.key_data@, cipher_text_in@, (match associated_data { Some(a) => a@, None => Seq::empty() })) is None && (if cipher_text_in@.len() < 24 { e == Error::CipherTextTooShort(cipher_text_in@.len() as usize, 24) } else { e is DecryptionError }) }
//@ . proof end
//@|    proof { assert(nonce@ =~= cipher_text_in@.take(24)); assert(cipher_text@ =~= cipher_text_in@.skip(24)); }
//@ endimpl
impl SymmetricKey { pub open spec fn bytes(&self) -> Seq<u8> { match self.key { SymmetricKeyHolder::XChacha20Poly1305(k) => k.key_data@ } } }
//@ impl S impl SymmetricKey
//@ fn from_raw_key
//@|    ensures match r { Ok(k) => bytes_slice@.len() == 32 && k.bytes() == bytes_slice@, Err(e) => bytes_slice@.len() != 32 && e == Error::WrongLenKeyBytes(bytes_slice@.len() as usize, 32) }
//@ fn encrypt
//@ . replace associated_data.unwrap_or(b"") =>> associated_data.unwrap_or(vf_none())
//@|    ensures match r { Ok(c) => text_ok(self.bytes(), c@, (match associated_data { Some(a) => a@, None => Seq::empty() }), message@), Err(e) => e is EncryptionError }
//@ fn decrypt
//@|    ensures match r { Ok(m) => opened(self.bytes(), cipher_text@, (match associated_data { Some(a) => a@, None => Seq::empty() })) == Some(m@), Err(e) => opened(self.bytes(), cipher_text@, (match associated_data { Some(a) => a@, None => Seq::empty() })) is None }
//@ endimpl
}
pub mod e2e {
use super::*;
use super::{SymmetricKey, SymmetricKeyKind};
verus! {
//@ path symkey::SymmetricKey => SymmetricKey
//@ path symkey::SymmetricKeyKind => SymmetricKeyKind
//@ path Error => E2eError
pub enum E2eError { SymmetricKeyCreationFailed(String), SymmetricEncryptionFailed(String), SymmetricDecryptionFailed(String), DeserializationFailed(String) }
//@ struct E SharedSecret
//@ impl E impl SharedSecret
//@ fn encrypt
//@ . replace e.to_string() =>> vf_string(e)
//@|    ensures match r { Ok(c) => text_ok(self.secret@, c@, Seq::empty(), message@), Err(e) => e is SymmetricEncryptionFailed }
//@ fn decrypt
//@ . replace e.to_string() =>> vf_string(e)
//@|    ensures match r { Ok(m) => opened(self.secret@, cipher_text@, Seq::empty()) == Some(m@), Err(e) => e is SymmetricDecryptionFailed && opened(self.secret@, cipher_text@, Seq::empty()) is None }
//@ endimpl
}
}
fn main() {}
