// Verifiable random functions: what the code passes to the schnorrkel library, whose functions are uninterpreted: the proof is
// made by the key over the transcript as attached, it is checked against the given key, transcript, pre-output and proof, and
// the output is that of the pre-output under the label; children of keys are derived with the chain code and number given.
use vstd::prelude::*;
//@ source V crypto/src/vrf/mod.rs
//@ source R crypto/src/vrf/primitives.rs
//@ source S crypto/src/vrf/schnorrkel/mod.rs
//@ source O crypto/src/vrf/schnorrkel/data.rs
//@ source T crypto/src/vrf/transcript/no_rng.rs
//@ source C crypto/src/key/hdkd/chain_code.rs
//@ source U crypto/src/key/hdkd/u31.rs
//@ source N crypto/src/key/hdkd/child_number.rs
//@ source P crypto/src/key/hdkd/derivation_path.rs
//@ source D crypto/src/key/hdkd/derivable.rs
pub mod merlin {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct Transcript { x: u8 }
/// One step of a transcript
pub enum Step { New(Seq<u8>), Message(Seq<u8>, Seq<u8>) }
pub uninterp spec fn le8(v: u64) -> Seq<u8>;
impl Transcript {
    pub uninterp spec fn view(&self) -> Seq<Step>;
    #[verifier::external_body]
    pub fn new(label: &'static [u8]) -> (r: Transcript) ensures r@ == seq![Step::New(label@)] { unimplemented!() }
    #[verifier::external_body]
    pub fn append_u64(&mut self, label: &'static [u8], v: u64) ensures final(self)@ == old(self)@.push(Step::Message(label@, le8(v))) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_message(&mut self, label: &'static [u8], m: &[u8]) ensures final(self)@ == old(self)@.push(Step::Message(label@, m@)) { unimplemented!() }
}
} }
pub mod schnorrkel {
use vstd::prelude::*;
use super::merlin::Step;
use super::{VRFTranscript, OutBytes};
verus! {
pub mod derive { use vstd::prelude::*; verus! { pub struct ChainCode(pub [u8; 32]); } }
pub enum ExpansionMode { Uniform, Ed25519 }
#[verifier::external_body]
pub struct PublicKey { x: u8 }
#[verifier::external_body]
pub struct SecretKey { x: u8 }
#[verifier::external_body]
pub struct MiniSecretKey { x: u8 }
#[verifier::external_body]
pub struct VRFPreOut { x: u8 }
#[verifier::external_body]
pub struct VRFProof { x: u8 }
#[verifier::external_body]
pub struct VRFInOut { x: u8 }
pub struct Keypair { pub secret: SecretKey, pub public: PublicKey }
pub struct SignatureError;
pub struct Key(pub int);
pub struct Pub(pub int);
pub uninterp spec fn public(k: Key) -> Pub;
pub uninterp spec fn mini_expand(m: Seq<u8>, uniform: bool) -> Key;
pub uninterp spec fn accepts(p: Pub, t: Seq<Step>, preout: Seq<u8>, proof: Seq<u8>) -> bool;
pub uninterp spec fn preout(k: Key, t: Seq<Step>) -> Seq<u8>;
pub uninterp spec fn attached(p: Pub, t: Seq<Step>, preout: Seq<u8>) -> Option<int>;
pub uninterp spec fn soft_key(k: Key, c: Seq<u8>, n: Seq<u8>) -> (Key, Seq<u8>);
pub uninterp spec fn soft_pub(p: Pub, c: Seq<u8>, n: Seq<u8>) -> (Pub, Seq<u8>);
pub uninterp spec fn hard(k: Key, c: Option<Seq<u8>>, n: Seq<u8>) -> (Seq<u8>, Seq<u8>);
/// (of the library) the public key of a derived key is derived from the public key
#[verifier::external_body]
pub proof fn soft_agrees(k: Key, c: Seq<u8>, n: Seq<u8>) ensures soft_pub(public(k), c, n) == (public(soft_key(k, c, n).0), soft_key(k, c, n).1) {}
impl PublicKey {
    pub uninterp spec fn view(&self) -> Pub;
    #[verifier::external_body]
    pub fn vrf_verify(&self, t: VRFTranscript, preout: &VRFPreOut, proof: &VRFProof) -> (r: Result<(VRFInOut, u8), SignatureError>) ensures r is Ok == accepts(self@, t@, preout@, proof@) { unimplemented!() }
    #[verifier::external_body]
    pub fn derived_key_simple(&self, c: derive::ChainCode, n: [u8; 4]) -> (r: (PublicKey, derive::ChainCode)) ensures (r.0@, r.1.0@) == soft_pub(self@, c.0@, n@) { unimplemented!() }
}
impl SecretKey {
    pub uninterp spec fn view(&self) -> Key;
    #[verifier::external_body]
    pub fn to_public(&self) -> (r: PublicKey) ensures r@ == public(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: SecretKey) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn derived_key_simple(&self, c: derive::ChainCode, n: [u8; 4]) -> (r: (SecretKey, derive::ChainCode)) ensures (r.0@, r.1.0@) == soft_key(self@, c.0@, n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn hard_derive_mini_secret_key(&self, c: Option<derive::ChainCode>, n: [u8; 4]) -> (r: (MiniSecretKey, derive::ChainCode)) ensures (r.0@, r.1.0@) == hard(self@, match c { Some(c) => Some(c.0@), None => None }, n@) { unimplemented!() }
}
impl MiniSecretKey {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: Result<MiniSecretKey, SignatureError>) ensures match r { Ok(m) => b@.len() == 32 && m@ == b@, Err(_) => b@.len() != 32 } { unimplemented!() }
    #[verifier::external_body]
    pub fn expand(&self, m: ExpansionMode) -> (r: SecretKey) ensures r@ == mini_expand(self@, m is Uniform) { unimplemented!() }
    #[verifier::external_body]
    pub fn expand_to_keypair(&self, m: ExpansionMode) -> (r: Keypair) ensures r.secret@ == mini_expand(self@, m is Uniform), r.public@ == public(r.secret@) { unimplemented!() }
}
impl VRFPreOut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn attach_input_hash(&self, p: &PublicKey, t: VRFTranscript) -> (r: Result<VRFInOut, SignatureError>) ensures match r { Ok(x) => attached(p@, t@, self@) == Some(x@), Err(_) => attached(p@, t@, self@) is None } { unimplemented!() }
}
impl VRFProof { pub uninterp spec fn view(&self) -> Seq<u8>; }
/// what the library makes of an output, for a label and a size
pub uninterp spec fn bytes_of(x: int, label: Seq<u8>, n: nat) -> Seq<u8>;
impl VRFInOut {
    #[verifier::external_body]
    pub fn make_bytes<B: OutBytes>(&self, label: &[u8]) -> (r: B) ensures r.out() == bytes_of(self@, label@, B::size()) { unimplemented!() }
    pub uninterp spec fn view(&self) -> int;
    #[verifier::external_body]
    pub fn to_preout(&self) -> (r: VRFPreOut) ensures r@ == self.pre() { unimplemented!() }
    pub uninterp spec fn pre(&self) -> Seq<u8>;
}
impl Keypair {
    /// (of the library) a proof made with the key pair is accepted for its public key, and the pre-output is that of the secret key
    #[verifier::external_body]
    pub fn vrf_sign_extra(&self, t: VRFTranscript, extra: VRFTranscript) -> (r: (VRFInOut, VRFProof, u8))
        ensures r.0.pre() == preout(self.secret@, t@), self.public@ == public(self.secret@) ==> accepts(self.public@, t@, r.0.pre(), r.1@) { unimplemented!() }
}
} }
//@ mono T VRFTranscript
//@ path crate::vrf::VRFPublicKeyHolder => VRFPublicKeyHolder
verus! {
global size_of usize == 8;
use schnorrkel::*;
use merlin::Step;
//@ struct T VRFTranscript
/// what may be attached
pub type Raw<'a> = &'a [u8];
impl View for VRFTranscript { type V = Seq<Step>; open spec fn view(&self) -> Seq<Step> { self.0@ } }
//@ impl T impl VRFTranscript
//@ fn new
//@|    ensures r@ == seq![Step::New(label@)]
//@ endimpl
//@ struct U U31 derive Clone,Copy
//@ struct N ChildNumber derive Clone,Copy
//@ struct P DerivationPath
//@ const P MAX_PATH_SIZE
//@ enum D DerivationError
//@ enum V VRFError
//@ const C CHAINCODE_LENGTH
//@ struct C ChainCode derive Clone,Copy
//@ struct S SchnorrkelPublicKey
//@ struct S SchnorrkelPrivateKey
//@ struct O SchnorrkelVRFReturn
//@ enum R VRFReturn
//@ enum V VRFKeyKind
//@ enum V VRFPrivateKeyHolder
//@ enum V VRFPublicKeyHolder
//@ struct V VRFPrivateKey
//@ struct V VRFPublicKey
//@ struct V ExtendedVRFPrivateKey
//@ struct V ExtendedVRFPublicKey
pub uninterp spec fn be4(x: u32) -> Seq<u8>;
#[verifier::external_body]
fn vf_be(x: u32) -> (r: [u8; 4]) ensures r@ == be4(x) { x.to_be_bytes() }
pub trait OutBytes { spec fn size() -> nat; spec fn out(&self) -> Seq<u8>; }
pub trait ArrayLength<X> { spec fn n() -> nat; }
/// the library's array of a size that is a type
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(N)]
pub struct GenericArray<A, N> { x: core::marker::PhantomData<(A, N)> }
impl<A, N> GenericArray<A, N> { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
impl<N: ArrayLength<u8>> OutBytes for GenericArray<u8, N> { open spec fn size() -> nat { N::n() } open spec fn out(&self) -> Seq<u8> { self.bytes() } }
/// the label of outputs (its text is compared in the native cases)
pub uninterp spec fn label() -> Seq<u8>;
#[verifier::external_body]
fn vf_label() -> (r: &'static [u8]) ensures r@ == label() { unimplemented!() }
#[verifier::external_body]
fn vf_string<E>(e: E) -> String { unimplemented!() }
pub trait VfInto<T>: Sized { spec fn same(self, t: T) -> bool; fn vf_into(self) -> (r: T) ensures self.same(r); }
impl VfInto<ChainCode> for [u8; 32] {
    open spec fn same(self, t: ChainCode) -> bool { t.0 == self }
    fn vf_into(self) -> (r: ChainCode) { ChainCode::from(self) }
}
impl VfInto<VRFReturn> for SchnorrkelVRFReturn {
    open spec fn same(self, t: VRFReturn) -> bool { t == VRFReturn::Schnorrkel(self) }
    fn vf_into(self) -> (r: VRFReturn) { VRFReturn::from(self) }
}
pub trait VfTry { fn vf_try(self) -> (r: Result<DerivationPath, DerivationError>); }
impl VfTry for Vec<ChildNumber> {
    fn vf_try(self) -> (r: Result<DerivationPath, DerivationError>)
        ensures match r { Ok(p) => p.0 == self && self@.len() <= 255, Err(e) => self@.len() > 255 && e == DerivationError::PathTooLong }
    { DerivationPath::try_from(self) }
}
impl DerivationPath {
    #[verifier::external_body]
    pub fn vf_clone(&self) -> (r: DerivationPath) ensures r.0@ == self.0@ { unimplemented!() }
}
//@ const U MSB_BIT
//@ impl U impl U31
//@ fn from_u32_with_msb
//@|    ensures r.1 == (val >= 0x8000_0000)
//@ . proof start
//@|    proof { assert((val & 0x8000_0000 != 0) == (val >= 0x8000_0000)) by (bit_vector); }
//@ endimpl
//@ impl N impl ChildNumber
//@ fn is_hardened
//@|    ensures r == (self.0 >= 0x8000_0000)
//@ fn into_encoded_be_bytes
//@ . replace self.0.to_be_bytes() =>> vf_be(self.0)
//@|    ensures r@ == be4(self.0)
//@ endimpl
//@ impl P impl DerivationPath
//@ fn into_vec
//@|    ensures r == self.0
//@ endimpl
//@ path Self::Error => DerivationError
//@ inherent P impl TryFrom<Vec<ChildNumber>> for DerivationPath
//@ fn try_from
//@|    ensures match r { Ok(p) => p.0 == path && path@.len() <= 255, Err(e) => path@.len() > 255 && e == DerivationError::PathTooLong }
//@ endimpl
//@ impl C impl ChainCode
//@ fn into_array
//@|    ensures r == self.0
//@ endimpl
//@ inherent C impl From<[u8; CHAINCODE_LENGTH]> for ChainCode
//@ fn from
//@|    ensures r.0 == arr
//@ endimpl
//@ inherent R impl From<SchnorrkelVRFReturn> for VRFReturn
//@ fn from -> x
//@|    ensures x == VRFReturn::Schnorrkel(r)
//@ endimpl
// transcripts: everything attached is there, in order, under its label
//@ inherent T impl SignableTranscript for VRFTranscript
//@ fn make_extra_transcript
//@|    ensures r@ == seq![Step::New(b"VRF"@)]
//@ fn attach_u64
//@|    ensures r@ == self@.push(Step::Message(label@, merlin::le8(value)))
//@ fn attach_raw_data
//@ . mono T Raw
//@ . replace message.as_ref() =>> message
//@|    ensures r@ == self@.push(Step::Message(label@, message@))
//@ endimpl
//@ impl O impl SchnorrkelVRFReturn
//@ fn new
//@|    ensures r.preout == preout, r.proof_ == proof_
//@ fn proof_
//@|    ensures *r == self.proof_
//@ fn preout
//@|    ensures *r == self.preout
//@ fn attach_input_to_output
//@ . replace e.to_string() =>> vf_string(e)
//@|    ensures match r { Ok(x) => attached(public_key@, transcript@, self.preout@) == Some(x@), Err(e) => attached(public_key@, transcript@, self.preout@) is None && e is InputAttachError }
//@ fn calculate_vrf_output
//@ . replace VRF_OUTPUT_LABEL =>> vf_label()
//@|    ensures match r { Ok(b) => attached(public_key@, transcript@, self.preout@) is Some && b.bytes() == bytes_of(attached(public_key@, transcript@, self.preout@)->0, label(), OutputSize::n()), Err(e) => attached(public_key@, transcript@, self.preout@) is None && e is InputAttachError }
//@ fn calculate_vrf_output_with_generic_key
//@|    ensures match r { Ok(b) => attached(public_key.point(), transcript@, self.preout@) is Some && b.bytes() == bytes_of(attached(public_key.point(), transcript@, self.preout@)->0, label(), OutputSize::n()), Err(e) => attached(public_key.point(), transcript@, self.preout@) is None && e is InputAttachError }
//@ endimpl
/// A child of a private key, and of a public key
pub open spec fn vrf_child(k: Key, c: Seq<u8>, n: ChildNumber) -> (Key, Seq<u8>) { if n.0 >= 0x8000_0000 { (mini_expand(hard(k, Some(c), be4(n.0)).0, true), hard(k, Some(c), be4(n.0)).1) } else { soft_key(k, c, be4(n.0)) } }
/// The public key's child is the public key of the private key's child
pub proof fn public_agrees(k: Key, c: Seq<u8>, n: ChildNumber) requires n.0 < 0x8000_0000
    ensures soft_pub(public(k), c, be4(n.0)) == (public(vrf_child(k, c, n).0), vrf_child(k, c, n).1) { soft_agrees(k, c, be4(n.0)) }
//@ impl S impl SchnorrkelPrivateKey
//@ fn new_using_random_bytes
//@ . replace e.to_string() =>> vf_string(e)
//@|    ensures match r { Ok((k, p)) => bytes@.len() == 32 && k.key@ == mini_expand(bytes@, true) && p.key@ == public(k.key@), Err(e) => bytes@.len() != 32 && e is GenerateKeyError }
//@ fn produce_vrf_data
//@|    ensures r.preout@ == preout(self.key@, message@), accepts(public(self.key@), message@, r.preout@, r.proof_@)
//@ fn derive_child
//@ . method into => vf_into
//@|    ensures (r.0.key@, r.1.0@) == vrf_child(self.key@, chain_code.0@, child_number)
//@ endimpl
//@ impl S impl SchnorrkelPublicKey
//@ fn from_private_key
//@|    ensures r.key@ == public(private_key.key@)
//@ fn verify_generic_vrf_data
//@|    ensures match r { Ok(_) => vrf_data matches VRFReturn::Schnorrkel(d) && accepts(self.key@, message@, d.preout@, d.proof_@), Err(e) => !(vrf_data matches VRFReturn::Schnorrkel(d) && accepts(self.key@, message@, d.preout@, d.proof_@)) && e is VerificationError }
//@ fn verify_vrf_data
//@|    ensures match r { Ok(_) => accepts(self.key@, message@, vrf_data.preout@, vrf_data.proof_@), Err(e) => !accepts(self.key@, message@, vrf_data.preout@, vrf_data.proof_@) && e is VerificationError }
//@ fn derive_child
//@ . method into => vf_into
//@|    ensures match r { Ok((p, c)) => child_number.0 < 0x8000_0000 && (p.key@, c.0@) == soft_pub(self.key@, chain_code.0@, be4(child_number.0)), Err(e) => child_number.0 >= 0x8000_0000 && e == DerivationError::CannotDeriveHardenedKeyFromPublicKey(child_number) }
//@ endimpl
impl VRFPrivateKey { pub open spec fn secret(self) -> Key { match self.key { VRFPrivateKeyHolder::Schnorrkel(k) => k.key@ } } }
impl VRFPublicKey { pub open spec fn point(self) -> Pub { match self.pub_key { VRFPublicKeyHolder::Schnorrkel(k) => k.key@ } } }
//@ impl V impl VRFPrivateKey
//@ fn new_using_random_bytes
//@|    ensures match r { Ok((k, p)) => bytes@.len() == 32 && k.secret() == mini_expand(bytes@, true) && p.point() == public(k.secret()), Err(e) => bytes@.len() != 32 }
//@ fn internal_key
//@|    ensures *r == self.key
//@ fn produce_vrf_data
//@ . method into => vf_into
//@|    ensures match r { VRFReturn::Schnorrkel(d) => d.preout@ == preout(self.secret(), message@) && accepts(public(self.secret()), message@, d.preout@, d.proof_@) }
//@ fn to_public_key
//@|    ensures r.point() == public(self.secret())
//@ endimpl
//@ impl V impl VRFPublicKey
//@ fn from_private_key
//@|    ensures r.point() == public(private_key.secret())
//@ fn verify_vrf_data
//@|    ensures r is Ok == (vrf_data matches VRFReturn::Schnorrkel(d) && accepts(self.point(), message@, d.preout@, d.proof_@))
//@ endimpl
//@ inherent V impl Derivable for ExtendedVRFPrivateKey
//@ fn derive_child
//@ . method try_into => vf_try
//@|    ensures match r {
//@|        Ok(c) => (c.private_key.secret(), c.chain_code.0@) == vrf_child(self.private_key.secret(), self.chain_code.0@, num) && c.derivation_path.0@ == self.derivation_path.0@.push(num) && c.derivation_path.0@.len() <= 255,
//@|        Err(e) => self.derivation_path.0@.len() >= 255 && e is PathTooLong }
//@ endimpl
//@ inherent V impl Derivable for ExtendedVRFPublicKey
//@ fn derive_child
//@ . method try_into => vf_try
//@|    ensures match r {
//@|        Ok(c) => num.0 < 0x8000_0000 && (c.public_key.point(), c.chain_code.0@) == soft_pub(self.public_key.point(), self.chain_code.0@, be4(num.0)) && c.derivation_path.0@ == self.derivation_path.0@.push(num) && c.derivation_path.0@.len() <= 255,
//@|        Err(e) => if num.0 >= 0x8000_0000 { e == DerivationError::CannotDeriveHardenedKeyFromPublicKey(num) } else { self.derivation_path.0@.len() >= 255 && e is PathTooLong } }
//@ endimpl
//@ impl V impl ExtendedVRFPublicKey
//@ fn from_private_key
//@ . method clone => vf_clone
//@|    ensures r.chain_code == private_key.chain_code, r.derivation_path.0@ == private_key.derivation_path.0@, r.public_key.point() == public(private_key.private_key.secret())
//@ endimpl
}
fn main() {}
