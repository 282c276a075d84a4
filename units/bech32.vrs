// Bech32m texts and addresses: what is read from a text is what the library reads, and only from texts with the Bech32m checksum;
// an address is the text of its object's bytes under the prefix that the chain has for that kind of object, and an object is read
// only from a text under that very prefix. No two kinds and chains share a prefix.
use vstd::prelude::*;
//@ source B common/src/primitives/bech32_encoding/mod.rs
//@ source BE common/src/primitives/bech32_encoding/error.rs
//@ source AD common/src/address/mod.rs
//@ source AT common/src/address/traits.rs
//@ source CC common/src/chain/config/mod.rs
//@ source DO common/src/chain/transaction/output/mod.rs
//@ source TI common/src/chain/tokens/token_id.rs
//@ source OI common/src/chain/order/order_id.rs
//@ source PI common/src/chain/pos/pool_id.rs
//@ source DI common/src/chain/pos/delegation_id.rs
//@ source HX common/src/address/hexified.rs
//@ path crypto::key::PublicKey => PublicKey
//@ path error::Bech32Error => Bech32Error
//@ path bech32_encoding::bech32m_encode => bech32m_encode
//@ path bech32_encoding::bech32m_decode => bech32m_decode
pub mod bech32 {
use vstd::prelude::*;
verus! {
/// (of the library) what may stand before the separator; the texts with each checksum; what is read from them; what is written
pub uninterp spec fn good_hrp(h: Seq<char>) -> bool;
pub uninterp spec fn m_valid(s: Seq<char>) -> bool;
pub uninterp spec fn plain_valid(s: Seq<char>) -> bool;
pub uninterp spec fn hrp_of(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn data_of(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn fits(h: Seq<char>, d: Seq<u8>) -> bool;
pub uninterp spec fn m_text(h: Seq<char>, d: Seq<u8>) -> Seq<char>;
pub uninterp spec fn lower(h: Seq<char>) -> Seq<char>;
/// What is written reads back, the prefix in lower case
#[verifier::external_body]
pub proof fn reads_back(h: Seq<char>, d: Seq<u8>) requires good_hrp(h), fits(h, d) ensures m_valid(m_text(h, d)), hrp_of(m_text(h, d)) == lower(h), data_of(m_text(h, d)) == d {}
pub struct Bech32m;
pub struct Bech32;
#[verifier::external_body]
pub struct Hrp { x: u8 }
impl Hrp {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn parse(h: &str) -> (r: Result<Hrp, hrp::Error>) ensures r is Ok == good_hrp(h@), r is Ok ==> r->Ok_0@ == h@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Detail { x: u8 }
pub enum DecodeError { Parse(Detail), Checksum(Detail), Other }
pub enum EncodeError { TooLong(Detail), Fmt(Detail), Other }
pub enum CheckedHrpstringError { Parse(Detail), Checksum(Detail), Other }
impl Detail { #[verifier::external_body] pub fn vf_text(&self) -> String { unimplemented!() } }
impl DecodeError { #[verifier::external_body] pub fn vf_text(&self) -> String { unimplemented!() } }
impl EncodeError { #[verifier::external_body] pub fn vf_text(&self) -> String { unimplemented!() } }
impl CheckedHrpstringError { #[verifier::external_body] pub fn vf_text(&self) -> String { unimplemented!() } }
pub mod hrp { use vstd::prelude::*; verus! { pub enum Error { TooLong(usize), Empty, NonAsciiChar(char), InvalidAsciiByte(u8), MixedCase, Other }
impl Error { #[verifier::external_body] pub fn vf_text(&self) -> String { unimplemented!() } } } }
#[verifier::external_body]
pub struct CheckedHrpstring { x: u8 }
/// Which checksum a type parameter stands for
pub trait Checksum { spec fn valid(s: Seq<char>) -> bool; spec fn text(h: Seq<char>, d: Seq<u8>) -> Seq<char>; }
pub uninterp spec fn plain_text(h: Seq<char>, d: Seq<u8>) -> Seq<char>;
impl Checksum for Bech32m { open spec fn valid(s: Seq<char>) -> bool { m_valid(s) } open spec fn text(h: Seq<char>, d: Seq<u8>) -> Seq<char> { m_text(h, d) } }
impl Checksum for Bech32 { open spec fn valid(s: Seq<char>) -> bool { plain_valid(s) } open spec fn text(h: Seq<char>, d: Seq<u8>) -> Seq<char> { plain_text(h, d) } }
impl CheckedHrpstring {
    #[verifier::external_body]
    pub fn new<C: Checksum>(s: &str) -> (r: Result<CheckedHrpstring, CheckedHrpstringError>) ensures r is Ok == C::valid(s@) { unimplemented!() }
}
/// Reads texts with either checksum
#[verifier::external_body]
pub fn decode(s: &str) -> (r: Result<(Hrp, Vec<u8>), DecodeError>) ensures r is Ok == (m_valid(s@) || plain_valid(s@)), r is Ok ==> r->Ok_0.0@ == hrp_of(s@) && r->Ok_0.1@ == data_of(s@) { unimplemented!() }
#[verifier::external_body]
pub fn encode<C: Checksum>(h: Hrp, d: &[u8]) -> (r: Result<String, EncodeError>) ensures r is Ok == fits(h@, d@), r is Ok ==> r->Ok_0@ == C::text(h@, d@) { unimplemented!() }
} }
use bech32::*;
verus! {
//@ enum BE Bech32Error
// Errors keep their kind
impl vstd::std_specs::convert::FromSpecImpl<DecodeError> for Bech32Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(x: DecodeError) -> Bech32Error { arbitrary() } }
//@ impl BE impl From<DecodeError> for Bech32Error
//@ fn from
//@|    ensures e is Parse ==> r is DecodeParsingError, e is Checksum ==> r is DecodeChecksumError
//@ . method to_string => vf_text
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<EncodeError> for Bech32Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(x: EncodeError) -> Bech32Error { arbitrary() } }
//@ impl BE impl From<EncodeError> for Bech32Error
//@ fn from
//@|    ensures e is TooLong ==> r is EncodeTooLongError, e is Fmt ==> r is EncodeFormatterError
//@ . method to_string => vf_text
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<hrp::Error> for Bech32Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(x: hrp::Error) -> Bech32Error { arbitrary() } }
//@ impl BE impl From<hrp::Error> for Bech32Error
//@ fn from
//@|    ensures match e { hrp::Error::TooLong(n) => r == Bech32Error::HrpTooLong(n), hrp::Error::Empty => r is HrpEmpty, hrp::Error::NonAsciiChar(c) => r == Bech32Error::HrpNonAscii(c), hrp::Error::InvalidAsciiByte(b) => r == Bech32Error::HrpInvalidByte(b), hrp::Error::MixedCase => r is MixedCase, _ => r is UnknownHrpError }
//@ . method to_string => vf_text
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<CheckedHrpstringError> for Bech32Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(x: CheckedHrpstringError) -> Bech32Error { arbitrary() } }
//@ impl BE impl From<CheckedHrpstringError> for Bech32Error
//@ fn from
//@|    ensures e is Parse ==> r is VariantCheckParseError, e is Checksum ==> r is VariantCheckChecksumError
//@ . method to_string => vf_text
//@ endimpl

/// The text forms that the generic functions are used with
pub trait VfAsRef { spec fn text(&self) -> Seq<char>; fn vf_as_ref(&self) -> (r: &str) ensures r@ == self.text(); fn vf_own(&self) -> (r: String) ensures r@ == self.text(); }
impl VfAsRef for &str { open spec fn text(&self) -> Seq<char> { (*self)@ } fn vf_as_ref(&self) -> (r: &str) { *self } #[verifier::external_body] fn vf_own(&self) -> (r: String) { self.to_string() } }
pub trait VfBytes { spec fn bytes(&self) -> Seq<u8>; fn vf_as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes(); }
impl VfBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } fn vf_as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
impl VfBytes for &[u8] { open spec fn bytes(&self) -> Seq<u8> { (*self)@ } fn vf_as_ref(&self) -> (r: &[u8]) { *self } }
#[verifier::external_body]
pub fn vf_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn vf_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }

//@ struct B DecodedBech32
//@ inherent B impl DecodedBech32
//@ fn new
//@|    ensures r.hrp == hrp, r.data == data
//@ fn hrp
//@|    ensures r@ == self.hrp@
//@ fn data
//@|    ensures r@ == self.data@
//@ endimpl
//@ fn B bech32m_decode
//@|    ensures r is Ok == m_valid(s@), r is Ok ==> r->Ok_0.hrp@ == hrp_of(s@) && r->Ok_0.data@ == data_of(s@)
//@ . argtype s &str
//@ . method as_ref => vf_as_ref
//@ . method to_string => vf_own
//@ fn B bech32m_encode
//@|    ensures r is Ok == (good_hrp(hrp@) && fits(hrp@, data@)), r is Ok ==> r->Ok_0@ == m_text(hrp@, data@)
//@ . argtype hrp &str
//@ . argtype data Vec<u8>
//@ . method as_ref => vf_as_ref
/// What is written reads back as it was
pub proof fn text_reads_back(h: Seq<char>, d: Seq<u8>)
    requires good_hrp(h), fits(h, d), lower(h) == h
    ensures m_valid(m_text(h, d)), hrp_of(m_text(h, d)) == h, data_of(m_text(h, d)) == d
{ reads_back(h, d); }

// ---- the prefixes that a chain has for each kind of object
//@ enum CC ChainType derive Clone,Copy
#[derive(Clone, Copy)]
pub enum DestinationTag { AnyoneCanSpend, PublicKeyHash, PublicKey, ScriptHash, ClassicMultisig }
/// The part of the configuration that says which chain it is (its other fields are left out)
pub struct ChainConfig { pub chain_type: ChainType }
/// What an address can stand for
pub enum Kind { Dest(DestinationTag), Pool, Delegation, Token, Order, VrfKey }
pub open spec fn prefix(c: ChainType, k: Kind) -> Seq<char> {
    match (c, k) {
        (ChainType::Mainnet, Kind::Dest(DestinationTag::AnyoneCanSpend)) => "mxanyonecanspend"@,
        (ChainType::Mainnet, Kind::Dest(DestinationTag::PublicKeyHash)) => "mtc"@,
        (ChainType::Mainnet, Kind::Dest(DestinationTag::PublicKey)) => "mptc"@,
        (ChainType::Mainnet, Kind::Dest(DestinationTag::ScriptHash)) => "mstc"@,
        (ChainType::Mainnet, Kind::Dest(DestinationTag::ClassicMultisig)) => "mmtc"@,
        (ChainType::Mainnet, Kind::Pool) => "mpool"@, (ChainType::Mainnet, Kind::Delegation) => "mdelg"@, (ChainType::Mainnet, Kind::Token) => "mmltk"@, (ChainType::Mainnet, Kind::Order) => "mordr"@, (ChainType::Mainnet, Kind::VrfKey) => "mvrfpk"@,
        (ChainType::Testnet, Kind::Dest(DestinationTag::AnyoneCanSpend)) => "txanyonecanspend"@,
        (ChainType::Testnet, Kind::Dest(DestinationTag::PublicKeyHash)) => "tmt"@,
        (ChainType::Testnet, Kind::Dest(DestinationTag::PublicKey)) => "tpmt"@,
        (ChainType::Testnet, Kind::Dest(DestinationTag::ScriptHash)) => "tstc"@,
        (ChainType::Testnet, Kind::Dest(DestinationTag::ClassicMultisig)) => "tmtc"@,
        (ChainType::Testnet, Kind::Pool) => "tpool"@, (ChainType::Testnet, Kind::Delegation) => "tdelg"@, (ChainType::Testnet, Kind::Token) => "tmltk"@, (ChainType::Testnet, Kind::Order) => "tordr"@, (ChainType::Testnet, Kind::VrfKey) => "tvrfpk"@,
        (ChainType::Regtest, Kind::Dest(DestinationTag::AnyoneCanSpend)) => "rxanyonecanspend"@,
        (ChainType::Regtest, Kind::Dest(DestinationTag::PublicKeyHash)) => "rmt"@,
        (ChainType::Regtest, Kind::Dest(DestinationTag::PublicKey)) => "rpmt"@,
        (ChainType::Regtest, Kind::Dest(DestinationTag::ScriptHash)) => "rstc"@,
        (ChainType::Regtest, Kind::Dest(DestinationTag::ClassicMultisig)) => "rmtc"@,
        (ChainType::Regtest, Kind::Pool) => "rpool"@, (ChainType::Regtest, Kind::Delegation) => "rdelg"@, (ChainType::Regtest, Kind::Token) => "rmltk"@, (ChainType::Regtest, Kind::Order) => "rordr"@, (ChainType::Regtest, Kind::VrfKey) => "rvrfpk"@,
        (ChainType::Signet, Kind::Dest(DestinationTag::AnyoneCanSpend)) => "sxanyonecanspend"@,
        (ChainType::Signet, Kind::Dest(DestinationTag::PublicKeyHash)) => "smt"@,
        (ChainType::Signet, Kind::Dest(DestinationTag::PublicKey)) => "spmt"@,
        (ChainType::Signet, Kind::Dest(DestinationTag::ScriptHash)) => "sstc"@,
        (ChainType::Signet, Kind::Dest(DestinationTag::ClassicMultisig)) => "smtc"@,
        (ChainType::Signet, Kind::Pool) => "spool"@, (ChainType::Signet, Kind::Delegation) => "sdelg"@, (ChainType::Signet, Kind::Token) => "smltk"@, (ChainType::Signet, Kind::Order) => "sordr"@, (ChainType::Signet, Kind::VrfKey) => "svrfpk"@,
    }
}
//@ fn CC address_prefix
//@|    ensures r@ == prefix(chain_type, Kind::Dest(destination_tag))
//@ inherent CC impl ChainConfig
//@ fn destination_address_prefix
//@|    ensures r@ == prefix(self.chain_type, Kind::Dest(destination_tag))
//@ fn pool_id_address_prefix
//@|    ensures r@ == prefix(self.chain_type, Kind::Pool)
//@ fn delegation_id_address_prefix
//@|    ensures r@ == prefix(self.chain_type, Kind::Delegation)
//@ fn token_id_address_prefix
//@|    ensures r@ == prefix(self.chain_type, Kind::Token)
//@ fn order_id_address_prefix
//@|    ensures r@ == prefix(self.chain_type, Kind::Order)
//@ fn vrf_public_key_address_prefix
//@|    ensures r@ == prefix(self.chain_type, Kind::VrfKey)
//@ endimpl
pub open spec fn chain_no(c: ChainType) -> int { match c { ChainType::Mainnet => 0, ChainType::Testnet => 1, ChainType::Regtest => 2, ChainType::Signet => 3 } }
pub open spec fn chain_letter(c: ChainType) -> char { match c { ChainType::Mainnet => 'm', ChainType::Testnet => 't', ChainType::Regtest => 'r', ChainType::Signet => 's' } }
pub open spec fn length(k: Kind) -> int { match k { Kind::Dest(DestinationTag::AnyoneCanSpend) => 16, Kind::Dest(DestinationTag::PublicKeyHash) => 3, Kind::Dest(_) => 4, Kind::VrfKey => 6, _ => 5 } }
pub open spec fn second(k: Kind) -> char { match k { Kind::Dest(DestinationTag::PublicKey) => 'p', Kind::Dest(DestinationTag::ScriptHash) => 's', Kind::Dest(DestinationTag::ClassicMultisig) => 'm', Kind::Pool => 'p', Kind::Delegation => 'd', Kind::Token => 'm', Kind::Order => 'o', _ => '?' } }
proof fn letters(c: ChainType, k: Kind)
    ensures prefix(c, k).len() == length(k), prefix(c, k)[0] == chain_letter(c), length(k) == 4 || length(k) == 5 ==> prefix(c, k)[1] == second(k)
{  reveal_strlit("mdelg"); reveal_strlit("mmltk"); reveal_strlit("mmtc"); reveal_strlit("mordr"); reveal_strlit("mpool"); reveal_strlit("mptc"); reveal_strlit("mstc"); reveal_strlit("mtc"); reveal_strlit("mvrfpk"); reveal_strlit("mxanyonecanspend"); reveal_strlit("rdelg"); reveal_strlit("rmltk"); reveal_strlit("rmt"); reveal_strlit("rmtc"); reveal_strlit("rordr"); reveal_strlit("rpmt"); reveal_strlit("rpool"); reveal_strlit("rstc"); reveal_strlit("rvrfpk"); reveal_strlit("rxanyonecanspend"); reveal_strlit("sdelg"); reveal_strlit("smltk"); reveal_strlit("smt"); reveal_strlit("smtc"); reveal_strlit("sordr"); reveal_strlit("spmt"); reveal_strlit("spool"); reveal_strlit("sstc"); reveal_strlit("svrfpk"); reveal_strlit("sxanyonecanspend"); reveal_strlit("tdelg"); reveal_strlit("tmltk"); reveal_strlit("tmt"); reveal_strlit("tmtc"); reveal_strlit("tordr"); reveal_strlit("tpmt"); reveal_strlit("tpool"); reveal_strlit("tstc"); reveal_strlit("tvrfpk"); reveal_strlit("txanyonecanspend"); }
/// No two kinds of object, on the same chain or on different ones, share a prefix
pub proof fn prefixes_differ(c: ChainType, k: Kind, d: ChainType, l: Kind)
    requires prefix(c, k) == prefix(d, l)
    ensures c == d, k == l
{ letters(c, k); letters(d, l); }

// ---- addresses of objects
pub enum AddressError { Bech32EncodingError(Bech32Error), DecodingError(String), InvalidPrefix(String), QrCodeError(QrCodeError) }
#[verifier::external_body]
pub struct QrCodeError { x: u8 }
impl vstd::std_specs::convert::FromSpecImpl<Bech32Error> for AddressError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Bech32Error) -> AddressError { AddressError::Bech32EncodingError(x) } }
impl From<Bech32Error> for AddressError { fn from(x: Bech32Error) -> AddressError { AddressError::Bech32EncodingError(x) } }
#[verifier::external_body]
pub fn vf_error_text<E>(e: E) -> String { unimplemented!() }
/// Objects with a binary form: what it is and what is read from bytes, the whole of them (of the codec, C13 for the keys)
pub trait Coded: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    spec fn of_bytes(b: Seq<u8>) -> Option<Self>;
    proof fn reads_back(&self) ensures Self::of_bytes(self.bytes()) == Some(*self);
    fn encode(&self) -> (r: Vec<u8>) ensures r@ == self.bytes();
    fn vf_decode_all(b: &[u8]) -> (r: Result<Self, CodecError>) ensures r is Ok == Self::of_bytes(b@) is Some, r is Ok ==> r->Ok_0 == Self::of_bytes(b@)->0;
}
#[verifier::external_body]
pub struct CodecError { x: u8 }
impl CodecError { #[verifier::external_body] pub fn vf_text(&self) -> String { unimplemented!() } }
impl VfText for AddressError { #[verifier::external_body] fn vf_text(&self) -> String { unimplemented!() } }
pub trait VfText { fn vf_text(&self) -> String; }
pub trait Addressable: Coded {
    type Error: VfText;
    spec fn kind(&self) -> Kind;
    fn address_prefix(&self, chain_config: &ChainConfig) -> (r: &str) ensures r@ == prefix(chain_config.chain_type, self.kind());
    fn encode_to_bytes_for_address(&self) -> (r: Vec<u8>) ensures r@ == self.bytes();
    fn decode_from_bytes_from_address(address_bytes: &[u8]) -> (r: Result<Self, Self::Error>) ensures r is Ok == Self::of_bytes(address_bytes@) is Some, r is Ok ==> r->Ok_0 == Self::of_bytes(address_bytes@)->0;
}
#[verifier::external_body]
pub struct VRFPublicKey { x: u8 }
impl Coded for VRFPublicKey {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    uninterp spec fn of_bytes(b: Seq<u8>) -> Option<VRFPublicKey>;
    #[verifier::external_body]
    proof fn reads_back(&self) {}
    #[verifier::external_body]
    fn encode(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vf_decode_all(b: &[u8]) -> (r: Result<VRFPublicKey, CodecError>) { unimplemented!() }
}
//@ impl AT impl Addressable for VRFPublicKey
    open spec fn kind(&self) -> Kind { Kind::VrfKey }
//@ fn address_prefix
//@ fn encode_to_bytes_for_address
//@ fn decode_from_bytes_from_address
//@ . mono T &[u8]
//@ . argtype address_bytes &[u8]
//@ . replace Self::decode_all(&mut address_bytes.as_ref()) =>> Self::vf_decode_all(address_bytes.as_ref())
//@ . method as_ref => vf_as_ref
//@ . method to_string => vf_text
//@ endimpl
#[verifier::external_body]
pub struct TokenId { x: u8 }
impl Coded for TokenId {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    uninterp spec fn of_bytes(b: Seq<u8>) -> Option<TokenId>;
    #[verifier::external_body]
    proof fn reads_back(&self) {}
    #[verifier::external_body]
    fn encode(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vf_decode_all(b: &[u8]) -> (r: Result<TokenId, CodecError>) { unimplemented!() }
}
//@ impl TI impl Addressable for TokenId
    open spec fn kind(&self) -> Kind { Kind::Token }
//@ fn address_prefix
//@ fn encode_to_bytes_for_address
//@ fn decode_from_bytes_from_address
//@ . mono T &[u8]
//@ . argtype address_bytes &[u8]
//@ . replace Self::decode_all(&mut address_bytes.as_ref()) =>> Self::vf_decode_all(address_bytes.as_ref())
//@ . method as_ref => vf_as_ref
//@ . method to_string => vf_text
//@ endimpl
#[verifier::external_body]
pub struct OrderId { x: u8 }
impl Coded for OrderId {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    uninterp spec fn of_bytes(b: Seq<u8>) -> Option<OrderId>;
    #[verifier::external_body]
    proof fn reads_back(&self) {}
    #[verifier::external_body]
    fn encode(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vf_decode_all(b: &[u8]) -> (r: Result<OrderId, CodecError>) { unimplemented!() }
}
//@ impl OI impl Addressable for OrderId
    open spec fn kind(&self) -> Kind { Kind::Order }
//@ fn address_prefix
//@ fn encode_to_bytes_for_address
//@ fn decode_from_bytes_from_address
//@ . mono T &[u8]
//@ . argtype address_bytes &[u8]
//@ . replace Self::decode_all(&mut address_bytes.as_ref()) =>> Self::vf_decode_all(address_bytes.as_ref())
//@ . method as_ref => vf_as_ref
//@ . method to_string => vf_text
//@ endimpl
#[verifier::external_body]
pub struct PoolId { x: u8 }
impl Coded for PoolId {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    uninterp spec fn of_bytes(b: Seq<u8>) -> Option<PoolId>;
    #[verifier::external_body]
    proof fn reads_back(&self) {}
    #[verifier::external_body]
    fn encode(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vf_decode_all(b: &[u8]) -> (r: Result<PoolId, CodecError>) { unimplemented!() }
}
//@ impl PI impl Addressable for PoolId
    open spec fn kind(&self) -> Kind { Kind::Pool }
//@ fn address_prefix
//@ fn encode_to_bytes_for_address
//@ fn decode_from_bytes_from_address
//@ . mono T &[u8]
//@ . argtype address_bytes &[u8]
//@ . replace Self::decode_all(&mut address_bytes.as_ref()) =>> Self::vf_decode_all(address_bytes.as_ref())
//@ . method as_ref => vf_as_ref
//@ . method to_string => vf_text
//@ endimpl
#[verifier::external_body]
pub struct DelegationId { x: u8 }
impl Coded for DelegationId {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    uninterp spec fn of_bytes(b: Seq<u8>) -> Option<DelegationId>;
    #[verifier::external_body]
    proof fn reads_back(&self) {}
    #[verifier::external_body]
    fn encode(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vf_decode_all(b: &[u8]) -> (r: Result<DelegationId, CodecError>) { unimplemented!() }
}
//@ impl DI impl Addressable for DelegationId
    open spec fn kind(&self) -> Kind { Kind::Delegation }
//@ fn address_prefix
//@ fn encode_to_bytes_for_address
//@ fn decode_from_bytes_from_address
//@ . mono T &[u8]
//@ . argtype address_bytes &[u8]
//@ . replace Self::decode_all(&mut address_bytes.as_ref()) =>> Self::vf_decode_all(address_bytes.as_ref())
//@ . method as_ref => vf_as_ref
//@ . method to_string => vf_text
//@ endimpl
#[verifier::external_body]
pub struct PublicKeyHash { x: u8 }
#[verifier::external_body]
pub struct PublicKey { x: u8 }
#[verifier::external_body]
pub struct Script { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Id<T> { x: core::marker::PhantomData<T> }
//@ enum DO Destination
impl Destination { pub open spec fn tag(&self) -> DestinationTag { match self { Destination::AnyoneCanSpend => DestinationTag::AnyoneCanSpend, Destination::PublicKeyHash(_) => DestinationTag::PublicKeyHash, Destination::PublicKey(_) => DestinationTag::PublicKey, Destination::ScriptHash(_) => DestinationTag::ScriptHash, Destination::ClassicMultisig(_) => DestinationTag::ClassicMultisig } } }
// (what the derived conversion does)
impl vstd::std_specs::convert::FromSpecImpl<&Destination> for DestinationTag { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: &Destination) -> DestinationTag { x.tag() } }
impl From<&Destination> for DestinationTag { fn from(x: &Destination) -> DestinationTag { match x { Destination::AnyoneCanSpend => DestinationTag::AnyoneCanSpend, Destination::PublicKeyHash(_) => DestinationTag::PublicKeyHash, Destination::PublicKey(_) => DestinationTag::PublicKey, Destination::ScriptHash(_) => DestinationTag::ScriptHash, Destination::ClassicMultisig(_) => DestinationTag::ClassicMultisig } } }
impl Coded for Destination {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    uninterp spec fn of_bytes(b: Seq<u8>) -> Option<Destination>;
    #[verifier::external_body]
    proof fn reads_back(&self) {}
    #[verifier::external_body]
    fn encode(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vf_decode_all(b: &[u8]) -> (r: Result<Destination, CodecError>) { unimplemented!() }
}
//@ impl DO impl Addressable for Destination
    open spec fn kind(&self) -> Kind { Kind::Dest(self.tag()) }
//@ fn address_prefix
//@ fn encode_to_bytes_for_address
//@ fn decode_from_bytes_from_address
//@ . mono T &[u8]
//@ . argtype address_bytes &[u8]
//@ . replace Self::decode_all(&mut address_bytes.as_ref()) =>> Self::vf_decode_all(address_bytes.as_ref())
//@ . method as_ref => vf_as_ref
//@ . method to_string => vf_text
//@ endimpl

//@ fn AD decode_address
//@|    ensures r is Ok == (m_valid(address@) && T::of_bytes(data_of(address@)) is Some && hrp_of(address@) == prefix(cfg.chain_type, T::of_bytes(data_of(address@))->0.kind())),
//@|        r is Ok ==> r->Ok_0 == T::of_bytes(data_of(address@))->0
//@ . method to_string => vf_text
pub trait VfString: Sized { fn vf_string(self) -> String; }
impl VfString for String { fn vf_string(self) -> (r: String) ensures r == self { self } }
//@ struct AD Address
//@ inherent AD impl<T: Addressable> Address<T>
//@ fn new
//@|    ensures r is Ok == (good_hrp(prefix(cfg.chain_type, object.kind())) && fits(prefix(cfg.chain_type, object.kind()), object.bytes())),
//@|        r is Ok ==> r->Ok_0.object == object && r->Ok_0.address@ == m_text(prefix(cfg.chain_type, object.kind()), object.bytes())
//@ fn from_string
//@|    ensures r is Ok == (m_valid(address@) && T::of_bytes(data_of(address@)) is Some && hrp_of(address@) == prefix(cfg.chain_type, T::of_bytes(data_of(address@))->0.kind())),
//@|        r is Ok ==> r->Ok_0.address@ == address@ && r->Ok_0.object == T::of_bytes(data_of(address@))->0
//@ . argtype address String
//@ . method into => vf_string
//@ endimpl
//@ inherent AD impl<T> Address<T>
//@ fn as_str
//@|    ensures r@ == self.address@
//@ fn into_string
//@|    ensures r == self.address
//@ fn as_object
//@|    ensures *r == self.object
//@ fn into_object
//@|    ensures r == self.object
//@ endimpl
/// What decode_address answers, by its contract
pub open spec fn reads<T: Addressable>(c: ChainType, t: Seq<char>) -> Option<T> {
    if m_valid(t) && T::of_bytes(data_of(t)) is Some && hrp_of(t) == prefix(c, T::of_bytes(data_of(t))->0.kind()) { T::of_bytes(data_of(t)) } else { None }
}
/// The text of an address reads back as its object, on the same chain
pub proof fn address_reads_back<T: Addressable>(c: ChainType, o: T)
    requires good_hrp(prefix(c, o.kind())), fits(prefix(c, o.kind()), o.bytes()), lower(prefix(c, o.kind())) == prefix(c, o.kind())
    ensures reads::<T>(c, m_text(prefix(c, o.kind()), o.bytes())) == Some(o)
{ reads_back(prefix(c, o.kind()), o.bytes()); o.reads_back(); }
/// and never on another chain, nor as an object of another kind
pub proof fn address_is_of_one_chain_and_kind<S: Addressable, T: Addressable>(c: ChainType, o: S, d: ChainType)
    requires good_hrp(prefix(c, o.kind())), fits(prefix(c, o.kind()), o.bytes()), lower(prefix(c, o.kind())) == prefix(c, o.kind())
    ensures reads::<T>(d, m_text(prefix(c, o.kind()), o.bytes())) is Some ==> c == d && reads::<T>(d, m_text(prefix(c, o.kind()), o.bytes()))->0.kind() == o.kind()
{
    reads_back(prefix(c, o.kind()), o.bytes());
    let t = m_text(prefix(c, o.kind()), o.bytes());
    if reads::<T>(d, t) is Some { prefixes_differ(c, o.kind(), d, T::of_bytes(data_of(t))->0.kind()); }
}
} fn main() {}
