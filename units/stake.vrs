// Who may make a block: the consensus of its height, the target that is due, the staker's kernel and signature, and a hash that is derived from the slot and the sealed epoch's randomness.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::ops::{Add, Sub};
use std::sync::Arc;
//@ source PM consensus/src/pos/mod.rs
//@ source PK consensus/src/pos/kernel.rs
//@ source PB consensus/src/pos/block_sig.rs
//@ source PH consensus/src/pos/hash_check.rs
//@ source PI consensus/src/pos/input_data.rs
//@ source PV consensus/src/validator.rs
//@ source PW consensus/src/pow/work.rs
//@ source PE chainstate/src/detail/chainstateref/epoch_seal.rs
//@ source CD common/src/chain/block/consensus_data.rs
//@ source CF common/src/chain/config/mod.rs
//@ source CU common/src/chain/upgrades/consensus_upgrade.rs
//@ source CX common/src/chain/upgrades/chainstate_upgrade/mod.rs
//@ source CV common/src/chain/pos/mod.rs
//@ source CP common/src/chain/pos/config.rs
//@ source CN common/src/chain/coin_unit.rs
//@ source CG common/src/chain/gen_block.rs
//@ source SR chainstate/types/src/pos_randomness.rs
//@ source SV chainstate/types/src/vrf_tools.rs
//@ source SD chainstate/types/src/epoch_data.rs
//@ source SC chainstate/types/src/epoch_data_cache.rs
//@ source K common/src/chain/transaction/output/timelock.rs
//@ source BS common/src/chain/block/signed_block_header.rs
//@ source BH common/src/chain/block/block_header.rs
//@ source UX utxo/src/utxo.rs
//@ source RQ pos-accounting/src/pool/pool_data.rs
//@ path pos_accounting::Error => PosError
//@ path crate::Error => PosError
//@ path Error => PosError
//@ path storage_result::Error => StorageError
//@ path chainstate_types::storage_result::Error => StorageError
//@ path super::ThresholdError => ThresholdError
verus! {
#[derive(Clone, Copy)]
pub struct Amount { pub atoms: u128 }
impl AddSpecImpl<Amount> for Amount { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Amount) -> bool { true } open spec fn add_spec(self, o: Amount) -> Option<Amount> { if self.atoms + o.atoms <= u128::MAX { Some(Amount { atoms: (self.atoms + o.atoms) as u128 }) } else { None } } }
impl Add<Amount> for Amount { type Output = Option<Amount>; #[verifier::external_body] fn add(self, o: Amount) -> (r: Option<Amount>) { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SigHashType { d: u8 }
pub struct StandardInputSignature { pub sighash_type: SigHashType, pub raw_signature: Vec<u8> }
fn vf_assert(b: bool) requires b { }
#[verifier::external_body] fn vf_panic<T>() -> T requires false { unimplemented!() }
//@ without heads.vrs
//@ include lists.vrs
//@ include height.vrs
//@ include stamp.vrs
//@ enum K OutputTimeLock derive Clone,Copy
//@ include txtypes.vrs
impl Clone for TxOutput { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ impl TI impl TxInput
//@ fn utxo_outpoint
//@|    ensures match r { Some(o) => *self == TxInput::Utxo(*o), None => !(*self is Utxo) }
//@ endimpl
// ---------------------------------------------------------------- headers
#[derive(Clone, Copy)]
pub struct Compact(pub u32);
impl PartialEqSpecImpl for Compact { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Compact) -> bool { *self == *o } }
impl PartialEq for Compact { #[verifier::external_body] fn eq(&self, o: &Compact) -> (r: bool) { unimplemented!() } }
/// a proof and what it proves (the schnorrkel library's)
#[verifier::external_body]
pub struct VRFReturn { d: u64 }
#[verifier::external_body]
pub struct Signature { d: u64 }
//@ struct CD PoSData
//@ struct CD PoWData
//@ enum CD ConsensusData
//@ struct BS BlockHeaderSignatureData
//@ enum BS BlockHeaderSignature
//@ include blockindex.vrs
//@ impl CD impl PoSData
//@ fn kernel_inputs
//@|    ensures r@ == self.kernel_inputs@
//@ fn stake_pool_id
//@|    ensures *r == self.stake_pool_id
//@ fn compact_target
//@|    ensures r == self.compact_target
//@ fn vrf_data
//@|    ensures *r == self.vrf_data
//@ fn update_vrf_data
//@|    ensures *final(self) == (PoSData { vrf_data: vrf_data, ..*old(self) })
//@ endimpl
//@ impl CD impl PoWData
//@ fn bits
//@|    ensures r == self.bits
//@ endimpl
//@ impl BS impl BlockHeaderSignatureData
//@ fn signature
//@|    ensures *r == self.signature
//@ endimpl
/// the bytes of a header (everything in it, C18), and the hash of them (what a block is called)
pub uninterp spec fn header_bytes(h: BlockHeader) -> Seq<u8>;
pub uninterp spec fn header_hash(b: Seq<u8>) -> Uint256;
pub uninterp spec fn vf_name(h: Uint256) -> u64;
pub open spec fn name_of(h: BlockHeader) -> Id<Block> { VfId { x: vf_name(header_hash(header_bytes(h))), t: core::marker::PhantomData } }
impl BlockHeader {
    #[verifier::external_body] pub fn encode(&self) -> (r: Vec<u8>) ensures r@ == header_bytes(*self) { unimplemented!() }
    #[verifier::external_body] pub fn block_id(&self) -> (r: Id<Block>) ensures r == name_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn get_id(&self) -> (r: Id<Block>) ensures r == name_of(*self) { unimplemented!() }
}
impl Id<Block> { #[verifier::external_body] pub fn to_hash(&self) -> (r: H256) ensures forall|h: BlockHeader| #[trigger] name_of(h) == *self ==> r.num() == header_hash(header_bytes(h)) { unimplemented!() } }
//@ impl BH impl BlockHeader
//@ fn consensus_data
//@|    ensures *r == self.consensus_data
//@ fn update_timestamp
//@|    ensures *final(self) == (BlockHeader { timestamp: timestamp, ..*old(self) })
//@ fn update_consensus_data
//@|    ensures *final(self) == (BlockHeader { consensus_data: consensus_data, ..*old(self) })
//@ endimpl
//@ impl BS impl SignedBlockHeader
//@ fn signature_data
//@|    ensures *r == self.signature_data
//@ fn consensus_data
//@|    ensures *r == self.block_header.consensus_data
//@ fn block_id
//@|    ensures r == name_of(self.block_header)
//@ fn prev_block_id
//@|    ensures *r == self.block_header.prev_block_id
//@ fn timestamp
//@|    ensures r == self.block_header.timestamp
//@ fn header_mut
//@|    ensures match r { Some(h) => old(self).signature_data is None && *h == old(self).block_header && *final(self) == (SignedBlockHeader { block_header: *final(h), ..*old(self) }), None => old(self).signature_data is HeaderSignature && *final(self) == *old(self) }
//@ endimpl
//@ inherent BS impl Idable for SignedBlockHeader
//@ fn get_id
//@ . retype Id<Block>
//@|    ensures r == name_of(self.block_header)
//@ endimpl
// ---------------------------------------------------------------- keys
pub trait CryptoRng { }
#[verifier::external_body]
pub struct VRFPrivateKey { d: u64 }
#[verifier::external_body]
pub struct PrivateKey { d: u64 }
#[verifier::external_body]
pub struct VRFError { d: u64 }
/// One step of a transcript
pub enum Step { New(Seq<u8>), Number(Seq<u8>, u64), Bytes(Seq<u8>, Seq<u8>) }
// (C19: everything attached is there, in order, under its label)
#[verifier::external_body]
pub struct VRFTranscript { d: u64 }
impl VRFTranscript {
    pub uninterp spec fn view(&self) -> Seq<Step>;
    #[verifier::external_body] pub fn new(label: &'static [u8]) -> (r: VRFTranscript) ensures r@ == seq![Step::New(label@)] { unimplemented!() }
    #[verifier::external_body] pub fn attach_u64(self, label: &'static [u8], v: u64) -> (r: VRFTranscript) ensures r@ == self@.push(Step::Number(label@, v)) { unimplemented!() }
    #[verifier::external_body] pub fn attach_raw_data(self, label: &'static [u8], m: &[u8]) -> (r: VRFTranscript) ensures r@ == self@.push(Step::Bytes(label@, m@)) { unimplemented!() }
    /// (the randomness is for the proof, not for what is proved)
    #[verifier::external_body] pub fn with_rng<R: CryptoRng>(self, rng: &mut R) -> (r: VRFTranscript) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: VRFTranscript) ensures r@ == self@ { unimplemented!() }
}
impl VRFPublicKey {
    pub uninterp spec fn of(k: VRFPrivateKey) -> VRFPublicKey;
    /// d proves, for this key, what the transcript gives
    pub uninterp spec fn proves(&self, t: Seq<Step>, d: VRFReturn) -> bool;
    /// what the transcript gives for this key: whatever proves it proves the same
    pub uninterp spec fn gives(&self, t: Seq<Step>) -> [u8; 32];
    #[verifier::external_body] pub fn from_private_key(k: &VRFPrivateKey) -> (r: VRFPublicKey) ensures r == VRFPublicKey::of(*k) { unimplemented!() }
    #[verifier::external_body] pub fn verify_vrf_data(&self, t: VRFTranscript, d: &VRFReturn) -> (r: Result<(), VRFError>) ensures r is Ok == self.proves(t@, *d) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: VRFPublicKey) ensures r == *self { unimplemented!() }
}
impl VRFPrivateKey { #[verifier::external_body] pub fn produce_vrf_data(&self, t: VRFTranscript) -> (r: VRFReturn) ensures VRFPublicKey::of(*self).proves(t@, r) { unimplemented!() } }
#[verifier::external_body]
fn extract_vrf_output(d: &VRFReturn, k: VRFPublicKey, t: VRFTranscript) -> (r: Result<[u8; 32], VRFError>) ensures k.proves(t@, *d) ==> r == Ok::<[u8; 32], VRFError>(k.gives(t@)) { unimplemented!() }
impl H256 { pub uninterp spec fn bytes(&self) -> Seq<u8>; pub uninterp spec fn of(b: [u8; 32]) -> H256;
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<[u8; 32]> for H256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: [u8; 32]) -> H256 { H256::of(x) } }
impl From<[u8; 32]> for H256 { #[verifier::external_body] fn from(x: [u8; 32]) -> (r: H256) { unimplemented!() } }
// ---------------------------------------------------------------- the randomness a block is drawn with
pub type EpochIndex = u64;
//@ const SV TRANSCRIPT_MAIN_LABEL
//@ const SV RANDOMNESS_COMPONENT_LABEL
//@ const SV SLOT_COMPONENT_LABEL
//@ const SV EPOCH_INDEX_COMPONENT_LABEL
//@ enum SV ProofOfStakeVRFError
impl core::convert::From<VRFError> for ProofOfStakeVRFError { #[verifier::external_body] fn from(e: VRFError) -> Self { unimplemented!() } }
/// the slot, the epoch and the randomness before it, all of them and each in its place
pub open spec fn slot(epoch: u64, seed: H256, t: BlockTimestamp) -> Seq<Step> {
    seq![Step::New(TRANSCRIPT_MAIN_LABEL@), Step::Bytes(RANDOMNESS_COMPONENT_LABEL@, seed.bytes()), Step::Number(SLOT_COMPONENT_LABEL@, t.timestamp), Step::Number(EPOCH_INDEX_COMPONENT_LABEL@, epoch)]
}
/// no two slots are drawn alike
proof fn apart(e1: u64, s1: H256, t1: BlockTimestamp, e2: u64, s2: H256, t2: BlockTimestamp)
    requires slot(e1, s1, t1) == slot(e2, s2, t2)
    ensures e1 == e2, s1.bytes() == s2.bytes(), t1 == t2
{ assert(slot(e1, s1, t1)[1] == slot(e2, s2, t2)[1] && slot(e1, s1, t1)[2] == slot(e2, s2, t2)[2] && slot(e1, s1, t1)[3] == slot(e2, s2, t2)[3]); }
//@ fn SV construct_transcript
//@|    ensures r@ =~= slot(epoch_index, *random_seed, block_timestamp)
//@ fn SV verify_vrf_and_get_vrf_output
//@|    ensures match r { Ok(h) => vrf_public_key.proves(slot(epoch_index, *random_seed, block_timestamp), *vrf_data) && h == H256::of(vrf_public_key.gives(slot(epoch_index, *random_seed, block_timestamp))), Err(_) => !vrf_public_key.proves(slot(epoch_index, *random_seed, block_timestamp), *vrf_data) }
//@ enum SR PoSRandomnessError
impl core::convert::From<ProofOfStakeVRFError> for PoSRandomnessError { #[verifier::external_body] fn from(e: ProofOfStakeVRFError) -> Self { unimplemented!() } }
//@ struct SR PoSRandomness derive Clone,Copy
//@ impl SR impl PoSRandomness
    pub open spec fn drawn(k: VRFPublicKey, epoch: u64, seed: PoSRandomness, t: BlockTimestamp) -> PoSRandomness { PoSRandomness { value: H256::of(k.gives(slot(epoch, seed.value, t))) } }
//@ fn new
//@|    ensures r.value == value
//@ fn value
//@|    ensures r == self.value
//@ fn at_genesis
//@|    ensures r.value == chain_config.initial_randomness
//@ fn from_block
//@|    ensures match r { Ok(x) => vrf_pub_key.proves(slot(epoch_index, seal_randomness.value, block_timestamp), *vrf_data) && x == PoSRandomness::drawn(*vrf_pub_key, epoch_index, *seal_randomness, block_timestamp), Err(_) => !vrf_pub_key.proves(slot(epoch_index, seal_randomness.value, block_timestamp), *vrf_data) }
//@ endimpl
// ---------------------------------------------------------------- the configuration
pub enum PosError { StakerBalanceOverflow, Other(u64) }
#[verifier::external_body]
pub struct StorageError { d: u64 }
#[verifier::external_body]
pub struct PropertyQueryError { d: u64 }
#[verifier::external_body]
pub struct ChainstateError { d: u64 }
#[derive(Clone, Copy)]
pub struct NonZeroU64 { pub n: u64 }
impl NonZeroU64 { #[verifier::type_invariant] spec fn positive(self) -> bool { self.n > 0 } }
impl vstd::std_specs::ops::DivSpecImpl<NonZeroU64> for u64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: NonZeroU64) -> bool { true } open spec fn div_spec(self, o: NonZeroU64) -> u64 { (self / o.n) as u64 } }
//@ struct CP PoSChainConfig
//@ impl CP impl PoSChainConfig
//@ fn consensus_version
//@|    ensures r == self.consensus_version
//@ endimpl
} // verus!
fn main() {}
