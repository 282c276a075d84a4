// What the consensus rules see of targets, times and blocks of the index.
//@ source C common/src/primitives/compact.rs
//@ source TS common/src/chain/block/timestamp.rs
//@ path crate::ChainstateError => ChainstateError
verus! {
//@ include word.vrs
//@ include wides.vrs
//@ include height.vrs
//@ include duration.vrs
// core's NonZeroU64
#[derive(Clone, Copy)]
pub struct NonZeroU64 { v: u64 }
impl NonZeroU64 {
    pub uninterp spec fn val(&self) -> u64;
    #[verifier::external_body] pub const fn new(x: u64) -> (r: Option<NonZeroU64>) ensures r is Some <==> x != 0, r matches Some(y) ==> y.val() == x { unimplemented!() }
    #[verifier::external_body] pub const fn get(self) -> (r: u64) ensures r == self.val(), r != 0 { unimplemented!() }
}
//@ struct C Compact derive Clone,Copy,PartialEq,Eq,Structural
/// what a compact target stands for, and the compact form of a target (C05)
pub uninterp spec fn decoded(c: Compact) -> Option<int>;
pub uninterp spec fn encoded(x: int) -> Compact;
pub trait VfTryFrom<S>: Sized { spec fn vf_from(x: S) -> Option<int>; fn vf_try_from(x: S) -> (r: core::result::Result<Self, ()>); }
impl Uint256 {
    #[verifier::external_body] pub fn vf_of_compact(c: Compact) -> (r: core::result::Result<Uint256, ()>) ensures match r { Ok(y) => decoded(c) == Some(y.num()), Err(_) => decoded(c) is None } { unimplemented!() }
}
pub trait VfTarget: Sized { spec fn vf_target(self) -> Option<int>; fn vf_try_into(self) -> (r: core::result::Result<Uint256, ()>) ensures match r { Ok(y) => self.vf_target() == Some(y.num()), Err(_) => self.vf_target() is None }; }
impl VfTarget for Compact { open spec fn vf_target(self) -> Option<int> { decoded(self) } #[verifier::external_body] fn vf_try_into(self) -> (r: core::result::Result<Uint256, ()>) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Uint256> for Compact { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Uint256) -> Compact { encoded(x.num()) } }
impl core::convert::From<Uint256> for Compact { #[verifier::external_body] fn from(x: Uint256) -> (r: Compact) { unimplemented!() } }
//@ type TS BlockTimestampInternalType
//@ struct TS BlockTimestamp derive Clone,Copy,PartialEq,Eq,Structural
//@ impl TS impl BlockTimestamp
//@ fn as_int_seconds
//@|    ensures r == self.timestamp
//@ endimpl
// what the code sees of a block in the index
#[verifier::external_body] pub struct BlockIndex { i: u64 }
#[verifier::external_body] pub struct Genesis { i: u64 }
pub enum GenBlockIndex { Genesis(Genesis), Block(BlockIndex) }
#[verifier::external_body] pub struct PoWData { i: u64 }
#[verifier::external_body] pub struct PoSData { i: u64 }
#[verifier::external_body] pub struct SignedBlockHeader { i: u64 }
pub enum ConsensusData { None, PoW(Box<PoWData>), PoS(Box<PoSData>) }
impl PoWData { pub uninterp spec fn tgt(&self) -> Compact; #[verifier::external_body] pub fn bits(&self) -> (r: Compact) ensures r == self.tgt() { unimplemented!() } }
impl PoSData { pub uninterp spec fn tgt(&self) -> Compact; #[verifier::external_body] pub fn compact_target(&self) -> (r: Compact) ensures r == self.tgt() { unimplemented!() } }
impl SignedBlockHeader { pub uninterp spec fn data(&self) -> ConsensusData; #[verifier::external_body] pub fn consensus_data(&self) -> (r: &ConsensusData) ensures *r == self.data() { unimplemented!() } }
impl BlockIndex {
    pub uninterp spec fn ht(&self) -> BlockHeight;
    pub uninterp spec fn time(&self) -> u64;
    pub uninterp spec fn head(&self) -> SignedBlockHeader;
    #[verifier::external_body] pub fn block_height(&self) -> (r: BlockHeight) ensures r == self.ht() { unimplemented!() }
    #[verifier::external_body] pub fn block_timestamp(&self) -> (r: BlockTimestamp) ensures r.timestamp == self.time() { unimplemented!() }
    #[verifier::external_body] pub fn block_header(&self) -> (r: &SignedBlockHeader) ensures *r == self.head() { unimplemented!() }
}
impl Genesis { pub uninterp spec fn time(&self) -> u64; }
impl GenBlockIndex { pub open spec fn time(&self) -> u64 { match self { GenBlockIndex::Genesis(g) => g.time(), GenBlockIndex::Block(b) => b.time() } } #[verifier::external_body] pub fn block_timestamp(&self) -> (r: BlockTimestamp) ensures r.timestamp == self.time() { unimplemented!() } }
#[verifier::external_body] pub struct ChainstateError { e: u64 }
// the error variants in use (their Display and the other variants are left out)
pub enum ConsensusPoSError { ChainstateError(ChainstateError), EmptyTimespan, InvariantBrokenNotMonotonicBlockTime, DecodingBitsFailed(Compact), InvalidTargetBlockTime }
pub enum ConsensusPoWError { ChainstateError(ChainstateError), PreviousBitsDecodingFailed(Compact), DecodingBitsFailed(Compact), NoPowDataInPreviousBlock }
impl vstd::std_specs::convert::FromSpecImpl<ChainstateError> for ConsensusPoSError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ChainstateError) -> ConsensusPoSError { ConsensusPoSError::ChainstateError(e) } }
impl From<ChainstateError> for ConsensusPoSError { fn from(e: ChainstateError) -> (r: ConsensusPoSError) { ConsensusPoSError::ChainstateError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<ChainstateError> for ConsensusPoWError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ChainstateError) -> ConsensusPoWError { ConsensusPoWError::ChainstateError(e) } }
impl From<ChainstateError> for ConsensusPoWError { fn from(e: ChainstateError) -> (r: ConsensusPoWError) { ConsensusPoWError::ChainstateError(e) } }
pub open spec fn low(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn clamped(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
proof fn proportion(p: int, t: int) requires 0 <= p, 0 < t ensures 0 <= p / t <= p { assert(0 <= p / t <= p) by (nonlinear_arith) requires 0 <= p, 0 < t; }
} // verus!
