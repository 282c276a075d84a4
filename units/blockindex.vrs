// Blocks, headers and indices of blocks: the structs of common::chain and chainstate_types as they stand, with their accessors
//@ source KB chainstate/types/src/block_index.rs
//@ source KG chainstate/types/src/gen_block_index.rs
//@ source BS common/src/chain/block/signed_block_header.rs
//@ source BH common/src/chain/block/block_header.rs
//@ path std::sync::Arc => Arc
pub struct GenBlock;
pub struct Genesis { pub timestamp: BlockTimestamp }
pub struct VersionTag<const N: u8>;
/// bytes of a hash; as a number, the trust of a chain
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct H256 { d: [u8; 32] }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Uint256 { d: [u64; 4] }
impl H256 { pub uninterp spec fn num(&self) -> Uint256; }
impl Uint256 { pub uninterp spec fn view(&self) -> int; pub uninterp spec fn hash(&self) -> H256;
    pub axiom fn there_and_back(x: Uint256) ensures x.hash().num() == x;
    pub exec const ZERO: Uint256 ensures Self::ZERO == vf_zero(), Self::ZERO@ == 0 { zero() }
}
pub uninterp spec fn vf_zero() -> Uint256;
#[verifier::external_body]
const fn zero() -> (r: Uint256) ensures r == vf_zero(), r@ == 0 { Uint256 { d: [0; 4] } }
impl vstd::std_specs::convert::FromSpecImpl<H256> for Uint256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: H256) -> Uint256 { x.num() } }
impl From<H256> for Uint256 { #[verifier::external_body] fn from(x: H256) -> (r: Uint256) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Uint256> for H256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Uint256) -> H256 { x.hash() } }
impl From<Uint256> for H256 { #[verifier::external_body] fn from(x: Uint256) -> (r: H256) { unimplemented!() } }
//@ include heads.vrs
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct BlockStatus { d: u64 }
/// blocks and genesis blocks have their ids in common
pub open spec fn gen(id: Id<Block>) -> Id<GenBlock> { VfId { x: id.x, t: core::marker::PhantomData } }
pub open spec fn gen0(id: Id<Genesis>) -> Id<GenBlock> { VfId { x: id.x, t: core::marker::PhantomData } }
impl vstd::std_specs::convert::FromSpecImpl<Id<Block>> for Id<GenBlock> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Id<Block>) -> Id<GenBlock> { gen(x) } }
impl From<Id<Block>> for Id<GenBlock> { #[verifier::external_body] fn from(x: Id<Block>) -> (r: Id<GenBlock>) { unimplemented!() } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Id<Block>> for &'a Id<GenBlock> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: &'a Id<Block>) -> &'a Id<GenBlock> { &gen(*x) } }
impl<'a> From<&'a Id<Block>> for &'a Id<GenBlock> { #[verifier::external_body] fn from(x: &'a Id<Block>) -> (r: &'a Id<GenBlock>) { unimplemented!() } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Id<Genesis>> for &'a Id<GenBlock> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: &'a Id<Genesis>) -> &'a Id<GenBlock> { &gen0(*x) } }
impl<'a> From<&'a Id<Genesis>> for &'a Id<GenBlock> { #[verifier::external_body] fn from(x: &'a Id<Genesis>) -> (r: &'a Id<GenBlock>) { unimplemented!() } }
pub trait VfCopied<T> { fn vf_copied(self) -> Option<T>; }
impl<'a, T: Copy> VfCopied<T> for Option<&'a T> { fn vf_copied(self) -> (r: Option<T>) ensures r == (match self { Some(x) => Some(*x), None => None }) { match self { Some(x) => Some(*x), None => None } } }
/// something with its id
#[verifier::reject_recursive_types(T)]
pub struct WithId<T> { pub id: Id<T>, pub object: T }
impl<T> WithId<T> { pub fn id(this: &Self) -> (r: &Id<T>) ensures *r == this.id { &this.id } }
impl WithId<Genesis> { pub fn timestamp(&self) -> (r: BlockTimestamp) ensures r == self.object.timestamp { self.object.timestamp } }
//@ struct BH BlockHeader
//@ impl BH impl BlockHeader
//@ fn prev_block_id
//@|    ensures *r == self.prev_block_id
//@ fn timestamp
//@|    ensures r == self.timestamp
//@ endimpl
//@ struct BS SignedBlockHeader
impl Clone for SignedBlockHeader { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ impl BS impl SignedBlockHeader
//@ fn header
//@|    ensures *r == self.block_header
//@ endimpl
//@ include block.vrs
//@ struct KB BlockIndex
impl Clone for BlockIndex { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ impl KB impl BlockIndex
    pub open spec fn prev(&self) -> Id<GenBlock> { self.block_header.block_header.prev_block_id }
//@ fn new
//@|    ensures r == (BlockIndex { block_header: block.head(), block_id: block.the_id(), some_ancestor, chain_trust: chain_trust.hash(), height, chain_time_max, chain_transaction_count, status, is_persisted: false })
//@ fn block_id
//@|    ensures *r == self.block_id
//@ fn prev_block_id
//@|    ensures *r == self.prev()
//@ fn block_timestamp
//@|    ensures r == self.block_header.block_header.timestamp
//@ fn chain_timestamps_max
//@|    ensures r == self.chain_time_max
//@ fn block_height
//@|    ensures r == self.height
//@ fn chain_trust
//@|    ensures r == self.chain_trust.num()
//@ fn chain_transaction_count
//@|    ensures r == self.chain_transaction_count
//@ fn block_header
//@|    ensures *r == self.block_header
//@ fn some_ancestor
//@|    ensures *r == self.some_ancestor
//@ endimpl
//@ enum KG GenBlockIndex
impl Clone for GenBlockIndex { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl GenBlockIndex {
    pub open spec fn at(self) -> BlockHeight { match self { GenBlockIndex::Block(b) => b.height, GenBlockIndex::Genesis(_) => BlockHeight(0) } }
    pub open spec fn the_id(self) -> Id<GenBlock> { match self { GenBlockIndex::Block(b) => gen(b.block_id), GenBlockIndex::Genesis(g) => gen0(g.id) } }
    pub open spec fn made(self) -> BlockTimestamp { match self { GenBlockIndex::Block(b) => b.block_header.block_header.timestamp, GenBlockIndex::Genesis(g) => g.object.timestamp } }
    pub open spec fn latest(self) -> BlockTimestamp { match self { GenBlockIndex::Block(b) => b.chain_time_max, GenBlockIndex::Genesis(g) => g.object.timestamp } }
    pub open spec fn trust(self) -> Uint256 { match self { GenBlockIndex::Block(b) => b.chain_trust.num(), GenBlockIndex::Genesis(_) => vf_zero() } }
    pub open spec fn before(self) -> Option<Id<GenBlock>> { match self { GenBlockIndex::Block(b) => Some(b.prev()), GenBlockIndex::Genesis(_) => None } }
    pub open spec fn txs(self) -> u128 { match self { GenBlockIndex::Block(b) => b.chain_transaction_count, GenBlockIndex::Genesis(_) => 0 } }
}
/// a block's place in the chains: its index without what changes while it is checked and stored
pub uninterp spec fn vf_status() -> BlockStatus;
pub open spec fn bare(i: BlockIndex) -> BlockIndex { BlockIndex { status: vf_status(), is_persisted: false, ..i } }
pub open spec fn place(b: GenBlockIndex) -> GenBlockIndex { match b { GenBlockIndex::Block(i) => GenBlockIndex::Block(bare(i)), g => g } }
pub open spec fn placed(r: Option<GenBlockIndex>) -> Option<GenBlockIndex> { match r { Some(b) => Some(place(b)), None => None } }
//@ enum KG GenBlockIndexRef
pub open spec fn whole(r: GenBlockIndexRef<'_>) -> GenBlockIndex { match r { GenBlockIndexRef::Block(b) => GenBlockIndex::Block(*b), GenBlockIndexRef::Genesis(g) => GenBlockIndex::Genesis(Arc::new(*g)) } }
//@ inherent KG impl<'a> GenBlockIndexRef<'a>
//@ fn block_id
//@|    ensures *r == whole(*self).the_id()
//@ fn block_timestamp
//@|    ensures r == whole(*self).made()
//@ fn chain_timestamps_max
//@|    ensures r == whole(*self).latest()
//@ fn block_height
//@|    ensures r == whole(*self).at()
//@ fn chain_trust
//@|    ensures r == whole(*self).trust()
//@ fn prev_block_id
//@|    ensures match r { Some(x) => whole(*self).before() == Some(*x), None => whole(*self).before() is None }
//@ fn chain_transaction_count
//@|    ensures r == whole(*self).txs()
//@ endimpl
//@ impl KG impl GenBlockIndex
//@ fn as_ref
//@|    ensures whole(r) == *self
//@ fn block_id
//@|    ensures r == self.the_id()
//@ fn block_timestamp
//@|    ensures r == self.made()
//@ fn chain_timestamps_max
//@|    ensures r == self.latest()
//@ fn block_height
//@|    ensures r == self.at()
//@ fn chain_trust
//@|    ensures r == self.trust()
//@ fn prev_block_id
//@ . method copied => vf_copied
//@|    ensures r == self.before()
//@ fn chain_transaction_count
//@|    ensures r == self.txs()
//@ endimpl
