// The chain the node follows: its index by height, its tip and the state are always those of one chain of known blocks, and it changes to a block exactly when that block's chain has more trust.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::ops::{Add, Sub};
use std::sync::Arc;
//@ source CR chainstate/src/detail/chainstateref/mod.rs
//@ source CI chainstate/src/detail/chainstateref/block_info.rs
//@ source CT chainstate/src/detail/chainstateref/tx_verifier_storage.rs
//@ source CG common/src/chain/gen_block.rs
//@ source CS chainstate/types/src/block_status.rs
//@ path chainstate_storage::Error => StorageError
//@ path std::cmp::max => vf_max
//@ path max => vf_max
//@ path crate::block_status::BlockStatus => BlockStatus
//@ path crate::chain::config::ChainConfig => ChainConfig
verus! {
macro_rules! vf_die { ($($t:tt)*) => { vf_diverge() } }
/// (a panic, of which nothing is said)
#[verifier::external_body]
fn vf_diverge<T>() -> T ensures false { panic!() }
#[verifier::external_body]
fn vf_panic<T>() -> T requires false { panic!() }
//@ include ancestor.vrs
// ---------------------------------------------------------------- what is outside
/// (a result that is an error ends in a panic, of which nothing is said)
pub trait VfExpect<T> : Sized { spec fn there(&self) -> bool; spec fn holds(&self, t: T) -> bool; fn vf_expect(self, m: &str) -> (r: T) requires self.there() ensures self.holds(r); }
impl<T, E> VfExpect<T> for core::result::Result<T, E> {
    open spec fn there(&self) -> bool { true }
    open spec fn holds(&self, t: T) -> bool { self matches Ok(x) && *x == t }
    #[verifier::external_body] fn vf_expect(self, m: &str) -> (r: T) { unimplemented!() }
}
impl<T> VfExpect<T> for Option<T> {
    open spec fn there(&self) -> bool { self is Some }
    open spec fn holds(&self, t: T) -> bool { *self == Some(t) }
    fn vf_expect(self, m: &str) -> (r: T) { self.unwrap() }
}
pub trait VfReverse { spec fn turned(&self, o: &Self) -> bool; fn vf_reverse(&mut self) ensures old(self).turned(final(self)); }
impl<T> VfReverse for Vec<T> { open spec fn turned(&self, o: &Self) -> bool { o@ == self@.reverse() } #[verifier::external_body] fn vf_reverse(&mut self) { self.reverse() } }
impl OrdSpecImpl for BlockHeight { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &BlockHeight) -> core::cmp::Ordering { ordered(self.0 as int, o.0 as int) } }
impl core::cmp::Ord for BlockHeight { #[verifier::external_body] fn cmp(&self, o: &BlockHeight) -> (r: core::cmp::Ordering) { unimplemented!() } }
//@ include lists.vrs
pub trait VfIntoIter<T> : Sized { fn vf_iter(self) -> (r: ListIter<T>) ensures r.rest() == self.all(); spec fn all(&self) -> Seq<T>; }
impl<T> VfIntoIter<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_iter(self) -> (r: ListIter<T>) { unimplemented!() } }
#[verifier::external_body]
pub struct ChainstateConfig { d: u64 }
#[verifier::external_body]
pub struct TimeGetter { d: u64 }
pub trait TransactionVerificationStrategy { }
impl PartialEqSpecImpl for Uint256 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Uint256) -> bool { self@ == o@ } }
impl PartialEq for Uint256 { #[verifier::external_body] fn eq(&self, o: &Uint256) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for Uint256 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Uint256) -> Option<core::cmp::Ordering> { Some(ordered(self@, o@)) } }
impl core::cmp::PartialOrd for Uint256 { #[verifier::external_body] fn partial_cmp(&self, o: &Uint256) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
pub trait VfOrdinal { spec fn ordinal(&self) -> int; }
impl VfOrdinal for BlockHeight { open spec fn ordinal(&self) -> int { self.0 as int } }
impl VfOrdinal for BlockTimestamp { open spec fn ordinal(&self) -> int { self.timestamp as int } }
#[verifier::external_body]
fn vf_max<T: VfOrdinal>(a: T, b: T) -> (r: T) ensures r == (if b.ordinal() >= a.ordinal() { b } else { a }) { unimplemented!() }
impl AddSpecImpl<Uint256> for Uint256 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Uint256) -> bool { true } open spec fn add_spec(self, o: Uint256) -> Option<Uint256> { vf_sum(self, o) } }
pub uninterp spec fn vf_sum(a: Uint256, b: Uint256) -> Option<Uint256>;
pub axiom fn sums(a: Uint256, b: Uint256) ensures vf_sum(a, b) matches Some(c) ==> c@ == a@ + b@;
impl Add<Uint256> for Uint256 { type Output = Option<Uint256>; #[verifier::external_body] fn add(self, o: Uint256) -> (r: Option<Uint256>) { unimplemented!() } }
pub axiom fn positive(a: Uint256) ensures a@ >= 0;
/// (an absence ends in a panic, of which nothing is said)
pub trait VfHope<T> : Sized { spec fn hoped(&self, t: T) -> bool; fn vf_hope(self, m: &str) -> (r: T) ensures self.hoped(r); }
impl<T> VfHope<T> for Option<T> { open spec fn hoped(&self, t: T) -> bool { *self == Some(t) } #[verifier::external_body] fn vf_hope(self, m: &str) -> (r: T) { unimplemented!() } }
/// the work a block stands for
pub uninterp spec fn effort(b: Block, before: BlockTimestamp) -> Uint256;
#[verifier::external_body]
pub struct SignedTransaction { d: u64 }
impl Block { #[verifier::external_body] pub fn transactions(&self) -> (r: &[SignedTransaction]) ensures r@.len() == self.count() { unimplemented!() } }
impl ChainConfig { pub uninterp spec fn depth(&self) -> BlockDistance; #[verifier::external_body] pub fn max_depth_for_reorg(&self) -> (r: BlockDistance) ensures r == self.depth() { unimplemented!() } }
/// the checkpoints: at each height at most one, and one for the first block
#[verifier::external_body]
pub struct Checkpoints { d: u64 }
impl Checkpoints {
    pub uninterp spec fn map(&self) -> Map<BlockHeight, Id<GenBlock>>;
    #[verifier::external_body] pub fn checkpoint_at_height(&self, h: &BlockHeight) -> (r: Option<&Id<GenBlock>>) ensures match r { Some(x) => look_h(self.map(), *h) == Some(*x), None => look_h(self.map(), *h) is None } { unimplemented!() }
    #[verifier::external_body] pub fn parent_checkpoint_to_height(&self, h: BlockHeight) -> (r: (BlockHeight, Id<GenBlock>)) ensures last_below(self.map(), h, r.0), look_h(self.map(), r.0) == Some(r.1) { unimplemented!() }
}
pub open spec fn last_below(m: Map<BlockHeight, Id<GenBlock>>, h: BlockHeight, k: BlockHeight) -> bool { k.0 <= h.0 && look_h(m, k) is Some && forall|j: BlockHeight| k.0 < j.0 <= h.0 ==> #[trigger] look_h(m, j) is None }
impl ChainConfig { pub uninterp spec fn points(&self) -> Checkpoints; #[verifier::external_body] pub fn height_checkpoints(&self) -> (r: &Checkpoints) ensures *r == self.points() { unimplemented!() } }
impl ChainstateConfig { pub uninterp spec fn lenient(&self) -> bool; #[verifier::external_body] pub fn checkpoints_mismatch_allowed(&self) -> (r: bool) ensures r == self.lenient() { unimplemented!() } }
impl ChainConfig {
    pub uninterp spec fn first(&self) -> GenBlockIndex;
    pub axiom fn first_is_genesis(&self) ensures self.first() is Genesis;
    #[verifier::external_body] pub fn genesis_block_id(&self) -> (r: Id<GenBlock>) ensures r == self.first().the_id() { unimplemented!() }
}
impl GenBlockIndex { #[verifier::external_body] pub fn genesis(c: &ChainConfig) -> (r: GenBlockIndex) ensures r == c.first() { unimplemented!() } }
// errors: those that are made here, and that they turn into one another
#[verifier::external_body]
pub struct ConsensusVerificationError { d: u64 }
pub enum PropertyQueryError { StorageError(StorageError), GetAncestorError(GetAncestorError), BestBlockIndexNotFound, BlockIndexNotFound(Id<GenBlock>), BlockForHeightNotFound(BlockHeight), PrevBlockIndexNotFound { block_id: Id<Block>, prev_block_id: Id<GenBlock> }, GenesisHeaderRequested }
pub enum BlockError { StorageError(StorageError), BestBlockIdQueryError(PropertyQueryError), BestBlockIndexQueryError(PropertyQueryError), InvariantErrorFailedToFindNewChainPath(Id<GenBlock>, Id<GenBlock>, PropertyQueryError), InvariantErrorInvalidTip(Id<GenBlock>), InvariantErrorAttemptToConnectInvalidBlock(Id<GenBlock>), BlockDataMissingForValidBlockIndex(Id<Block>), CheckBlockFailed(CheckBlockError), PropertyQueryError(PropertyQueryError), BlockIndexAlreadyExists(Id<Block>), BlockAlreadyExists(Id<Block>), BlockIndexQueryError(Id<GenBlock>, PropertyQueryError), PrevBlockNotFoundForNewBlock(Id<Block>), BlockProofCalculationError(Id<Block>), MinHeightForReorgQueryError(PropertyQueryError) }
pub enum ReorgError { ConnectTipFailed(Id<Block>, BlockError), OtherError(BlockError) }
pub enum CheckBlockError { StorageError(StorageError), PropertyQueryError(PropertyQueryError), GetAncestorError(GetAncestorError), ParentBlockMissing { block_id: Id<Block>, parent_block_id: Id<GenBlock> }, InvalidParent { block_id: Id<Block>, parent_block_id: Id<GenBlock> }, CheckpointMismatch { height: BlockHeight, expected: Id<GenBlock>, given: Id<GenBlock> }, AttemptedToAddBlockBeforeReorgLimit { common_ancestor_height: BlockHeight, tip_block_height: BlockHeight, min_allowed_height: BlockHeight }, InvalidBlockAlreadyProcessed(Id<Block>) }
impl core::convert::From<PropertyQueryError> for CheckBlockError { #[verifier::external_body] fn from(e: PropertyQueryError) -> (r: Self) { unimplemented!() } }
impl core::convert::From<GetAncestorError> for CheckBlockError { #[verifier::external_body] fn from(e: GetAncestorError) -> (r: Self) { unimplemented!() } }
impl core::convert::From<StorageError> for PropertyQueryError { #[verifier::external_body] fn from(e: StorageError) -> (r: Self) { unimplemented!() } }
impl core::convert::From<GetAncestorError> for PropertyQueryError { #[verifier::external_body] fn from(e: GetAncestorError) -> (r: Self) { unimplemented!() } }
impl core::convert::From<StorageError> for BlockError { #[verifier::external_body] fn from(e: StorageError) -> (r: Self) { unimplemented!() } }
impl core::convert::From<PropertyQueryError> for BlockError { #[verifier::external_body] fn from(e: PropertyQueryError) -> (r: Self) { unimplemented!() } }
impl core::convert::From<CheckBlockError> for BlockError { #[verifier::external_body] fn from(e: CheckBlockError) -> (r: Self) { unimplemented!() } }
impl core::convert::From<BlockError> for ReorgError { #[verifier::external_body] fn from(e: BlockError) -> (r: Self) { unimplemented!() } }
// ---------------------------------------------------------------- how far a block has been checked
//@ enum CS BlockValidationStage derive Copy,Clone,PartialEq,Eq,Structural
pub open spec fn rank(s: BlockValidationStage) -> int { match s { BlockValidationStage::Unchecked => 0, BlockValidationStage::CheckBlockOk => 1, BlockValidationStage::FullyChecked => 2 } }
impl PartialOrdSpecImpl for BlockValidationStage { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &BlockValidationStage) -> Option<core::cmp::Ordering> { Some(ordered(rank(*self), rank(*o))) } }
impl core::cmp::PartialOrd for BlockValidationStage { #[verifier::external_body] fn partial_cmp(&self, o: &BlockValidationStage) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl BlockStatus {
    pub uninterp spec fn stage(&self) -> BlockValidationStage;
    pub uninterp spec fn fine(&self) -> bool;
    #[verifier::external_body] pub fn last_valid_stage(&self) -> (r: BlockValidationStage) ensures r == self.stage() { unimplemented!() }
    #[verifier::external_body] pub fn is_ok(&self) -> (r: bool) ensures r == self.fine() { unimplemented!() }
    #[verifier::external_body] pub fn advance_validation_stage_to(&mut self, s: BlockValidationStage) requires rank(s) == rank(old(self).stage()) + 1 ensures final(self).stage() == s, final(self).fine() == old(self).fine() { unimplemented!() }
}
//@ impl KB impl BlockIndex
//@ fn status
//@|    ensures r == self.status
//@ fn with_status
//@|    ensures r == (BlockIndex { status, ..self })
//@ endimpl
// ---------------------------------------------------------------- blocks with their ids
impl Clone for Block { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Block> for WithId<Block> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: Block) -> WithId<Block> { WithId { id: b.the_id(), object: b } } }
impl From<Block> for WithId<Block> { #[verifier::external_body] fn from(b: Block) -> (r: WithId<Block>) { unimplemented!() } }
impl WithId<Block> {
    pub fn get_id(&self) -> (r: Id<Block>) ensures r == self.id { self.id }
    pub fn as_ref(&self) -> (r: &Block) ensures *r == self.object { &self.object }
}
//@ enum CG GenBlockId
//@ impl CG impl GenBlockId
//@ fn chain_block_id
//@|    ensures r == (match self { GenBlockId::Genesis(_) => None, GenBlockId::Block(id) => Some(id) })
//@ endimpl
pub open spec fn kind(id: Id<GenBlock>, c: ChainConfig) -> GenBlockId { if id == c.first().the_id() { GenBlockId::Genesis(VfId { x: id.x, t: core::marker::PhantomData }) } else { GenBlockId::Block(VfId { x: id.x, t: core::marker::PhantomData }) } }
impl<T> VfId<T> {
    fn to_hash(&self) -> (r: u64) ensures r == self.x { self.x }
    fn new(x: u64) -> (r: Self) ensures r == (VfId { x, t: core::marker::PhantomData }) { VfId { x, t: core::marker::PhantomData } }
}
//@ inherent CG impl Id<GenBlock>
//@ fn classify
//@|    ensures r == kind(*self, *c)
//@ endimpl
pub trait BlockInfo : Sized {
    spec fn own(&self) -> Id<Block>;
    spec fn told(&self) -> BlockHeader;
    fn get_or_calc_id(&self) -> (r: Id<Block>) ensures r == self.own();
    fn get_header(&self) -> (r: &BlockHeader) ensures *r == self.told();
}
/// (what it dereferences to)
impl SignedBlockHeader { pub fn prev_block_id(&self) -> (r: &Id<GenBlock>) ensures *r == self.block_header.prev_block_id { self.block_header.prev_block_id() } pub fn timestamp(&self) -> (r: BlockTimestamp) ensures r == self.block_header.timestamp { self.block_header.timestamp() } }
impl SignedBlockHeader { pub fn block_id(&self) -> (r: Id<Block>) ensures r == self.the_id() { self.get_id() } }
impl SignedBlockHeader { pub uninterp spec fn the_id(&self) -> Id<Block>; #[verifier::external_body] pub fn get_id(&self) -> (r: Id<Block>) ensures r == self.the_id() { unimplemented!() } }
//@ impl CI impl BlockInfo for BlockIndex
    open spec fn own(&self) -> Id<Block> { self.block_id }
    open spec fn told(&self) -> BlockHeader { self.block_header.block_header }
//@ fn get_or_calc_id
//@ fn get_header
//@ endimpl
//@ impl CI impl BlockInfo for SignedBlockHeader
    open spec fn own(&self) -> Id<Block> { self.the_id() }
    open spec fn told(&self) -> BlockHeader { self.block_header }
//@ fn get_or_calc_id
//@ fn get_header
//@ endimpl
// ---------------------------------------------------------------- what is stored
/// the best block, the index by height, the lowest height a reorganization may go back to, the blocks whose transactions are in the state (in order), and the blocks themselves
pub struct Rest { pub best: Option<Id<GenBlock>>, pub heights: Map<BlockHeight, Id<GenBlock>>, pub floor: Option<BlockHeight>, pub applied: Seq<Id<Block>>, pub data: Map<Id<Block>, Block> }
pub open spec fn look_h(m: Map<BlockHeight, Id<GenBlock>>, h: BlockHeight) -> Option<Id<GenBlock>> { if m.contains_key(h) { Some(m[h]) } else { None } }
pub open spec fn entry(m: Book, id: Id<Block>, x: Option<BlockIndex>) -> bool { match x { Some(i) => look(m, gen(id)) == Some(place(GenBlockIndex::Block(i))), None => look(m, gen(id)) is None || look(m, gen(id))->Some_0 is Genesis } }
pub trait BlockchainStorageRead : Indexed + Sized {
    spec fn rest(&self) -> Rest;
    fn get_best_block_id(&self) -> (r: core::result::Result<Option<Id<GenBlock>>, StorageError>) ensures r matches Ok(x) ==> x == self.rest().best;
    fn get_block_index(&self, id: &Id<Block>) -> (r: core::result::Result<Option<BlockIndex>, StorageError>) ensures r matches Ok(x) ==> entry(self.book(), *id, x);
    fn get_block_id_by_height(&self, h: BlockHeight) -> (r: core::result::Result<Option<Id<GenBlock>>, StorageError>) ensures r matches Ok(x) ==> x == look_h(self.rest().heights, h);
    fn get_min_height_with_allowed_reorg(&self) -> (r: core::result::Result<Option<BlockHeight>, StorageError>) ensures r matches Ok(x) ==> x == self.rest().floor;
    fn get_block(&self, id: &Id<Block>) -> (r: core::result::Result<Option<Block>, StorageError>) ensures r matches Ok(x) ==> (match x { Some(b) => b.the_id() == *id && self.rest().data.contains_key(*id), None => !self.rest().data.contains_key(*id) });
}
pub trait BlockchainStorageWrite : BlockchainStorageRead {
    fn set_best_block_id(&mut self, id: &Id<GenBlock>) -> (r: core::result::Result<(), StorageError>) ensures r is Ok ==> final(self).book() == old(self).book() && final(self).rest() == (Rest { best: Some(*id), ..old(self).rest() });
    fn set_block_id_at_height(&mut self, h: BlockHeight, id: &Id<GenBlock>) -> (r: core::result::Result<(), StorageError>) ensures r is Ok ==> final(self).book() == old(self).book() && final(self).rest() == (Rest { heights: old(self).rest().heights.insert(h, *id), ..old(self).rest() });
    fn del_block_id_at_height(&mut self, h: BlockHeight) -> (r: core::result::Result<(), StorageError>) ensures r is Ok ==> final(self).book() == old(self).book() && final(self).rest() == (Rest { heights: old(self).rest().heights.remove(h), ..old(self).rest() });
    fn set_block_index(&mut self, i: &BlockIndex) -> (r: core::result::Result<(), StorageError>) ensures r is Ok ==> final(self).book() == old(self).book().insert(gen(i.block_id), place(GenBlockIndex::Block(*i))) && final(self).rest() == old(self).rest();
    fn set_min_height_with_allowed_reorg(&mut self, h: BlockHeight) -> (r: core::result::Result<(), StorageError>) ensures r is Ok ==> final(self).book() == old(self).book() && final(self).rest() == (Rest { floor: Some(h), ..old(self).rest() });
}
//@ fn CT gen_block_index_getter
//@|    ensures rooted(db_tx.book(), *chain_config) ==> answers(db_tx.book(), *block_id, r)
//@ . proof start
//@|    proof { chain_config.first_is_genesis(); gens(*block_id); }
proof fn gens(id: Id<GenBlock>) ensures gen(VfId { x: id.x, t: core::marker::PhantomData }) == id { }
// ---------------------------------------------------------------- when what is stored is of one piece
/// the first block is known, and no other like it
pub open spec fn rooted(m: Book, c: ChainConfig) -> bool {
    &&& look(m, c.first().the_id()) == Some(c.first())
    &&& forall|id: Id<GenBlock>| (#[trigger] look(m, id)) matches Some(b) ==> (b is Genesis ==> id == c.first().the_id())
}
/// every known block's parent is known, and has no more trust
#[verifier::opaque]
pub open spec fn grown(m: Book) -> bool { forall|id: Id<GenBlock>| (#[trigger] look(m, id)) matches Some(b) ==> place(b) == b && rises(m, b) }
pub open spec fn rises(m: Book, b: GenBlockIndex) -> bool { b.before() matches Some(p) ==> (look(m, p) matches Some(q) && q.trust()@ <= b.trust()@ && q.txs() + usize::MAX >= b.txs()) }
pub open spec fn sound(m: Book, c: ChainConfig) -> bool { rooted(m, c) && linked(m) && grown(m) }
/// the index by height and the state are those of the chain that ends in this block
pub open spec fn tracks(m: Book, tip: GenBlockIndex, r: Rest) -> bool {
    &&& forall|h: BlockHeight| #[trigger] look_h(r.heights, h) == (if h.0 <= tip.at().0 { Some(back(m, tip, (tip.at().0 - h.0) as nat)->Some_0.the_id()) } else { None })
    &&& r.applied.len() == tip.at().0
    &&& forall|k: int| 0 <= k < r.applied.len() ==> look_h(r.heights, BlockHeight((k + 1) as u64)) == Some(gen(#[trigger] r.applied[k])) && r.data.contains_key(r.applied[k])
}
pub open spec fn tip(m: Book, r: Rest) -> GenBlockIndex { look(m, r.best->Some_0)->Some_0 }
pub open spec fn whole_of(m: Book, r: Rest, c: ChainConfig) -> bool { sound(m, c) && r.best is Some && look(m, r.best->Some_0) is Some && tracks(m, tip(m, r), r) }
pub open spec fn at_height(r: Rest, id: Id<GenBlock>, h: BlockHeight) -> bool { look_h(r.heights, h) == Some(id) }
pub open spec fn on_main(r: Rest, id: Id<GenBlock>) -> bool { exists|h: BlockHeight| at_height(r, id, h) }
// ---------------------------------------------------------------- lemmas
/// a known block's ancestors down to the first are known
proof fn reach(m: Book, c: ChainConfig, b: GenBlockIndex, n: nat)
    requires sound(m, c), look(m, b.the_id()) == Some(b), n <= b.at().0
    ensures good(m, b), back(m, b, n) matches Some(a) && a.at().0 == b.at().0 - n && look(m, a.the_id()) == Some(a) && good(m, a) && a.trust()@ <= b.trust()@ && (n == b.at().0 <==> a is Genesis)
    decreases n
{
    reveal(grown);
    if let GenBlockIndex::Block(i) = b { seat(m, i); }
    if n > 0 { let p = look(m, b.before()->Some_0)->Some_0; assert(p.the_id() == b.before()->Some_0); reach(m, c, p, (n - 1) as nat); }
}
/// a block is in one chain at one height only, its own
proof fn own_height(m: Book, c: ChainConfig, r: Rest, id: Id<GenBlock>, h: BlockHeight)
    requires whole_of(m, r, c), at_height(r, id, h)
    ensures h.0 <= tip(m, r).at().0, look(m, id) matches Some(b) && b.at() == h && b.trust()@ <= tip(m, r).trust()@ && (h.0 == 0 <==> b is Genesis) && back(m, tip(m, r), (tip(m, r).at().0 - h.0) as nat) == Some(b)
{ reach(m, c, tip(m, r), (tip(m, r).at().0 - h.0) as nat); }
/// two blocks at the same height: the first block, both, or neither; and one step back
proof fn both(m: Book, c: ChainConfig, a: GenBlockIndex, b: GenBlockIndex, x: GenBlockIndex, y: GenBlockIndex)
    requires sound(m, c), known(m, x), known(m, y), x.at() == y.at()
    ensures x is Genesis <==> y is Genesis, x is Genesis ==> x.the_id() == y.the_id(), x.the_id() == y.the_id() ==> place(x) == place(y),
        x matches GenBlockIndex::Block(i) ==> (look(m, i.prev()) matches Some(p) && back(m, place(x), 1) == Some(p) && p.at().0 == x.at().0 - 1 && p.the_id() == i.prev() && place(p) == p),
        y matches GenBlockIndex::Block(i) ==> (look(m, i.prev()) matches Some(p) && back(m, place(y), 1) == Some(p) && p.at().0 == y.at().0 - 1 && p.the_id() == i.prev() && place(p) == p)
{ reveal(grown); reveal(good); reveal_with_fuel(back, 2); assert(place(x).the_id() == x.the_id() && place(y).the_id() == y.the_id()); }
//@ struct CR ChainstateRef
// ---------------------------------------------------------------- one block more, one block less
pub open spec fn pop(m: Book, r: Rest) -> Rest { Rest { best: tip(m, r).before(), heights: r.heights.remove(tip(m, r).at()), applied: r.applied.drop_last(), ..r } }
pub open spec fn push(r: Rest, i: BlockIndex) -> Rest { Rest { best: Some(gen(i.block_id)), heights: r.heights.insert(i.height, gen(i.block_id)), applied: r.applied.push(i.block_id), ..r } }
proof fn popped(m: Book, c: ChainConfig, r: Rest)
    requires whole_of(m, r, c), tip(m, r) is Block
    ensures whole_of(m, pop(m, r), c), tip(m, r).at().0 >= 1, tip(m, pop(m, r)).at().0 == tip(m, r).at().0 - 1, r.applied.len() > 0, gen(r.applied.last()) == r.best->Some_0, r.data.contains_key(r.applied.last()), tip(m, r).the_id() == r.best->Some_0,
        back(m, tip(m, r), 1) == Some(tip(m, pop(m, r)))
{
    let (t, q) = (tip(m, r), pop(m, r));
    reach(m, c, t, 0); reach(m, c, t, 1); reveal_with_fuel(back, 2);
    let i = t->Block_0; seat(m, i);
    let p = look(m, i.prev())->Some_0;
    assert(look_h(r.heights, t.at()) == Some(t.the_id()));
    assert forall|h: BlockHeight| #[trigger] look_h(q.heights, h) == (if h.0 <= p.at().0 { Some(back(m, p, (p.at().0 - h.0) as nat)->Some_0.the_id()) } else { None }) by {
        assert(look_h(r.heights, h) == (if h.0 <= t.at().0 { Some(back(m, t, (t.at().0 - h.0) as nat)->Some_0.the_id()) } else { None }));
        if h.0 <= p.at().0 { further(m, t, 1, (p.at().0 - h.0) as nat, p); }
    }
    assert forall|k: int| 0 <= k < q.applied.len() implies look_h(q.heights, BlockHeight((k + 1) as u64)) == Some(gen(#[trigger] q.applied[k])) && q.data.contains_key(q.applied[k]) by { assert(q.applied[k] == r.applied[k]); }
    assert(r.applied[r.applied.len() - 1] == r.applied.last());
}
proof fn pushed(m: Book, c: ChainConfig, r: Rest, i: BlockIndex)
    requires whole_of(m, r, c), known(m, GenBlockIndex::Block(i)), r.best == Some(i.prev()), r.data.contains_key(i.block_id)
    ensures whole_of(m, push(r, i), c), tip(m, push(r, i)) == place(GenBlockIndex::Block(i)), i.height.0 == tip(m, r).at().0 + 1
{
    let (t, q, b) = (tip(m, r), push(r, i), place(GenBlockIndex::Block(i)));
    reach(m, c, b, 0); seat(m, bare(i)); reveal_with_fuel(back, 2);
    assert forall|h: BlockHeight| #[trigger] look_h(q.heights, h) == (if h.0 <= b.at().0 { Some(back(m, b, (b.at().0 - h.0) as nat)->Some_0.the_id()) } else { None }) by {
        assert(look_h(r.heights, h) == (if h.0 <= t.at().0 { Some(back(m, t, (t.at().0 - h.0) as nat)->Some_0.the_id()) } else { None }));
        if h.0 <= t.at().0 { further(m, b, 1, (t.at().0 - h.0) as nat, t); }
    }
    assert forall|k: int| 0 <= k < q.applied.len() implies look_h(q.heights, BlockHeight((k + 1) as u64)) == Some(gen(#[trigger] q.applied[k])) && q.data.contains_key(q.applied[k]) by { if k < r.applied.len() { assert(q.applied[k] == r.applied[k]); } }
}
/// a block one knows of, in the book
pub open spec fn known(m: Book, b: GenBlockIndex) -> bool { look(m, b.the_id()) == Some(place(b)) }
/// the last common ancestor of two blocks: the ancestor of both, and above it they have none in common
pub open spec fn lca(m: Book, a: GenBlockIndex, b: GenBlockIndex, x: GenBlockIndex) -> bool {
    &&& x.at().0 <= a.at().0 && x.at().0 <= b.at().0
    &&& back(m, a, (a.at().0 - x.at().0) as nat) == Some(x) && back(m, b, (b.at().0 - x.at().0) as nat) == Some(x)
    &&& forall|h: nat| x.at().0 < h <= a.at().0 && h <= b.at().0 ==> #[trigger] apart(m, a, b, h)
}
pub open spec fn apart(m: Book, a: GenBlockIndex, b: GenBlockIndex, h: nat) -> bool { back(m, a, (a.at().0 - h) as nat)->Some_0.the_id() != back(m, b, (b.at().0 - h) as nat)->Some_0.the_id() }
//@ impl CR impl<'a, S: BlockchainStorageRead, V: TransactionVerificationStrategy> ChainstateRef<'a, S, V>
    pub open spec fn book(&self) -> Book { self.db_tx.book() }
    pub open spec fn rest(&self) -> Rest { self.db_tx.rest() }
    pub open spec fn sound(&self) -> bool { sound(self.book(), *self.chain_config) }
    pub open spec fn fine(&self) -> bool { whole_of(self.book(), self.rest(), *self.chain_config) }
    pub open spec fn tip(&self) -> GenBlockIndex { tip(self.book(), self.rest()) }
//@ fn get_best_block_id
//@ . method expect => vf_expect
//@|    requires self.rest().best is Some
//@|    ensures r matches Ok(x) ==> self.rest().best == Some(x)
//@ fn get_block_index
//@|    ensures r matches Ok(x) ==> entry(self.book(), *block_id, x)
//@ fn get_existing_block_index
//@|    ensures r matches Ok(x) ==> entry(self.book(), *block_id, Some(x))
//@ fn get_gen_block_index
//@|    requires self.sound()
//@|    ensures r matches Ok(x) ==> placed(x) == look(self.book(), *block_id)
//@ fn get_existing_gen_block_index
//@|    requires self.sound()
//@|    ensures r matches Ok(x) ==> Some(place(x)) == look(self.book(), *block_id)
//@ fn get_best_block_index
//@|    requires self.fine()
//@|    ensures r matches Ok(x) ==> place(x) == self.tip() && Some(x.the_id()) == self.rest().best
//@ fn get_previous_block_index
//@|    requires self.sound()
//@|    ensures r matches Ok(x) ==> Some(place(x)) == look(self.book(), block_info.told().prev_block_id)
//@ fn get_block_id_by_height
//@|    ensures r matches Ok(x) ==> x == look_h(self.rest().heights, height)
//@ fn get_existing_block_id_by_height
//@|    ensures r matches Ok(x) ==> Some(x) == look_h(self.rest().heights, height)
//@ fn get_block_height_in_main_chain
//@|    requires self.fine()
//@|    ensures r matches Ok(x) ==> match x { Some(h) => at_height(self.rest(), *id, h), None => !on_main(self.rest(), *id) }
//@ . proof start
//@|    proof { reach(self.book(), *self.chain_config, self.tip(), self.tip().at().0 as nat); assert forall|h: BlockHeight| #[trigger] at_height(self.rest(), *id, h) implies look(self.book(), *id) matches Some(b) && b.at() == h by { own_height(self.book(), *self.chain_config, self.rest(), *id, h); } gens(*id); }
//@ fn is_block_in_main_chain
//@|    requires self.fine()
//@|    ensures r matches Ok(x) ==> x == on_main(self.rest(), *block_id)
//@ fn get_min_height_with_allowed_reorg
//@|    ensures r matches Ok(x) ==> x == (match self.rest().floor { Some(h) => h, None => BlockHeight(0) })
//@ fn get_ancestor
//@|    requires self.sound(), known(self.book(), *block_index)
//@|    ensures r matches Ok(x) ==> target_height.0 <= block_index.at().0 && x.at() == target_height && back(self.book(), place(*block_index), (block_index.at().0 - target_height.0) as nat) == Some(place(x))
//@ fn last_common_ancestor
//@|    requires self.sound(), known(self.book(), *first_block_index), known(self.book(), *second_block_index)
//@|    ensures r matches Ok(x) ==> lca(self.book(), place(*first_block_index), place(*second_block_index), place(x))
//@ . attr #[verifier::loop_isolation(false)]
//@ . loop 0
//@|    invariant self.sound(), look(m, a.the_id()) == Some(a), look(m, b.the_id()) == Some(b), m == self.book(), known(m, first_block_index), known(m, second_block_index), first_block_index.at() == second_block_index.at(), top == (if a.at().0 <= b.at().0 { a.at().0 } else { b.at().0 }),
//@|        first_block_index.at().0 <= top, back(m, a, (a.at().0 - first_block_index.at().0) as nat) == Some(place(first_block_index)), back(m, b, (b.at().0 - first_block_index.at().0) as nat) == Some(place(second_block_index)),
//@|        forall|h: nat| first_block_index.at().0 < h <= top ==> #[trigger] apart(m, a, b, h)
//@|    decreases first_block_index.at().0
//@ . proof start
//@|    let ghost (m, a, b) = (self.book(), place(*first_block_index), place(*second_block_index)); let ghost top = if a.at().0 <= b.at().0 { a.at().0 } else { b.at().0 };
//@|    proof { reach(m, *self.chain_config, a, (a.at().0 - top) as nat); reach(m, *self.chain_config, b, (b.at().0 - top) as nat); reveal_with_fuel(back, 1); }
//@ . proof loop 0 start
//@|    let ghost (x, y) = (first_block_index, second_block_index);
//@|    proof { both(m, *self.chain_config, a, b, x, y); }
//@ . proof loop 0 end
//@|    proof { further(m, a, (a.at().0 - x.at().0) as nat, 1, place(x)); further(m, b, (b.at().0 - x.at().0) as nat, 1, place(y)); both(m, *self.chain_config, a, b, first_block_index, second_block_index); }
//@ fn last_common_ancestor_in_main_chain
//@|    requires self.fine(), known(self.book(), *block_index)
//@|    ensures r matches Ok(x) ==> lca(self.book(), place(*block_index), self.tip(), place(x))
//@ endimpl
/// the blocks after the one where the chain that ends in `new` leaves the chain followed, up to `new`
#[verifier::opaque]
pub open spec fn branch(m: Book, r: Rest, new: GenBlockIndex, v: Seq<BlockIndex>) -> bool {
    &&& forall|j: int| 0 <= j < v.len() ==> #[trigger] sits(m, r, new, v[j], v.len() - 1 - j)
    &&& forall|j: int| 0 <= j < v.len() - 1 ==> #[trigger] follows(v, j + 1, j)
    &&& v.len() > 0 ==> on_main(r, v[0].prev()) && place(GenBlockIndex::Block(v.last())) == new
    &&& v.len() == 0 ==> on_main(r, new.the_id())
}
/// the same, from the top down as far as one has come
#[verifier::opaque]
pub open spec fn climbed(m: Book, r: Rest, n: GenBlockIndex, v: Seq<BlockIndex>) -> bool {
    &&& forall|j: int| 0 <= j < v.len() ==> #[trigger] sits(m, r, n, v[j], j)
    &&& forall|j: int| 0 <= j < v.len() - 1 ==> #[trigger] follows(v, j, j + 1)
}
/// the block at j is the child of the one at k
pub open spec fn follows(v: Seq<BlockIndex>, j: int, k: int) -> bool { v[j].prev() == gen(v[k].block_id) }
pub open spec fn sits(m: Book, r: Rest, n: GenBlockIndex, b: BlockIndex, k: int) -> bool { back(m, n, k as nat) == Some(place(GenBlockIndex::Block(b))) && known(m, GenBlockIndex::Block(b)) && !on_main(r, gen(b.block_id)) }
pub open spec fn next_is(m: Book, n: GenBlockIndex, v: Seq<BlockIndex>, b: BlockIndex) -> bool { known(m, GenBlockIndex::Block(b)) && back(m, n, v.len()) == Some(place(GenBlockIndex::Block(b))) && (v.len() > 0 ==> v.last().prev() == gen(b.block_id)) }
pub open spec fn joins(r: Rest, n: GenBlockIndex, v: Seq<BlockIndex>) -> bool { (v.len() > 0 ==> on_main(r, v.last().prev())) && (v.len() == 0 ==> on_main(r, n.the_id())) }
proof fn climb(m: Book, c: ChainConfig, r: Rest, n: GenBlockIndex, v: Seq<BlockIndex>, b: BlockIndex)
    requires sound(m, c), climbed(m, r, n, v), next_is(m, n, v, b), !on_main(r, gen(b.block_id))
    ensures climbed(m, r, n, v.push(b)), look(m, b.prev()) matches Some(p) && p.the_id() == b.prev() && place(p) == p && p.at().0 < b.height.0 && back(m, n, v.len() + 1) == Some(p) && (p is Genesis ==> b.prev() == c.first().the_id())
{
    reveal(climbed); both(m, c, GenBlockIndex::Block(b), GenBlockIndex::Block(b), GenBlockIndex::Block(b), GenBlockIndex::Block(b)); further(m, n, v.len(), 1, place(GenBlockIndex::Block(b)));
    let w = v.push(b);
    assert forall|j: int| 0 <= j < w.len() implies #[trigger] sits(m, r, n, w[j], j) by { if j < v.len() { assert(sits(m, r, n, v[j], j)); assert(w[j] == v[j]); } }
    assert forall|j: int| 0 <= j < w.len() - 1 implies #[trigger] follows(w, j, j + 1) by { assert(w[j] == v[j]); if j < v.len() - 1 { assert(follows(v, j, j + 1)); assert(w[j + 1] == v[j + 1]); } }
}
proof fn turned(m: Book, r: Rest, n: GenBlockIndex, v: Seq<BlockIndex>)
    requires climbed(m, r, n, v), joins(r, n, v), look(m, n.the_id()) == Some(n)
    ensures branch(m, r, n, v.reverse()), climbed(m, r, n, Seq::empty())
{
    reveal(climbed); reveal(branch); let w = v.reverse();
    assert forall|j: int| 0 <= j < w.len() implies #[trigger] sits(m, r, n, w[j], w.len() - 1 - j) by { let k = v.len() - 1 - j; assert(sits(m, r, n, v[k], k)); assert(w[j] == v[k]); }
    assert forall|j: int| 0 <= j < w.len() - 1 implies #[trigger] follows(w, j + 1, j) by { let k = v.len() - 2 - j; assert(follows(v, k, k + 1)); assert(w[j + 1] == v[k] && w[j] == v[k + 1]); }
    if v.len() > 0 { assert(w[0] == v.last()); assert(w.last() == v[0]); assert(sits(m, r, n, v[0], 0)); assert(back(m, n, 0) == Some(n)); }
}
proof fn genesis_is_on(m: Book, c: ChainConfig, r: Rest) requires whole_of(m, r, c) ensures at_height(r, c.first().the_id(), BlockHeight(0)), on_main(r, c.first().the_id()) { reach(m, c, tip(m, r), tip(m, r).at().0 as nat); assert(look_h(r.heights, BlockHeight(0)) == Some(c.first().the_id())); assert(at_height(r, c.first().the_id(), BlockHeight(0))); }
//@ impl CR impl<'a, S: BlockchainStorageRead, V: TransactionVerificationStrategy> ChainstateRef<'a, S, V>
//@ fn get_new_chain
//@ . method reverse => vf_reverse
//@|    requires self.fine(), known(self.book(), GenBlockIndex::Block(*new_tip_block_index))
//@|    ensures r matches Ok(v) ==> branch(self.book(), self.rest(), place(GenBlockIndex::Block(*new_tip_block_index)), v@)
//@ . loop 0
//@|    invariant_except_break next_is(m, n, result@, block_index)
//@|    invariant self.fine(), m == self.book(), n == place(GenBlockIndex::Block(*new_tip_block_index)), on_main(self.rest(), self.chain_config.first().the_id()), climbed(m, self.rest(), n, result@)
//@|    ensures joins(self.rest(), n, result@)
//@|    decreases block_index.height.0
//@ . proof start
//@|    let ghost (m, n) = (self.book(), place(GenBlockIndex::Block(*new_tip_block_index))); proof { genesis_is_on(m, *self.chain_config, self.rest()); reveal(climbed); }
//@ . proof loop 0 start
//@|    proof { climb(m, *self.chain_config, self.rest(), n, result@, block_index); }
//@ . proof loop 0 after
//@|    proof { turned(m, self.rest(), n, result@); }
//@ endimpl
/// what the i-th of a branch needs to be connected, once those before it have been
proof fn branch_at(m: Book, r: Rest, n: GenBlockIndex, v: Seq<BlockIndex>, j: int)
    requires branch(m, r, n, v), 0 <= j < v.len()
    ensures known(m, GenBlockIndex::Block(v[j])), j > 0 ==> v[j].prev() == gen(v[j - 1].block_id), on_main(r, v[0].prev()), place(GenBlockIndex::Block(v.last())) == n
{ reveal(branch); assert(sits(m, r, n, v[j], v.len() - 1 - j)); if j > 0 { assert(follows(v, (j - 1) + 1, j - 1)); } }
proof fn branch_some(m: Book, r: Rest, n: GenBlockIndex, v: Seq<BlockIndex>) requires branch(m, r, n, v), !on_main(r, n.the_id()) ensures v.len() > 0 { reveal(branch); }
/// what is on the chain is known, and has no more trust than its tip
proof fn on_is_less(m: Book, c: ChainConfig, r: Rest, id: Id<GenBlock>) requires whole_of(m, r, c), on_main(r, id) ensures look(m, id) matches Some(b) && b.trust()@ <= tip(m, r).trust()@ && b.at().0 <= tip(m, r).at().0 { let h = choose|h: BlockHeight| at_height(r, id, h); own_height(m, c, r, id, h); }
/// what is below the tip stays where it is when the tip goes; when the chain is its first block alone, there is nothing else on it
proof fn stays(m: Book, c: ChainConfig, r: Rest, id: Id<GenBlock>)
    requires whole_of(m, r, c), on_main(r, id), r.best != Some(id)
    ensures tip(m, r) is Block, on_main(pop(m, r), id)
{
    let h = choose|h: BlockHeight| at_height(r, id, h); own_height(m, c, r, id, h); let t = tip(m, r);
    reach(m, c, t, 0);
    if h == t.at() { assert(back(m, t, 0) == Some(t)); assert(false); }
    assert(at_height(pop(m, r), id, h));
}
proof fn tip_is_on(m: Book, c: ChainConfig, r: Rest) requires whole_of(m, r, c) ensures on_main(r, r.best->Some_0), tip(m, r).the_id() == r.best->Some_0 { let t = tip(m, r); assert(back(m, t, 0) == Some(t)); assert(at_height(r, r.best->Some_0, t.at())); }
//@ impl CR impl<'a, S: BlockchainStorageRead, V: TransactionVerificationStrategy> ChainstateRef<'a, S, V>
//@ fn get_block_from_index
//@|    ensures r matches Ok(x) ==> (match x { Some(b) => b.the_id() == block_index.block_id && self.rest().data.contains_key(b.the_id()), None => !self.rest().data.contains_key(block_index.block_id) })
//@ trusted check_block
//@ . opt signature
//@ endimpl
//@ impl CR impl<S: BlockchainStorageWrite, V: TransactionVerificationStrategy> ChainstateRef<'_, S, V>
//@ trusted connect_transactions
//@ . opt signature
//@|    requires old(self).rest().best == Some(block_index.prev()), block.id == block_index.block_id, block.object.the_id() == block.id
//@|    ensures final(self).chain_config == old(self).chain_config, r is Ok ==> final(self).book() == old(self).book() && final(self).rest() == (Rest { applied: old(self).rest().applied.push(block.id), ..old(self).rest() })
//@ trusted disconnect_transactions
//@ . opt signature
//@|    requires old(self).rest().applied.len() > 0, old(self).rest().applied.last() == block.id, block.object.the_id() == block.id
//@|    ensures final(self).chain_config == old(self).chain_config, r is Ok ==> final(self).book() == old(self).book() && final(self).rest() == (Rest { applied: old(self).rest().applied.drop_last(), ..old(self).rest() })
//@ trusted post_connect_tip
//@ . opt signature
//@|    ensures final(self).chain_config == old(self).chain_config, r is Ok ==> final(self).book() == old(self).book() && final(self).rest() == old(self).rest()
//@ trusted post_disconnect_tip
//@ . opt signature
//@|    ensures final(self).chain_config == old(self).chain_config, r is Ok ==> final(self).book() == old(self).book() && final(self).rest() == old(self).rest()
//@ fn set_block_index
//@|    ensures final(self).chain_config == old(self).chain_config, r is Ok ==> final(self).rest() == old(self).rest() && final(self).book() == old(self).book().insert(gen(block_index.block_id), place(GenBlockIndex::Block(*block_index)))
//@ fn connect_tip
//@|    requires old(self).fine(), known(old(self).book(), GenBlockIndex::Block(*block_index))
//@|    ensures final(self).chain_config == old(self).chain_config, r is Ok ==> final(self).book() == old(self).book() && final(self).rest() == push(old(self).rest(), *block_index) && final(self).fine() && old(self).rest().best == Some(block_index.prev()) && block_index.status.fine()
//@ . proof start
//@|    let ghost (m, r0) = (self.book(), self.rest());
//@ . proof end
//@|    proof { if vf_ret is Ok { pushed(m, *self.chain_config, r0, *block_index); assert(m.insert(gen(block_index.block_id), place(GenBlockIndex::Block(*block_index))) =~= m); } }
//@ fn disconnect_tip
//@ . method expect => vf_expect
//@|    requires old(self).fine(), old(self).tip() is Block, expected_tip_block_id matches Some(e) ==> old(self).rest().best == Some(gen(*e))
//@|    ensures final(self).chain_config == old(self).chain_config, r matches Ok(x) ==> final(self).book() == old(self).book() && final(self).rest() == pop(old(self).book(), old(self).rest()) && final(self).fine() && place(x) == final(self).tip() && final(self).rest().best == Some(x.the_id())
//@ . proof start
//@|    proof { let c = *self.chain_config; popped(self.book(), c, self.rest()); c.first_is_genesis(); gens(self.rest().best->Some_0); }
//@ fn disconnect_until
//@|    requires old(self).fine(), old(self).rest().best == Some(gen(*cur_tip_block_id)), on_main(old(self).rest(), *last_to_remain_connected)
//@|    ensures final(self).chain_config == old(self).chain_config, r is Ok ==> final(self).book() == old(self).book() && final(self).fine() && final(self).rest().best == Some(*last_to_remain_connected)
//@ . loop 0
//@|    invariant self.fine(), self.chain_config == old(self).chain_config, self.book() == old(self).book(), self.rest().best == Some(block_id_to_disconnect), on_main(self.rest(), *last_to_remain_connected)
//@|    decreases self.tip().at().0
//@ . proof loop 0 start
//@|    proof { stays(self.book(), *self.chain_config, self.rest(), *last_to_remain_connected); popped(self.book(), *self.chain_config, self.rest()); self.chain_config.first_is_genesis(); gens(block_id_to_disconnect); }
//@ fn reorganize
//@ . opt fornext
//@ . method expect => vf_expect
//@|    requires old(self).fine(), old(self).rest().best == Some(*best_block_id), known(old(self).book(), GenBlockIndex::Block(*new_block_index)), !on_main(old(self).rest(), gen(new_block_index.block_id))
//@|    ensures final(self).chain_config == old(self).chain_config, r is Ok ==> final(self).book() == old(self).book() && final(self).fine() && final(self).rest().best == Some(gen(new_block_index.block_id))
//@ . loop 0
//@|    invariant self.chain_config == old(self).chain_config, self.book() == m, self.fine(), branch(m, r0, n, path), n == place(GenBlockIndex::Block(*new_block_index)), path.len() > 0,
//@|        0 <= done <= path.len(), vf_it0.rest() == path.subrange(done, path.len() as int), done > 0 ==> self.rest().best == Some(gen(path[done - 1].block_id))
//@|    ensures done == path.len()
//@|    decreases path.len() - done
//@ . proof after let new_chain
//@|    let ghost (m, r0, n, path) = (self.book(), self.rest(), place(GenBlockIndex::Block(*new_block_index)), new_chain@); let ghost mut done = 0int;
//@|    proof { branch_some(m, r0, n, path); branch_at(m, r0, n, path, 0); branch_at(m, r0, n, path, path.len() - 1); }
//@ . proof loop 0 start
//@|    proof { if vf_it0.rest().len() > 0 { branch_at(m, r0, n, path, done); done = done + 1; } }
//@ fn activate_best_chain
//@|    requires old(self).fine(), known(old(self).book(), GenBlockIndex::Block(*new_block_index))
//@|    ensures final(self).chain_config == old(self).chain_config, r matches Ok(b) ==> b == (new_block_index.chain_trust.num()@ > old(self).tip().trust()@) && final(self).book() == old(self).book() && final(self).fine() && (if b { final(self).rest().best == Some(gen(new_block_index.block_id)) } else { final(self).rest() == old(self).rest() })
//@ . proof start
//@|    let ghost id = gen(new_block_index.block_id); proof { tip_is_on(self.book(), *self.chain_config, self.rest()); if on_main(self.rest(), id) { on_is_less(self.book(), *self.chain_config, self.rest(), id); } }
//@ endimpl
// ---------------------------------------------------------------- one block more in the book
/// what is found from a block of the book is found when there are more
proof fn grows(m: Book, c: ChainConfig, b: GenBlockIndex, n: nat, id: Id<GenBlock>, x: GenBlockIndex)
    requires look(m, id) is None, back(m, b, n) is Some
    ensures back(m.insert(id, x), b, n) == back(m, b, n)
    decreases n
{ if n > 0 { let p = look(m, b.before()->Some_0)->Some_0; assert(b.before()->Some_0 != id); assert(look(m.insert(id, x), b.before()->Some_0) == Some(p)); grows(m, c, p, (n - 1) as nat, id, x); } }
/// a block whose index is right takes its place in the book, and all that was right remains so
proof fn extended(m: Book, c: ChainConfig, r: Rest, i: BlockIndex)
    requires whole_of(m, r, c), look(m, gen(i.block_id)) is None, good(m, place(GenBlockIndex::Block(i))), look(m, i.prev()) matches Some(p) && p.trust()@ <= i.chain_trust.num()@ && p.txs() + usize::MAX >= i.chain_transaction_count
    ensures whole_of(m.insert(gen(i.block_id), place(GenBlockIndex::Block(i))), r, c), known(m.insert(gen(i.block_id), place(GenBlockIndex::Block(i))), GenBlockIndex::Block(i))
{
    let (id, b) = (gen(i.block_id), place(GenBlockIndex::Block(i))); let w = m.insert(id, b);
    assert forall|k: Id<GenBlock>| k != id implies #[trigger] look(w, k) == look(m, k) by { }
    assert(look(w, id) == Some(b));
    assert(linked(w)) by {
        reveal(good);
        assert forall|k: Id<GenBlock>| (#[trigger] look(w, k)) is Some implies look(w, k)->Some_0.the_id() == k && good(w, look(w, k)->Some_0) by {
            let x = look(w, k)->Some_0;
            if k == id { let j = bare(i); grows(m, c, b, (j.height.0 - skip(j.height.0)) as nat, id, b); }
            else { assert(look(m, k) == Some(x)); if let GenBlockIndex::Block(j) = x { seat(m, j); parents(m, k); grows(m, c, x, (j.height.0 - skip(j.height.0)) as nat, id, b); } }
        }
    }
    assert(grown(w)) by {
        reveal(grown);
        assert forall|k: Id<GenBlock>| (#[trigger] look(w, k)) is Some implies place(look(w, k)->Some_0) == look(w, k)->Some_0 && rises(w, look(w, k)->Some_0) by {
            let x = look(w, k)->Some_0; if k != id { assert(look(m, k) == Some(x)); if x.before() is Some { assert(look(m, x.before()->Some_0) is Some); } } else { assert(look(m, i.prev()) is Some); }
        }
    }
    let t = tip(m, r); assert(tip(w, r) == t);
    assert forall|h: BlockHeight| #[trigger] look_h(r.heights, h) == (if h.0 <= t.at().0 { Some(back(w, t, (t.at().0 - h.0) as nat)->Some_0.the_id()) } else { None }) by { if h.0 <= t.at().0 { reach(m, c, t, (t.at().0 - h.0) as nat); grows(m, c, t, (t.at().0 - h.0) as nat, id, b); } }
}
/// a block above a known one, with the short cut for its height, is in its right place
proof fn seated(m: Book, c: ChainConfig, p: GenBlockIndex, i: BlockIndex)
    requires sound(m, c), look(m, i.prev()) == Some(p), i.height.0 == p.at().0 + 1
    ensures skip(i.height.0) <= p.at().0, back(m, p, (p.at().0 - skip(i.height.0)) as nat) matches Some(a) && (i.some_ancestor == a.the_id() ==> good(m, place(GenBlockIndex::Block(i))))
{
    reveal(good); skips(i.height.0); assert(p.the_id() == i.prev()); reach(m, c, p, (p.at().0 - skip(i.height.0)) as nat);
    let b = place(GenBlockIndex::Block(i)); assert(back(m, b, (i.height.0 - skip(i.height.0)) as nat) == back(m, p, (p.at().0 - skip(i.height.0)) as nat));
}
proof fn parents(m: Book, k: Id<GenBlock>) requires grown(m), look(m, k) is Some ensures look(m, k)->Some_0.before() matches Some(p) ==> look(m, p) is Some, place(look(m, k)->Some_0) == look(m, k)->Some_0 { reveal(grown); }
//@ fn CR calc_min_height_with_allowed_reorg
//@|    ensures r == floor_for(*chain_config, current_tip_height)
pub open spec fn floor_for(c: ChainConfig, tip: BlockHeight) -> BlockHeight { match height(tip.0 - c.depth().0) { Some(h) => if tip.0 <= i64::MAX && tip.0 - c.depth().0 <= i64::MAX { h } else { BlockHeight(0) }, None => BlockHeight(0) } }
//@ impl CR impl<'a, S: BlockchainStorageRead, V: TransactionVerificationStrategy> ChainstateRef<'a, S, V>
//@ trusted get_block_proof
//@ . opt signature
//@|    ensures r matches Ok(x) ==> x == effort(*block, prev_block_timestamp)
//@ fn create_block_index_for_new_block
//@ . argtype block &Block
//@ . method expect => vf_hope
//@ . replace panic ! =>> vf_die !
//@|    requires self.sound(), look(self.book(), block.head().block_header.prev_block_id) matches Some(p) ==> p.at().0 < u64::MAX && p.txs() + block.count() <= u128::MAX
//@|    ensures r matches Ok(i) ==> look(self.book(), block.head().block_header.prev_block_id) matches Some(p) && i.block_id == block.the_id() && i.block_header == block.head() && i.height.0 == p.at().0 + 1 && i.chain_trust.num()@ == p.trust()@ + effort(*block, p.made())@
//@|        && i.chain_transaction_count == p.txs() + block.count() && i.chain_time_max.timestamp == (if p.latest().timestamp >= block.head().block_header.timestamp.timestamp { p.latest().timestamp } else { block.head().block_header.timestamp.timestamp }) && i.status == block_status && !i.is_persisted
//@|        && good(self.book(), place(GenBlockIndex::Block(i)))
//@ . proof end
//@|    proof { if vf_ret is Ok { let i = vf_ret->Ok_0; let (m, c, p) = (self.book(), *self.chain_config, look(self.book(), block.head().block_header.prev_block_id)->Some_0); seated(m, c, p, i); sums(p.trust(), effort(*block, p.made())); Uint256::there_and_back(vf_sum(p.trust(), effort(*block, p.made()))->Some_0); } }
//@ fn check_block_height_vs_max_reorg_depth
//@|    requires self.fine(), known_parent(self.book(), header.block_header)
//@|    ensures r is Ok ==> exists|x: GenBlockIndex| #[trigger] lca(self.book(), look(self.book(), header.block_header.prev_block_id)->Some_0, self.tip(), x) && floor_of(self.rest()).0 <= x.at().0
//@ endimpl
pub open spec fn floor_of(r: Rest) -> BlockHeight { match r.floor { Some(h) => h, None => BlockHeight(0) } }
pub open spec fn known_parent(m: Book, h: BlockHeader) -> bool { look(m, h.prev_block_id) is Some }
//@ impl CR impl<S: BlockchainStorageWrite, V: TransactionVerificationStrategy> ChainstateRef<'_, S, V>
//@ fn set_new_block_index
//@|    ensures final(self).chain_config == old(self).chain_config, r is Ok ==> look(old(self).book(), gen(block_index.block_id)) is None || look(old(self).book(), gen(block_index.block_id))->Some_0 is Genesis,
//@|        r is Ok ==> final(self).rest() == old(self).rest() && final(self).book() == old(self).book().insert(gen(block_index.block_id), place(GenBlockIndex::Block(*block_index)))
//@ fn update_min_height_with_allowed_reorg
//@|    requires old(self).fine()
//@|    ensures final(self).chain_config == old(self).chain_config, r is Ok ==> final(self).book() == old(self).book() && final(self).rest() == (Rest { floor: final(self).rest().floor, ..old(self).rest() })
//@|        && final(self).rest().floor == Some(if floor_for(*old(self).chain_config, old(self).tip().at()).0 >= floor_of(old(self).rest()).0 { floor_for(*old(self).chain_config, old(self).tip().at()) } else { floor_of(old(self).rest()) })
//@ endimpl
// ---------------------------------------------------------------- what a block must satisfy because of where it is
/// the chain that ends in a block has, at every height it and a checkpoint share, the checkpoint's block (only the last one below is looked up: those before it were when it was accepted)
pub open spec fn passes(m: Book, points: Map<BlockHeight, Id<GenBlock>>, prev: GenBlockIndex, id: Id<GenBlock>) -> bool {
    let h = BlockHeight((prev.at().0 + 1) as u64);
    match look_h(points, h) { Some(x) => id == x, None => exists|k: BlockHeight| #[trigger] last_below(points, h, k) && k.0 <= prev.at().0 && look_h(points, k) == Some(back(m, prev, (prev.at().0 - k.0) as nat)->Some_0.the_id()) }
}
impl BlockStatus { #[verifier::external_body] pub fn new_fully_checked() -> (r: BlockStatus) ensures r.fine(), r.stage() == BlockValidationStage::FullyChecked { unimplemented!() } }
//@ inherent KG impl<'a> GenBlockIndexRef<'a>
//@ fn status
//@|    ensures match whole(*self) { GenBlockIndex::Block(i) => r == i.status, GenBlockIndex::Genesis(_) => r.fine() && r.stage() == BlockValidationStage::FullyChecked }
//@ endimpl
//@ impl KG impl GenBlockIndex
//@ fn status
//@|    ensures match *self { GenBlockIndex::Block(i) => r == i.status, GenBlockIndex::Genesis(_) => r.fine() && r.stage() == BlockValidationStage::FullyChecked }
//@ endimpl
//@ impl CR impl<'a, S: BlockchainStorageRead, V: TransactionVerificationStrategy> ChainstateRef<'a, S, V>
//@ fn enforce_checkpoint_impl
//@|    ensures r is Ok == (*given == *expected || self.chainstate_config.lenient())
//@ fn enforce_exact_checkpoint_assuming_height
//@|    ensures r matches Ok(b) ==> b == look_h(self.chain_config.points().map(), header_height) is Some && (b ==> look_h(self.chain_config.points().map(), header_height) == Some(gen(header.the_id())) || self.chainstate_config.lenient())
//@ fn enforce_checkpoints
//@|    requires self.sound(), look(self.book(), header.block_header.prev_block_id) matches Some(p) ==> p.at().0 < u64::MAX
//@|    ensures r is Ok ==> (look(self.book(), header.block_header.prev_block_id) matches Some(p) && (self.chainstate_config.lenient() || passes(self.book(), self.chain_config.points().map(), p, gen(header.the_id()))))
//@ fn check_block_parent
//@|    requires self.sound()
//@|    ensures r matches Ok(x) ==> Some(place(x)) == look(self.book(), block_header.block_header.prev_block_id) && (x matches GenBlockIndex::Block(i) ==> i.status.fine())
//@ fn skip_check_block_because_block_exists_and_is_checked
//@|    ensures r matches Ok(b) ==> b ==> look(self.book(), gen(*block_id)) is Some
//@ endimpl
} // verus!
fn main() {}
