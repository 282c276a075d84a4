// The set of unspent outputs: what a cache over it shows, what connecting and disconnecting do to it, and that writing a cache into what lies under it changes nothing that is seen.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
//@ source UC utxo/src/cache.rs
//@ source UE utxo/src/utxo_entry.rs
//@ source UU utxo/src/undo.rs
//@ source UX utxo/src/utxo.rs
//@ source UR utxo/src/error.rs
//@ source UV utxo/src/view.rs
//@ source UM utxo/src/storage/mod.rs
//@ source UW utxo/src/storage/rw_impls.rs
//@ source UI utxo/src/storage/view_impls.rs
//@ source UO common/src/chain/transaction/utxo_outpoint.rs
//@ source UB common/src/chain/block/block_reward.rs
verus! {
pub struct Amount { pub atoms: u128 }
#[verifier::external_body]
pub struct OutputTimeLock { d: u64 }
#[verifier::external_body]
pub struct StandardInputSignature { d: u64 }
#[derive(Clone, Copy)]
pub struct BlockHeight(pub u64);
impl BlockHeight { pub fn new(h: u64) -> (r: Self) ensures r == BlockHeight(h) { BlockHeight(h) } }
#[verifier::external_body]
pub struct Transaction { d: u64 }
#[verifier::external_body]
pub struct GenBlock { d: u64 }
#[verifier::external_body]
pub struct Block { d: u64 }
#[verifier::external_body]
pub struct Genesis { d: u64 }
fn vf_assert(b: bool) requires b { }
//@ include lists.vrs
//@ include ids.vrs
impl vstd::std_specs::convert::FromSpecImpl<Id<Block>> for Id<GenBlock> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Id<Block>) -> Id<GenBlock> { VfId { x: x.x, t: core::marker::PhantomData } } }
impl core::convert::From<Id<Block>> for Id<GenBlock> { fn from(x: Id<Block>) -> (r: Self) { VfId { x: x.x, t: core::marker::PhantomData } } }
impl vstd::std_specs::convert::FromSpecImpl<Id<Genesis>> for Id<GenBlock> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Id<Genesis>) -> Id<GenBlock> { VfId { x: x.x, t: core::marker::PhantomData } } }
impl core::convert::From<Id<Genesis>> for Id<GenBlock> { fn from(x: Id<Genesis>) -> (r: Self) { VfId { x: x.x, t: core::marker::PhantomData } } }
//@ without outpoint.vrs
//@ enum UO OutPointSourceId
impl Clone for OutPointSourceId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Id<Transaction>> for OutPointSourceId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Id<Transaction>) -> Self { OutPointSourceId::Transaction(x) } }
//@ impl UO impl From<Id<Transaction>> for OutPointSourceId
//@ fn from
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<Id<GenBlock>> for OutPointSourceId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Id<GenBlock>) -> Self { OutPointSourceId::BlockReward(x) } }
//@ impl UO impl From<Id<GenBlock>> for OutPointSourceId
//@ fn from
//@ endimpl
//@ struct UO UtxoOutPoint
impl Clone for UtxoOutPoint { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ impl UO impl UtxoOutPoint
//@ fn new
//@|    ensures r.id == outpoint_source_id, r.index == output_index
//@ fn source_id
//@|    ensures r == self.id
//@ fn output_index
//@|    ensures r == self.index
//@ endimpl
//@ include txtypes.vrs
impl Clone for TxOutput { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Transaction {
    pub uninterp spec fn the_id(&self) -> Id<Transaction>;
    pub uninterp spec fn ins(&self) -> Seq<TxInput>;
    pub uninterp spec fn outs(&self) -> Seq<TxOutput>;
    #[verifier::external_body] pub fn get_id(&self) -> (r: Id<Transaction>) ensures r == self.the_id() { unimplemented!() }
    #[verifier::external_body] pub fn inputs(&self) -> (r: &[TxInput]) ensures r@ == self.ins() { unimplemented!() }
    #[verifier::external_body] pub fn outputs(&self) -> (r: &[TxOutput]) ensures r@ == self.outs() { unimplemented!() }
}
#[verifier::external_body]
pub struct BlockReward { d: u64 }
impl BlockReward {
    pub uninterp spec fn outs(&self) -> Seq<TxOutput>;
    #[verifier::external_body] pub fn outputs(&self) -> (r: &[TxOutput]) ensures r@ == self.outs() { unimplemented!() }
}
//@ struct UB BlockRewardTransactable
//@ inherent UB impl Signable for BlockRewardTransactable<'_>
//@ fn inputs
//@|    ensures r == self.inputs
//@ fn outputs
//@|    ensures r == self.outputs
//@ endimpl
// ---------------------------------------------------------------- std
pub trait VfCloned<T>: Sized { spec fn meant(&self) -> Option<T>; fn vf_cloned(self) -> (r: Option<T>) ensures r == self.meant(); }
impl<'a> VfCloned<Utxo> for Option<&'a Utxo> { open spec fn meant(&self) -> Option<Utxo> { match self { Some(x) => Some(**x), None => None } } fn vf_cloned(self) -> (r: Option<Utxo>) { match self { Some(x) => Some(x.clone()), None => None } } }
pub trait VfIntoIter<T> : Sized { fn vf_iter(self) -> (r: ListIter<T>) ensures r.rest() == self.all(); spec fn all(&self) -> Seq<T>; }
impl<T> VfIntoIter<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_iter(self) -> (r: ListIter<T>) { unimplemented!() } }
pub trait VfVec<T>: Sized { fn vf_vec(self) -> Vec<T>; }
impl<T> VfVec<T> for Vec<T> { fn vf_vec(self) -> (r: Vec<T>) ensures r == self { self } }
impl<'a, T> SliceIter<'a, T> {
    #[verifier::external_body]
    pub fn vf_enumerate(self) -> (r: ListIter<(usize, &'a T)>) ensures r.rest().len() == self.rest().len(), forall|i: int| 0 <= i < self.rest().len() ==> #[trigger] r.rest()[i] == (i as usize, &self.rest()[i]), self.rest().len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_zip<U>(self, o: Vec<U>) -> (r: ListIter<(&'a T, U)>) ensures r.rest().len() == (if self.rest().len() < o@.len() { self.rest().len() } else { o@.len() }), forall|i: int| 0 <= i < r.rest().len() ==> #[trigger] r.rest()[i] == (&self.rest()[i], o@[i]) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<(K, V)> }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn map(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(x) => self.map().contains_key(*k) && *x == self.map()[*k], None => !self.map().contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.map().contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self).map() == old(self).map().remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_iter(self) -> (r: MapIter<K, V>) ensures r.rest() == self.map() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapIter<K, V> { k: Vec<(K, V)> }
impl<K, V> MapIter<K, V> {
    pub uninterp spec fn rest(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<(K, V)>)
        ensures match r { Some(x) => old(self).rest().contains_key(x.0) && x.1 == old(self).rest()[x.0] && final(self).rest() == old(self).rest().remove(x.0) && old(self).rest().dom().len() > 0, None => old(self).rest() == Map::<K, V>::empty() && final(self).rest() == old(self).rest() } { unimplemented!() }
}
// ---------------------------------------------------------------- one entry of a cache
//@ enum UR Error
//@ enum UX UtxoSource
impl Clone for UtxoSource { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ impl UX impl UtxoSource
//@ fn is_mempool
//@|    ensures r == (*self is Mempool)
//@ fn blockchain_height
//@|    ensures match *self { UtxoSource::Blockchain(h) => r == Ok::<BlockHeight, Error>(h), UtxoSource::Mempool => r == Err::<BlockHeight, Error>(Error::NoBlockchainHeightFound) }
//@ endimpl
//@ struct UX Utxo
impl Clone for Utxo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ impl UX impl Utxo
//@ fn new
//@|    ensures r.output == output, r.source == source
//@ fn new_for_blockchain
//@|    ensures r.output == output, r.source == UtxoSource::Blockchain(height)
//@ fn new_for_mempool
//@|    ensures r.output == output, r.source == UtxoSource::Mempool
//@ fn source
//@|    ensures *r == self.source
//@ fn output
//@|    ensures *r == self.output
//@ fn take_output
//@|    ensures r == self.output
//@ fn set_height
//@|    ensures final(self).output == old(self).output, final(self).source == value
//@ endimpl
//@ enum UE UtxoStatus
impl PartialEqSpecImpl for UtxoStatus { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &UtxoStatus) -> bool { *self == *o } }
impl PartialEq for UtxoStatus { #[verifier::external_body] fn eq(&self, o: &UtxoStatus) -> (r: bool) { unimplemented!() } }
//@ enum UE IsFresh
//@ enum UE IsDirty
impl vstd::std_specs::convert::FromSpecImpl<bool> for IsFresh { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: bool) -> IsFresh { if v { IsFresh::Yes } else { IsFresh::No } } }
//@ impl UE impl From<bool> for IsFresh
//@ fn from
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<bool> for IsDirty { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: bool) -> IsDirty { if v { IsDirty::Yes } else { IsDirty::No } } }
//@ impl UE impl From<bool> for IsDirty
//@ fn from
//@ endimpl
//@ struct UE UtxoEntry
impl Clone for UtxoEntry { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn held(e: UtxoEntry) -> Option<Utxo> { match e.status { UtxoStatus::Entry(u) => Some(u), UtxoStatus::Spent => None } }
pub open spec fn fresh(e: UtxoEntry) -> bool { e.is_fresh is Yes }
pub open spec fn dirty(e: UtxoEntry) -> bool { e.is_dirty is Yes }
/// of the combinations of the marks, those that mean something
pub open spec fn valid(e: UtxoEntry) -> bool { match held(e) { Some(_) => fresh(e) ==> dirty(e), None => fresh(e) != dirty(e) } }
//@ impl UE impl UtxoEntry
//@ fn new
//@|    requires match utxo { Some(_) => is_fresh is Yes ==> is_dirty is Yes, None => (is_fresh is Yes) != (is_dirty is Yes) },
//@|    ensures held(r) == utxo, r.is_fresh == is_fresh, r.is_dirty == is_dirty, valid(r)
//@ . opt refpats
//@ fn is_dirty
//@|    ensures r == dirty(*self)
//@ fn is_fresh
//@|    ensures r == fresh(*self)
//@ fn is_spent
//@|    ensures r == (held(*self) is None)
//@ fn utxo
//@|    ensures match r { Some(u) => held(*self) == Some(*u), None => held(*self) is None }
//@ fn take_utxo
//@|    ensures r == held(self)
//@ endimpl
/// what a cache shows where what lies under it shows `below`
pub open spec fn look(m: Map<UtxoOutPoint, UtxoEntry>, o: UtxoOutPoint, below: Option<Utxo>) -> Option<Utxo> { if m.contains_key(o) { held(m[o]) } else { below } }
/// an entry's marks tell the truth about what lies under it
pub open spec fn over(m: Map<UtxoOutPoint, UtxoEntry>, o: UtxoOutPoint, below: Option<Utxo>) -> bool { m.contains_key(o) ==> valid(m[o]) && (fresh(m[o]) ==> below is None) && (!dirty(m[o]) ==> held(m[o]) == below) }
/// what is seen of m0 (over whatever lies under it) with the changes c is what is seen of m1
pub open spec fn merged(m0: Map<UtxoOutPoint, UtxoEntry>, c: Map<UtxoOutPoint, UtxoEntry>, m1: Map<UtxoOutPoint, UtxoEntry>, o: UtxoOutPoint, below: Option<Utxo>) -> bool {
    over(m0, o, below) && over(c, o, look(m0, o, below)) ==> look(m1, o, below) == look(c, o, look(m0, o, below)) && over(m1, o, below)
}
/// the changes are such that they can be written into m
pub open spec fn joins(c: Map<UtxoOutPoint, UtxoEntry>, m: Map<UtxoOutPoint, UtxoEntry>) -> bool {
    forall|o: UtxoOutPoint| #[trigger] c.contains_key(o) ==> valid(c[o]) && (dirty(c[o]) && fresh(c[o]) && m.contains_key(o) ==> held(m[o]) is None)
}
// ---------------------------------------------------------------- what is kept to undo
//@ struct UU UtxosBlockRewardUndo
//@ impl UU impl UtxosBlockRewardUndo
//@ fn new
//@|    ensures r.0 == utxos
//@ fn inner
//@|    ensures r@ == self.0@
//@ fn into_inner
//@|    ensures r == self.0
//@ endimpl
//@ struct UU UtxosTxUndo
//@ impl UU impl UtxosTxUndo
//@ fn new
//@|    ensures r.0 == utxos
//@ fn inner
//@|    ensures r@ == self.0@
//@ fn into_inner
//@|    ensures r == self.0
//@ endimpl
//@ struct UU UtxosTxUndoWithSources
//@ impl UU impl UtxosTxUndoWithSources
//@ fn new
//@|    ensures r.utxos.0 == utxos, r.sources == sources
//@ fn utxos
//@|    ensures r@ == self.utxos.0@
//@ fn consume
//@|    ensures r.0 == self.utxos, r.1 == self.sources
//@ endimpl
// ---------------------------------------------------------------- views
pub trait UtxosView : Sized {
    type Error;
    spec fn at(&self, o: UtxoOutPoint) -> Option<Utxo>;
    spec fn best(&self) -> Id<GenBlock>;
    fn utxo(&self, outpoint: &UtxoOutPoint) -> (r: Result<Option<Utxo>, Self::Error>) ensures r matches Ok(u) ==> u == self.at(*outpoint);
    fn has_utxo(&self, outpoint: &UtxoOutPoint) -> (r: Result<bool, Self::Error>) ensures r matches Ok(b) ==> b == (self.at(*outpoint) is Some);
    fn best_block_hash(&self) -> (r: Result<Id<GenBlock>, Self::Error>) ensures r matches Ok(b) ==> b == self.best();
    fn estimated_size(&self) -> Option<usize>;
}
pub trait FlushableUtxoView : Sized {
    type Error;
    spec fn takes(&self, c: ConsumedUtxoCache) -> bool;
    spec fn wrote(&self, c: ConsumedUtxoCache, after: &Self) -> bool;
    fn batch_write(&mut self, utxos: ConsumedUtxoCache) -> (r: Result<(), Self::Error>) requires old(self).takes(utxos) ensures r is Ok ==> old(self).wrote(utxos, final(self));
}
//@ struct UC ConsumedUtxoCache
//@ struct UC UtxosCache
//@ fn UV flush_to_base
//@|    requires old(base).takes(ConsumedUtxoCache { container: cache.utxos, best_block: cache.current_block_hash })
//@|    ensures r is Ok ==> old(base).wrote(ConsumedUtxoCache { container: cache.utxos, best_block: cache.current_block_hash }, final(base))
/// the outputs that may be spent later
pub open spec fn in_set(o: TxOutput) -> bool { o is Transfer || o is LockThenTransfer || o is CreateStakePool || o is ProduceBlockFromStake || o is IssueNft || o is Htlc }
//@ fn UC should_include_in_utxo_set
//@|    ensures r == in_set(*output)
/// the outpoint of one of the first n outputs that belong in the set
pub open spec fn made(outs: Seq<TxOutput>, id: OutPointSourceId, n: int, o: UtxoOutPoint) -> bool { o.id == id && o.index < n && in_set(outs[o.index as int]) }
/// one of the first n inputs is the output at o
pub open spec fn used(ins: Seq<TxInput>, n: int, o: UtxoOutPoint) -> bool { exists|i: int| 0 <= i < n && is_at(ins[i], o) }
pub open spec fn is_at(i: TxInput, o: UtxoOutPoint) -> bool { i == TxInput::Utxo(o) }
pub open spec fn restored(ins: Seq<TxInput>, undo: Seq<Option<Utxo>>, n: int, o: UtxoOutPoint) -> bool { exists|i: int| 0 <= i < n && is_at(ins[i], o) && (#[trigger] undo[i]) is Some }
/// what connecting makes of what is at o
pub open spec fn connected(ins: Seq<TxInput>, outs: Seq<TxOutput>, id: OutPointSourceId, source: UtxoSource, o: UtxoOutPoint, was: Option<Utxo>) -> Option<Utxo> {
    if made(outs, id, outs.len() as int, o) { Some(Utxo { output: outs[o.index as int], source }) } else if used(ins, ins.len() as int, o) { None } else { was }
}
/// the transactions and blocks whose outputs the first n inputs are
pub open spec fn sources(ins: Seq<TxInput>, n: nat) -> Seq<OutPointSourceId> decreases n {
    if n == 0 { Seq::empty() } else { match ins[n - 1] { TxInput::Utxo(o) => sources(ins, (n - 1) as nat).push(o.id), _ => sources(ins, (n - 1) as nat) } }
}
/// what the inputs take: each of the outputs they name, once, and nothing for an account
pub open spec fn taken(ins: Seq<TxInput>, was: spec_fn(UtxoOutPoint) -> Option<Utxo>, undo: Seq<Option<Utxo>>) -> bool {
    undo.len() == ins.len() && forall|i: int| 0 <= i < ins.len() ==> (match ins[i] { TxInput::Utxo(o) => (#[trigger] undo[i]) is Some && undo[i] == was(o) && !used(ins, i, o), _ => undo[i] is None })
}
/// no output is restored twice
pub open spec fn once(ins: Seq<TxInput>, undo: Seq<Option<Utxo>>) -> bool { forall|i: int, j: int| #![trigger undo[i], undo[j]] 0 <= i < j < ins.len() && undo[i] is Some && undo[j] is Some ==> ins[i] != ins[j] }
/// what disconnecting makes of what is at o
pub open spec fn disconnected(ins: Seq<TxInput>, outs: Seq<TxOutput>, id: OutPointSourceId, undo: Seq<Option<Utxo>>, o: UtxoOutPoint, was: Option<Utxo>, now: Option<Utxo>) -> bool {
    (forall|i: int| 0 <= i < ins.len() && is_at(ins[i], o) && (#[trigger] undo[i]) is Some ==> now == undo[i])
        && (!restored(ins, undo, ins.len() as int, o) ==> now == (if made(outs, id, outs.len() as int, o) { None } else { was }))
}
// the same of a block's reward, whose outputs are all in the set
pub open spec fn list<T>(x: Option<&[T]>) -> Seq<T> { match x { Some(x) => x@, None => Seq::empty() } }
pub open spec fn paid(outs: Seq<TxOutput>, b: Id<GenBlock>, n: int, o: UtxoOutPoint) -> bool { o.id == OutPointSourceId::BlockReward(b) && o.index < n }
pub open spec fn all_in_set(outs: Seq<TxOutput>) -> bool { forall|i: int| 0 <= i < outs.len() ==> in_set(#[trigger] outs[i]) }
pub open spec fn all_outputs(ins: Seq<TxInput>) -> bool { forall|i: int| 0 <= i < ins.len() ==> #[trigger] ins[i] is Utxo }
pub open spec fn apart(ins: Seq<TxInput>) -> bool { forall|i: int, j: int| #![trigger ins[i], ins[j]] 0 <= i < j < ins.len() ==> ins[i] != ins[j] }
/// what is taken of the outputs that are named, in order, each once
pub open spec fn picked(ins: Seq<TxInput>, n: int, was: spec_fn(UtxoOutPoint) -> Option<Utxo>, undo: Seq<Utxo>) -> bool decreases n {
    if n <= 0 { undo.len() == 0 } else { match ins[n - 1] {
        TxInput::Utxo(o) => undo.len() > 0 && was(o) == Some(undo.last()) && !used(ins, n - 1, o) && picked(ins, n - 1, was, undo.drop_last()),
        _ => picked(ins, n - 1, was, undo),
    } }
}
pub open spec fn outcome(u: Option<UtxosBlockRewardUndo>, ins: Option<&[TxInput]>, was: spec_fn(UtxoOutPoint) -> Option<Utxo>) -> bool {
    match u { Some(u) => u.0@.len() > 0 && ins is Some && picked(list(ins), list(ins).len() as int, was, u.0@), None => picked(list(ins), list(ins).len() as int, was, Seq::empty()) }
}
pub open spec fn rewarded(ins: Seq<TxInput>, outs: Seq<TxOutput>, b: Id<GenBlock>, height: BlockHeight, o: UtxoOutPoint, was: Option<Utxo>) -> Option<Utxo> {
    if paid(outs, b, outs.len() as int, o) { Some(Utxo { output: outs[o.index as int], source: UtxoSource::Blockchain(height) }) } else if used(ins, ins.len() as int, o) { None } else { was }
}
pub open spec fn unrewarded(ins: Seq<TxInput>, outs: Seq<TxOutput>, b: Id<GenBlock>, undo: Option<UtxosBlockRewardUndo>, o: UtxoOutPoint, was: Option<Utxo>, now: Option<Utxo>) -> bool {
    (forall|i: int| 0 <= i < ins.len() && is_at(#[trigger] ins[i], o) ==> now == Some((undo->0).0@[i]))
        && (!used(ins, ins.len() as int, o) ==> now == (if paid(outs, b, outs.len() as int, o) { None } else { was }))
}
impl<P: UtxosView> UtxosCache<P> {
    /// what the cache shows
    pub open spec fn now(&self, o: UtxoOutPoint) -> Option<Utxo> { look(self.utxos.map(), o, self.parent.at(o)) }
    /// the marks of all its entries tell the truth
    pub open spec fn ok(&self) -> bool { forall|o: UtxoOutPoint| over(self.utxos.map(), o, #[trigger] self.parent.at(o)) }
    /// nothing that is seen has changed but at k
    pub open spec fn but(&self, was: &Self, k: UtxoOutPoint) -> bool { self.parent == was.parent && self.current_block_hash == was.current_block_hash && forall|o: UtxoOutPoint| #![trigger self.now(o)] #![trigger was.now(o)] o != k ==> self.now(o) == was.now(o) }
    pub open spec fn same(&self, was: &Self) -> bool { self.parent == was.parent && self.current_block_hash == was.current_block_hash && forall|o: UtxoOutPoint| #![trigger self.now(o)] #![trigger was.now(o)] self.now(o) == was.now(o) }
}
//@ impl UC impl<P: UtxosView> UtxosCache<P>
//@ fn fetch_utxo_entry
//@|    ensures final(self).same(old(self)), old(self).ok() ==> final(self).ok(),
//@|        r matches Ok(Some(e)) ==> held(e) == old(self).now(*outpoint) && final(self).utxos.map().contains_key(*outpoint) && final(self).utxos.map()[*outpoint] == e,
//@|        r matches Ok(None) ==> old(self).now(*outpoint) is None,
//@|        r matches Err(e) ==> e is ViewRead
//@ fn new
//@|    ensures r matches Ok(c) ==> c.parent == parent && c.current_block_hash == parent.best() && c.utxos.map() == Map::<UtxoOutPoint, UtxoEntry>::empty() && c.ok() && forall|o: UtxoOutPoint| #[trigger] c.now(o) == parent.at(o)
//@ fn from_data
//@|    ensures r matches Ok(c) && c.parent == parent && c.current_block_hash == utxos.best_block && c.utxos == utxos.container
//@ fn set_best_block
//@|    ensures final(self).current_block_hash == block_hash, final(self).parent == old(self).parent, final(self).utxos == old(self).utxos
//@ fn add_utxo
//@|    ensures
//@|        r is Err <==> !possible_overwrite && old(self).utxos.map().contains_key(*outpoint) && held(old(self).utxos.map()[*outpoint]) is Some,
//@|        r matches Err(e) ==> e is OverwritingUtxo && final(self).same(old(self)) && (old(self).ok() ==> final(self).ok()),
//@|        r is Ok ==> final(self).but(old(self), *outpoint) && final(self).now(*outpoint) == Some(utxo),
//@|        r is Ok && old(self).ok() && (possible_overwrite || old(self).now(*outpoint) is None) ==> final(self).ok()
//@ fn spend_utxo
//@|    requires old(self).ok()
//@|    ensures
//@|        match r {
//@|            Ok(u) => old(self).now(*outpoint) == Some(u) && final(self).now(*outpoint) is None && final(self).but(old(self), *outpoint),
//@|            Err(e) => final(self).same(old(self)) && (e is ViewRead || (e is NoUtxoFound || e is UtxoAlreadySpent) && old(self).now(*outpoint) is None),
//@|        },
//@|        final(self).ok()
//@ fn has_utxo_in_cache
//@|    ensures r == self.utxos.map().contains_key(*outpoint)
//@ fn uncache
//@|    requires old(self).ok()
//@|    ensures final(self).same(old(self)), final(self).ok(),
//@|        r is Ok <==> old(self).utxos.map().contains_key(*outpoint) && !fresh(old(self).utxos.map()[*outpoint]) && !dirty(old(self).utxos.map()[*outpoint])
//@ fn consume
//@|    ensures r.container == self.utxos, r.best_block == self.current_block_hash
//@ fn add_utxos_from_tx
//@|    requires old(self).ok(), tx.outs().len() <= 0x1_0000_0000, check_for_overwrite || forall|o: UtxoOutPoint| made(tx.outs(), OutPointSourceId::Transaction(tx.the_id()), tx.outs().len() as int, o) ==> #[trigger] old(self).now(o) is None
//@|    ensures final(self).parent == old(self).parent, final(self).current_block_hash == old(self).current_block_hash, final(self).ok(),
//@|        match r {
//@|            Ok(_) => forall|o: UtxoOutPoint| #[trigger] final(self).now(o) == (if made(tx.outs(), OutPointSourceId::Transaction(tx.the_id()), tx.outs().len() as int, o) { Some(Utxo { output: tx.outs()[o.index as int], source }) } else { old(self).now(o) }),
//@|            Err(e) => e is ViewRead,
//@|        }
//@ . opt lazy
//@ . opt fornext
//@ . method iter => vf_iter
//@ . method enumerate => vf_enumerate
//@ . loop 0
//@|    invariant_except_break vf_it0.rest().len() <= outs.len(), forall|j: int| 0 <= j < vf_it0.rest().len() ==> #[trigger] vf_it0.rest()[j] == ((outs.len() - vf_it0.rest().len() + j) as usize, &outs[outs.len() - vf_it0.rest().len() + j])
//@|    invariant outs == tx.outs(), id == OutPointSourceId::Transaction(tx.the_id()), outs.len() <= 0x1_0000_0000, self.ok(), self.parent == old(self).parent, self.current_block_hash == old(self).current_block_hash,
//@|        check_for_overwrite || forall|o: UtxoOutPoint| made(outs, id, outs.len() as int, o) ==> #[trigger] old(self).now(o) is None,
//@|        forall|o: UtxoOutPoint| #[trigger] self.now(o) == (if made(outs, id, outs.len() - vf_it0.rest().len(), o) { Some(Utxo { output: outs[o.index as int], source }) } else { old(self).now(o) })
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ . proof start
//@|    let ghost outs = tx.outs();
//@ fn add_utxos_from_block_reward
//@|    requires old(self).ok(), reward.outs().len() <= 0x1_0000_0000
//@|    ensures final(self).parent == old(self).parent, final(self).current_block_hash == old(self).current_block_hash, final(self).ok(),
//@|        match r {
//@|            Ok(_) => forall|o: UtxoOutPoint| #[trigger] final(self).now(o) == (if o.id == OutPointSourceId::BlockReward(*block_id) && o.index < reward.outs().len() { Some(Utxo { output: reward.outs()[o.index as int], source }) } else { old(self).now(o) }),
//@|            Err(e) => e is ViewRead,
//@|        }
//@ . opt fornext
//@ . method iter => vf_iter
//@ . method enumerate => vf_enumerate
//@ . loop 0
//@|    invariant_except_break vf_it0.rest().len() <= outs.len(), forall|j: int| 0 <= j < vf_it0.rest().len() ==> #[trigger] vf_it0.rest()[j] == ((outs.len() - vf_it0.rest().len() + j) as usize, &outs[outs.len() - vf_it0.rest().len() + j])
//@|    invariant outs == reward.outs(), outs.len() <= 0x1_0000_0000, self.ok(), self.parent == old(self).parent, self.current_block_hash == old(self).current_block_hash,
//@|        forall|o: UtxoOutPoint| #[trigger] self.now(o) == (if o.id == OutPointSourceId::BlockReward(*block_id) && o.index < outs.len() - vf_it0.rest().len() { Some(Utxo { output: outs[o.index as int], source }) } else { old(self).now(o) })
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ . proof start
//@|    let ghost outs = reward.outs();
//@ fn connect_transaction
//@|    requires old(self).ok(), tx.outs().len() <= 0x1_0000_0000, forall|o: UtxoOutPoint| made(tx.outs(), OutPointSourceId::Transaction(tx.the_id()), tx.outs().len() as int, o) ==> #[trigger] old(self).now(o) is None
//@|    ensures final(self).parent == old(self).parent, final(self).current_block_hash == old(self).current_block_hash, final(self).ok(),
//@|        match r {
//@|            Ok(u) => taken(tx.ins(), |o: UtxoOutPoint| old(self).now(o), u.utxos.0@) && u.sources@ == sources(tx.ins(), tx.ins().len())
//@|                && forall|o: UtxoOutPoint| #[trigger] final(self).now(o) == connected(tx.ins(), tx.outs(), OutPointSourceId::Transaction(tx.the_id()), source, o, old(self).now(o)),
//@|            Err(e) => e is ViewRead || exists|i: int| 0 <= i < tx.ins().len() && (#[trigger] tx.ins()[i] matches TxInput::Utxo(o) && (old(self).now(o) is None || used(tx.ins(), i, o))),
//@|        }
//@ . opt fornext
//@ . opt eager
//@ . method iter => vf_iter
//@ . method collect => vf_vec
//@ . loop 0
//@|    invariant_except_break vf_it0.rest().len() <= ins.len(), vf_it0.rest() == ins.skip(ins.len() - vf_it0.rest().len()), vf_m@ == sources(ins, (ins.len() - vf_it0.rest().len()) as nat)
//@|    invariant ins == tx.ins()
//@|    ensures vf_m@ == sources(ins, ins.len())
//@|    decreases vf_it0.rest().len()
//@ . loop 1
//@|    invariant_except_break vf_it1.rest().len() <= ins.len(), vf_it1.rest() == ins.skip(ins.len() - vf_it1.rest().len()), vf_m@.len() == ins.len() - vf_it1.rest().len()
//@|    invariant ins == tx.ins(), vf_m@.len() <= ins.len(), self.ok(), self.parent == old(self).parent, self.current_block_hash == old(self).current_block_hash,
//@|        forall|o: UtxoOutPoint| #[trigger] self.now(o) == (if used(ins, vf_m@.len() as int, o) { None } else { old(self).now(o) }),
//@|        taken(ins.take(vf_m@.len() as int), |o: UtxoOutPoint| old(self).now(o), vf_m@)
//@|    ensures vf_m@.len() == ins.len()
//@|    decreases vf_it1.rest().len()
//@ . proof start
//@|    let ghost ins = tx.ins();
//@ fn disconnect_transaction
//@|    requires old(self).ok(), tx.outs().len() <= 0x1_0000_0000, tx_undo.0@.len() == tx.ins().len(),
//@|        forall|o: UtxoOutPoint| restored(tx.ins(), tx_undo.0@, tx.ins().len() as int, o) ==> #[trigger] old(self).now(o) is None || made(tx.outs(), OutPointSourceId::Transaction(tx.the_id()), tx.outs().len() as int, o),
//@|        once(tx.ins(), tx_undo.0@)
//@|    ensures final(self).parent == old(self).parent, final(self).current_block_hash == old(self).current_block_hash, final(self).ok(),
//@|        match r {
//@|            Ok(_) => forall|o: UtxoOutPoint| #[trigger] disconnected(tx.ins(), tx.outs(), OutPointSourceId::Transaction(tx.the_id()), tx_undo.0@, o, old(self).now(o), final(self).now(o)),
//@|            Err(e) => e is ViewRead || (exists|o: UtxoOutPoint| made(tx.outs(), OutPointSourceId::Transaction(tx.the_id()), tx.outs().len() as int, o) && #[trigger] old(self).now(o) is None)
//@|                || exists|i: int| 0 <= i < tx.ins().len() && !(#[trigger] tx.ins()[i] is Utxo) && tx_undo.0@[i] is Some,
//@|        }
//@ . opt fornext
//@ . opt lazy
//@ . method iter => vf_iter
//@ . method enumerate => vf_enumerate
//@ . method zip => vf_zip
//@ . proof start
//@|    let ghost ins = tx.ins();
//@|    let ghost outs = tx.outs();
//@|    let ghost kept = tx_undo.0@;
//@|    let ghost id = OutPointSourceId::Transaction(tx.the_id());
//@ . loop 0
//@|    invariant_except_break vf_it0.rest().len() <= outs.len(), forall|j: int| 0 <= j < vf_it0.rest().len() ==> #[trigger] vf_it0.rest()[j] == ((outs.len() - vf_it0.rest().len() + j) as usize, &outs[outs.len() - vf_it0.rest().len() + j])
//@|    invariant outs == tx.outs(), id == OutPointSourceId::Transaction(tx.the_id()), outs.len() <= 0x1_0000_0000, self.ok(), self.parent == old(self).parent, self.current_block_hash == old(self).current_block_hash,
//@|        forall|o: UtxoOutPoint| #[trigger] self.now(o) == (if made(outs, id, outs.len() - vf_it0.rest().len(), o) { None } else { old(self).now(o) })
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ . loop 1
//@|    invariant_except_break vf_it1.rest().len() <= ins.len(), forall|j: int| 0 <= j < vf_it1.rest().len() ==> #[trigger] vf_it1.rest()[j] == (&ins[ins.len() - vf_it1.rest().len() + j], kept[ins.len() - vf_it1.rest().len() + j])
//@|    invariant ins == tx.ins(), self.ok(), kept == tx_undo.0@, kept.len() == ins.len(), self.parent == old(self).parent, self.current_block_hash == old(self).current_block_hash, once(ins, kept),
//@|        forall|o: UtxoOutPoint| restored(ins, kept, ins.len() as int, o) ==> (#[trigger] old(self).now(o) is None || made(outs, id, outs.len() as int, o)),
//@|        forall|o: UtxoOutPoint| !restored(ins, kept, ins.len() - vf_it1.rest().len(), o) ==> #[trigger] self.now(o) == (if made(outs, id, outs.len() as int, o) { None } else { old(self).now(o) }),
//@|        forall|i: int| 0 <= i < ins.len() - vf_it1.rest().len() ==> (#[trigger] kept[i] matches Some(u) ==> (ins[i] matches TxInput::Utxo(o) && self.now(o) == Some(u)))
//@|    ensures vf_it1.rest().len() == 0
//@|    decreases vf_it1.rest().len()
//@ fn connect_block_transactable
//@|    requires old(self).ok(), reward_transactable.outputs matches Some(outs) ==> outs@.len() <= 0x1_0000_0000 && forall|o: UtxoOutPoint| paid(outs@, *block_id, outs@.len() as int, o) ==> #[trigger] old(self).now(o) is None
//@|    ensures final(self).parent == old(self).parent, final(self).current_block_hash == old(self).current_block_hash, final(self).ok(),
//@|        match r {
//@|            Ok(u) => all_in_set(list(reward_transactable.outputs)) && outcome(u, reward_transactable.inputs, |o: UtxoOutPoint| old(self).now(o))
//@|                && forall|o: UtxoOutPoint| #[trigger] final(self).now(o) == rewarded(list(reward_transactable.inputs), list(reward_transactable.outputs), *block_id, height, o, old(self).now(o)),
//@|            Err(e) => e is ViewRead || !all_in_set(list(reward_transactable.outputs)) || exists|i: int| 0 <= i < list(reward_transactable.inputs).len() && (#[trigger] list(reward_transactable.inputs)[i] matches TxInput::Utxo(o) && (old(self).now(o) is None || used(list(reward_transactable.inputs), i, o))),
//@|        }
//@ . opt fornext
//@ . opt eager
//@ . method iter => vf_iter
//@ . method enumerate => vf_enumerate
//@ . proof start
//@|    let ghost ins = list(reward_transactable.inputs);
//@|    let ghost outs = list(reward_transactable.outputs);
//@ . proof after let vf_x
//@|    assert(vf_m@.push(vf_x).drop_last() =~= vf_m@);
//@ . loop 0
//@|    invariant_except_break vf_it0.rest().len() <= ins.len(), vf_it0.rest() == ins.skip(ins.len() - vf_it0.rest().len()),
//@|        forall|o: UtxoOutPoint| #[trigger] self.now(o) == (if used(ins, ins.len() - vf_it0.rest().len(), o) { None } else { old(self).now(o) }),
//@|        picked(ins, ins.len() - vf_it0.rest().len(), |o: UtxoOutPoint| old(self).now(o), vf_m@)
//@|    invariant ins == list(reward_transactable.inputs), reward_transactable.inputs is Some, self.ok(), self.parent == old(self).parent, self.current_block_hash == old(self).current_block_hash
//@|    ensures picked(ins, ins.len() as int, |o: UtxoOutPoint| old(self).now(o), vf_m@), vf_m@.len() == 0 ==> vf_m@ =~= Seq::empty(), forall|o: UtxoOutPoint| #[trigger] self.now(o) == (if used(ins, ins.len() as int, o) { None } else { old(self).now(o) })
//@|    decreases vf_it0.rest().len()
//@ . loop 1
//@|    invariant_except_break vf_it1.rest().len() <= outs.len(), forall|j: int| 0 <= j < vf_it1.rest().len() ==> #[trigger] vf_it1.rest()[j] == ((outs.len() - vf_it1.rest().len() + j) as usize, &outs[outs.len() - vf_it1.rest().len() + j])
//@|    invariant ins == list(reward_transactable.inputs), outcome(reward_undo, reward_transactable.inputs, |o: UtxoOutPoint| old(self).now(o)), outs == list(reward_transactable.outputs), outs.len() <= 0x1_0000_0000, source_id == OutPointSourceId::BlockReward(*block_id), self.ok(), self.parent == old(self).parent, self.current_block_hash == old(self).current_block_hash,
//@|        forall|o: UtxoOutPoint| paid(outs, *block_id, outs.len() as int, o) ==> #[trigger] old(self).now(o) is None,
//@|        all_in_set(outs.take(outs.len() - vf_it1.rest().len())),
//@|        forall|o: UtxoOutPoint| #[trigger] self.now(o) == (if paid(outs, *block_id, outs.len() - vf_it1.rest().len(), o) { Some(Utxo { output: outs[o.index as int], source: UtxoSource::Blockchain(height) }) } else if used(ins, ins.len() as int, o) { None } else { old(self).now(o) })
//@|    ensures vf_it1.rest().len() == 0, outs.take(outs.len() as int) =~= outs
//@|    decreases vf_it1.rest().len()
//@ fn disconnect_block_transactable
//@|    requires old(self).ok(), list(reward_transactable.outputs).len() <= 0x1_0000_0000,
//@|        reward_transactable.inputs is Some && reward_undo is Some ==> (reward_undo->0).0@.len() == list(reward_transactable.inputs).len() && all_outputs(list(reward_transactable.inputs)) && apart(list(reward_transactable.inputs)),
//@|        forall|o: UtxoOutPoint| used(list(reward_transactable.inputs), list(reward_transactable.inputs).len() as int, o) ==> #[trigger] old(self).now(o) is None || paid(list(reward_transactable.outputs), *block_id, list(reward_transactable.outputs).len() as int, o)
//@|    ensures final(self).parent == old(self).parent, final(self).current_block_hash == old(self).current_block_hash, final(self).ok(),
//@|        match r {
//@|            Ok(_) => (reward_transactable.inputs is Some ==> reward_undo is Some) && forall|o: UtxoOutPoint| #[trigger] unrewarded(list(reward_transactable.inputs), list(reward_transactable.outputs), *block_id, reward_undo, o, old(self).now(o), final(self).now(o)),
//@|            Err(e) => e is ViewRead || (reward_transactable.inputs is Some && reward_undo is None) || exists|o: UtxoOutPoint| paid(list(reward_transactable.outputs), *block_id, list(reward_transactable.outputs).len() as int, o) && #[trigger] old(self).now(o) is None,
//@|        }
//@ . opt fornext
//@ . opt lazy
//@ . method iter => vf_iter
//@ . method enumerate => vf_enumerate
//@ . method zip => vf_zip
//@ . proof start
//@|    let ghost ins = list(reward_transactable.inputs);
//@|    let ghost outs = list(reward_transactable.outputs);
//@ . loop 0
//@|    invariant_except_break vf_it0.rest().len() <= outs.len(), forall|j: int| 0 <= j < vf_it0.rest().len() ==> #[trigger] vf_it0.rest()[j] == ((outs.len() - vf_it0.rest().len() + j) as usize, &outs[outs.len() - vf_it0.rest().len() + j])
//@|    invariant outs == list(reward_transactable.outputs), outs.len() <= 0x1_0000_0000, self.ok(), self.parent == old(self).parent, self.current_block_hash == old(self).current_block_hash,
//@|        forall|o: UtxoOutPoint| #[trigger] self.now(o) == (if paid(outs, *block_id, outs.len() - vf_it0.rest().len(), o) { None } else { old(self).now(o) })
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ . loop 1
//@|    invariant_except_break vf_it1.rest().len() <= ins.len(), forall|j: int| 0 <= j < vf_it1.rest().len() ==> #[trigger] vf_it1.rest()[j] == (&ins[ins.len() - vf_it1.rest().len() + j], kept[ins.len() - vf_it1.rest().len() + j])
//@|    invariant ins == list(reward_transactable.inputs), self.ok(), reward_undo is Some, kept == (reward_undo->0).0@, kept.len() == ins.len(), self.parent == old(self).parent, self.current_block_hash == old(self).current_block_hash, all_outputs(ins), apart(ins),
//@|        forall|o: UtxoOutPoint| used(ins, ins.len() as int, o) ==> (#[trigger] old(self).now(o) is None || paid(outs, *block_id, outs.len() as int, o)),
//@|        forall|o: UtxoOutPoint| !used(ins, ins.len() - vf_it1.rest().len(), o) ==> #[trigger] self.now(o) == (if paid(outs, *block_id, outs.len() as int, o) { None } else { old(self).now(o) }),
//@|        forall|i: int| 0 <= i < ins.len() - vf_it1.rest().len() ==> (ins[i] matches TxInput::Utxo(o) && self.now(o) == Some(#[trigger] kept[i]))
//@|    ensures vf_it1.rest().len() == 0
//@|    decreases vf_it1.rest().len()
//@ . proof after let block_undo
//@|    let ghost kept = block_undo.0@;
//@ endimpl
//@ impl UC impl<P: UtxosView> UtxosView for UtxosCache<P>
    open spec fn at(&self, o: UtxoOutPoint) -> Option<Utxo> { self.now(o) }
    open spec fn best(&self) -> Id<GenBlock> { self.current_block_hash }
//@ fn utxo
//@ . method cloned => vf_cloned
//@ fn has_utxo
//@ . opt result
//@ fn best_block_hash
//@ fn estimated_size
//@ endimpl
//@ impl UC impl<P> FlushableUtxoView for UtxosCache<P>
    open spec fn takes(&self, c: ConsumedUtxoCache) -> bool { joins(c.container.map(), self.utxos.map()) }
    open spec fn wrote(&self, c: ConsumedUtxoCache, after: &Self) -> bool {
        after.parent == self.parent && after.current_block_hash == c.best_block && forall|o: UtxoOutPoint, below: Option<Utxo>| (#[trigger] look(self.utxos.map(), o, below)) == look(self.utxos.map(), o, below) && merged(self.utxos.map(), c.container.map(), after.utxos.map(), o, below)
    }
//@ fn batch_write
//@|    ensures r is Ok
//@ . opt fornext
//@ . method cloned => vf_cloned
//@ . proof start
//@|    let ghost was = self.utxos.map();
//@|    let ghost c = utxo_entries.container.map();
//@ . loop 0
//@|    invariant self.parent == old(self).parent, was == old(self).utxos.map(), joins(c, was), forall|o: UtxoOutPoint| (#[trigger] vf_it0.rest().contains_key(o)) ==> c.contains_key(o) && vf_it0.rest()[o] == c[o],
//@|        forall|o: UtxoOutPoint| !c.contains_key(o) || vf_it0.rest().contains_key(o) ==> self.utxos.map().contains_key(o) == (#[trigger] was.contains_key(o)) && (was.contains_key(o) ==> self.utxos.map()[o] == was[o]),
//@|        forall|o: UtxoOutPoint, below: Option<Utxo>| c.contains_key(o) && !vf_it0.rest().contains_key(o) ==> (#[trigger] look(was, o, below)) == look(was, o, below) && merged(was, c, self.utxos.map(), o, below)
//@|    ensures vf_it0.rest() == Map::<UtxoOutPoint, UtxoEntry>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ . proof before let parent_entry
//@|    assert(c.contains_key(key) && entry == c[key]); assert(was.contains_key(key) == self.utxos.map().contains_key(key));
//@ endimpl
// ---------------------------------------------------------------- the database
pub trait UtxosStorageRead : Sized {
    type Error;
    spec fn held(&self, o: UtxoOutPoint) -> Option<Utxo>;
    spec fn tip(&self) -> Id<GenBlock>;
    fn get_utxo(&self, outpoint: &UtxoOutPoint) -> (r: Result<Option<Utxo>, Self::Error>) ensures r matches Ok(u) ==> u == self.held(*outpoint);
    fn get_best_block_for_utxos(&self) -> (r: Result<Id<GenBlock>, Self::Error>) ensures r matches Ok(b) ==> b == self.tip();
}
pub trait UtxosStorageWrite : UtxosStorageRead {
    fn set_utxo(&mut self, outpoint: &UtxoOutPoint, entry: Utxo) -> (r: Result<(), Self::Error>) ensures r is Ok ==> final(self).tip() == old(self).tip() && forall|o: UtxoOutPoint| #[trigger] final(self).held(o) == (if o == *outpoint { Some(entry) } else { old(self).held(o) });
    fn del_utxo(&mut self, outpoint: &UtxoOutPoint) -> (r: Result<(), Self::Error>) ensures r is Ok ==> final(self).tip() == old(self).tip() && forall|o: UtxoOutPoint| #[trigger] final(self).held(o) == (if o == *outpoint { None } else { old(self).held(o) });
    fn set_best_block_for_utxos(&mut self, block_id: &Id<GenBlock>) -> (r: Result<(), Self::Error>) ensures r is Ok ==> final(self).tip() == *block_id && forall|o: UtxoOutPoint| #[trigger] final(self).held(o) == old(self).held(o);
}
//@ struct UM UtxosDB
//@ impl UM impl<S: UtxosStorageRead> UtxosDB<S>
//@ fn new
//@|    ensures r.0 == store
//@ endimpl
//@ impl UW impl<S: UtxosStorageRead> UtxosStorageRead for UtxosDB<S>
    open spec fn held(&self, o: UtxoOutPoint) -> Option<Utxo> { self.0.held(o) }
    open spec fn tip(&self) -> Id<GenBlock> { self.0.tip() }
//@ fn get_utxo
//@ fn get_best_block_for_utxos
//@ endimpl
//@ impl UW impl<S: UtxosStorageWrite> UtxosStorageWrite for UtxosDB<S>
//@ fn set_utxo
//@ fn del_utxo
//@ fn set_best_block_for_utxos
//@ endimpl
//@ impl UI impl<S: UtxosStorageRead> UtxosView for UtxosDB<S>
    open spec fn at(&self, o: UtxoOutPoint) -> Option<Utxo> { self.0.held(o) }
    open spec fn best(&self) -> Id<GenBlock> { self.0.tip() }
//@ fn utxo
//@ fn has_utxo
//@ . opt result
//@ fn best_block_hash
//@ fn estimated_size
//@ endimpl
//@ impl UI impl<S: UtxosStorageWrite> FlushableUtxoView for UtxosDB<S>
    open spec fn takes(&self, c: ConsumedUtxoCache) -> bool { true }
    open spec fn wrote(&self, c: ConsumedUtxoCache, after: &Self) -> bool {
        after.best() == c.best_block && forall|o: UtxoOutPoint| over(c.container.map(), o, self.at(o)) ==> #[trigger] after.at(o) == look(c.container.map(), o, self.at(o))
    }
//@ fn batch_write
//@|    ensures r matches Err(e) ==> e is StorageWrite
//@ . opt fornext
//@ . opt result
//@ . proof start
//@|    let ghost c = utxos.container.map();
//@ . loop 0
//@|    invariant vf_it0.rest().submap_of(c),
//@|        forall|o: UtxoOutPoint| #[trigger] self.0.held(o) == (if c.contains_key(o) && !vf_it0.rest().contains_key(o) && dirty(c[o]) { held(c[o]) } else { old(self).0.held(o) })
//@|    ensures vf_it0.rest() == Map::<UtxoOutPoint, UtxoEntry>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ endimpl
// ---------------------------------------------------------------- what follows
/// A cache written into the cache under it, or into the database, shows there what it showed itself, and the marks there stay true.
proof fn a_flush_changes_nothing_that_is_seen<P: UtxosView>(child: UtxosCache<UtxosCache<P>>, before: UtxosCache<P>, after: UtxosCache<P>)
    requires child.ok(), before.ok(), child.parent == before, before.wrote(ConsumedUtxoCache { container: child.utxos, best_block: child.current_block_hash }, &after)
    ensures before.takes(ConsumedUtxoCache { container: child.utxos, best_block: child.current_block_hash }), after.ok(), after.best() == child.best(), forall|o: UtxoOutPoint| #[trigger] after.now(o) == child.now(o)
{
    assert forall|o: UtxoOutPoint| child.utxos.map().contains_key(o) implies valid(#[trigger] child.utxos.map()[o]) && (dirty(child.utxos.map()[o]) && fresh(child.utxos.map()[o]) && before.utxos.map().contains_key(o) ==> held(before.utxos.map()[o]) is None) by { assert(over(child.utxos.map(), o, child.parent.at(o))); assert(child.parent.at(o) == before.now(o)); }
    assert forall|o: UtxoOutPoint| #[trigger] after.now(o) == child.now(o) by { assert(child.parent.at(o) == before.now(o)); assert(over(before.utxos.map(), o, before.parent.at(o))); assert(merged(before.utxos.map(), child.utxos.map(), after.utxos.map(), o, before.parent.at(o))); }
    assert forall|o: UtxoOutPoint| over(after.utxos.map(), o, #[trigger] after.parent.at(o)) by { assert(child.parent.at(o) == before.now(o)); assert(over(before.utxos.map(), o, before.parent.at(o))); assert(merged(before.utxos.map(), child.utxos.map(), after.utxos.map(), o, before.parent.at(o))); }
}
proof fn a_flush_to_the_database_changes_nothing_that_is_seen<S: UtxosStorageWrite>(child: UtxosCache<UtxosDB<S>>, before: UtxosDB<S>, after: UtxosDB<S>)
    requires child.ok(), child.parent == before, before.wrote(ConsumedUtxoCache { container: child.utxos, best_block: child.current_block_hash }, &after)
    ensures after.best() == child.best(), forall|o: UtxoOutPoint| #[trigger] after.at(o) == child.now(o)
{
    assert forall|o: UtxoOutPoint| #[trigger] after.at(o) == child.now(o) by { assert(over(child.utxos.map(), o, child.parent.at(o))); }
}
/// Disconnecting a transaction that was just connected gives back every output as it was.
proof fn disconnecting_undoes_connecting(ins: Seq<TxInput>, outs: Seq<TxOutput>, id: OutPointSourceId, source: UtxoSource, undo: Seq<Option<Utxo>>, was: spec_fn(UtxoOutPoint) -> Option<Utxo>, o: UtxoOutPoint, then: Option<Utxo>)
    requires taken(ins, was, undo), forall|o: UtxoOutPoint| made(outs, id, outs.len() as int, o) ==> #[trigger] was(o) is None, disconnected(ins, outs, id, undo, o, connected(ins, outs, id, source, o, was(o)), then)
    ensures then == was(o),
        // (and it can be done)
        once(ins, undo), forall|i: int| 0 <= i < ins.len() && (#[trigger] undo[i]) is Some ==> ins[i] is Utxo,
        forall|p: UtxoOutPoint| made(outs, id, outs.len() as int, p) ==> #[trigger] connected(ins, outs, id, source, p, was(p)) is Some,
        forall|p: UtxoOutPoint| restored(ins, undo, ins.len() as int, p) ==> #[trigger] connected(ins, outs, id, source, p, was(p)) is None || made(outs, id, outs.len() as int, p)
{
    if used(ins, ins.len() as int, o) {
        let i = choose|i: int| 0 <= i < ins.len() && is_at(ins[i], o);
        assert(undo[i] == was(o));
    }
    assert forall|i: int, j: int| #![trigger undo[i], undo[j]] 0 <= i < j < ins.len() && undo[i] is Some && undo[j] is Some implies ins[i] != ins[j] by {
        if ins[i] == ins[j] { match ins[j] { TxInput::Utxo(p) => { assert(is_at(ins[i], p)); assert(used(ins, j, p)); } _ => { assert(undo[j] is None); } } }
    }
    assert forall|p: UtxoOutPoint| restored(ins, undo, ins.len() as int, p) implies #[trigger] connected(ins, outs, id, source, p, was(p)) is None || made(outs, id, outs.len() as int, p) by {
        let i = choose|i: int| 0 <= i < ins.len() && is_at(ins[i], p) && (#[trigger] undo[i]) is Some;
        assert(used(ins, ins.len() as int, p));
    }
}
/// The same of a block's reward whose inputs are all outputs.
proof fn disconnecting_undoes_rewarding(ins: Seq<TxInput>, outs: Seq<TxOutput>, b: Id<GenBlock>, height: BlockHeight, undo: UtxosBlockRewardUndo, was: spec_fn(UtxoOutPoint) -> Option<Utxo>, o: UtxoOutPoint, then: Option<Utxo>)
    requires all_outputs(ins), picked(ins, ins.len() as int, was, undo.0@), forall|o: UtxoOutPoint| paid(outs, b, outs.len() as int, o) ==> #[trigger] was(o) is None, unrewarded(ins, outs, b, Some(undo), o, rewarded(ins, outs, b, height, o, was(o)), then)
    ensures then == was(o), undo.0@.len() == ins.len(), apart(ins)
{
    picked_each(ins, ins.len() as int, was, undo.0@);
    if used(ins, ins.len() as int, o) {
        let i = choose|i: int| 0 <= i < ins.len() && is_at(ins[i], o);
        assert(was(o) == Some(undo.0@[i]));
    }
    assert forall|i: int, j: int| #![trigger ins[i], ins[j]] 0 <= i < j < ins.len() implies ins[i] != ins[j] by {
        if ins[i] == ins[j] { match ins[j] { TxInput::Utxo(p) => { assert(is_at(ins[i], p)); assert(used(ins, j, p)); } _ => { } } }
    }
}
proof fn picked_each(ins: Seq<TxInput>, n: int, was: spec_fn(UtxoOutPoint) -> Option<Utxo>, undo: Seq<Utxo>)
    requires all_outputs(ins), 0 <= n <= ins.len(), picked(ins, n, was, undo)
    ensures undo.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] ins[i] matches TxInput::Utxo(o) && was(o) == Some(undo[i]) && !used(ins, i, o))
    decreases n
{
    if n > 0 { assert(ins[n - 1] is Utxo); picked_each(ins, n - 1, was, undo.drop_last()); }
}
} // verus!
fn main() {}
