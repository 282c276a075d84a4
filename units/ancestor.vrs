// The indices of the blocks form chains: a block's ancestor at a height is found, through the short cuts, where walking back one by one would find it.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::ops::{Add, Sub};
use std::sync::Arc;
//@ source KA chainstate/types/src/ancestor.rs
//@ source KH chainstate/types/src/height_skip.rs
//@ source KB chainstate/types/src/block_index.rs
//@ source KG chainstate/types/src/gen_block_index.rs
//@ source KE chainstate/types/src/error.rs
//@ source BS common/src/chain/block/signed_block_header.rs
//@ source BH common/src/chain/block/block_header.rs
//@ path crate::storage_result::Error => StorageError
//@ path storage_result::Error => StorageError
//@ path Cow => VfCow
verus! {
fn vf_assert(b: bool) requires b { }
//@ include height.vrs
//@ include ids.vrs
//@ include stamp.vrs
//@ include blockindex.vrs
#[verifier::external_body]
pub struct StorageError { d: u64 }
#[verifier::external_body]
pub struct ChainConfig { d: u64 }
//@ enum KE GetAncestorError
impl core::convert::From<StorageError> for GetAncestorError { #[verifier::external_body] fn from(e: StorageError) -> (r: Self) { unimplemented!() } }
// ---------------------------------------------------------------- where the short cut of a height leads
/// n without its lowest one
pub open spec fn lower(n: u64) -> u64 { n & (if n == 0 { u64::MAX } else { (n - 1) as u64 }) }
proof fn lowers(n: u64) ensures n > 0 ==> lower(n) < n { assert(n > 0 ==> n & sub(n, 1) < n) by (bit_vector); }
pub open spec fn skip(h: u64) -> u64 { if h < 2 { 0 } else if h & 1 != 0 { (lower(lower((h - 1) as u64)) + 1) as u64 } else { lower(h) } }
proof fn skips(h: u64) ensures h > 0 ==> skip(h) < h, h >= 2 ==> (h & 1 != 0 ==> lower(lower((h - 1) as u64)) < h - 1) {
    if h >= 2 { lowers(h); lowers((h - 1) as u64); let m = lower((h - 1) as u64); lowers(m); assert(h & 1 != 0 && h >= 2 ==> sub(h, 1) & sub(sub(h, 1), 1) <= sub(h, 1)) by (bit_vector); assert(h & 1 != 0 && h >= 2 ==> h >= 3) by (bit_vector); assert(m & u64::MAX == m) by (bit_vector); if m == 0 { assert(lower(m) == 0) by { assert(0u64 & u64::MAX == 0) by (bit_vector); } } }
}
//@ fn KH invert_lowest_one
//@|    ensures r == lower(n)
//@ fn KH get_skip_height
//@|    ensures r.0 == skip(h.0), h.0 > 0 ==> r.0 < h.0
//@ . proof start
//@|    proof { skips(h.0); }
// ---------------------------------------------------------------- walking back
/// something that knows the places of blocks
pub trait Indexed { spec fn book(&self) -> Book; }
/// the places of the blocks that are known
pub type Book = Map<Id<GenBlock>, GenBlockIndex>;
pub open spec fn look(m: Book, id: Id<GenBlock>) -> Option<GenBlockIndex> { if m.contains_key(id) { Some(m[id]) } else { None } }
/// b's ancestor n blocks before it
pub open spec fn back(m: Book, b: GenBlockIndex, n: nat) -> Option<GenBlockIndex> decreases n {
    if n == 0 { Some(b) } else { match b.before() { Some(id) => match look(m, id) { Some(p) => back(m, p, (n - 1) as nat), None => None }, None => None } }
}
/// (opaque: what it says of a block's parent would call for the same of the parent's parent)
/// what is known of a block's place: one above its parent, and its short cut leads to its ancestor at the height for it
#[verifier::opaque]
pub open spec fn good(m: Book, b: GenBlockIndex) -> bool {
    match b {
        GenBlockIndex::Genesis(_) => true,
        GenBlockIndex::Block(i) => i.height.0 >= 1 && (look(m, i.prev()) matches Some(p) ==> p.at().0 == i.height.0 - 1)
            && look(m, i.some_ancestor) is Some && look(m, i.some_ancestor) == back(m, b, (i.height.0 - skip(i.height.0)) as nat),
    }
}
pub open spec fn linked(m: Book) -> bool { forall|id: Id<GenBlock>| (#[trigger] look(m, id)) matches Some(b) ==> b.the_id() == id && good(m, b) }
pub open spec fn answers(m: Book, id: Id<GenBlock>, r: core::result::Result<Option<GenBlockIndex>, StorageError>) -> bool { r matches Ok(x) ==> placed(x) == look(m, id) }
/// one step after another
pub proof fn further(m: Book, b: GenBlockIndex, n: nat, k: nat, c: GenBlockIndex) requires back(m, b, n) == Some(c) ensures back(m, b, n + k) == back(m, c, k) decreases n {
    if n > 0 { let p = look(m, b.before()->Some_0)->Some_0; further(m, p, (n - 1) as nat, k, c); }
}
/// every step goes one down, and what is reached is known
proof fn steps(m: Book, b: GenBlockIndex, n: nat, c: GenBlockIndex)
    requires linked(m), good(m, b), back(m, b, n) == Some(c)
    ensures good(m, c), n <= b.at().0, c.at().0 == b.at().0 - n
    decreases n
{
    if n > 0 { reveal(good); let p = look(m, b.before()->Some_0)->Some_0; steps(m, p, (n - 1) as nat, c); }
}
/// what a block's index says of its parent and its short cut
proof fn seat(m: Book, i: BlockIndex)
    requires linked(m), good(m, GenBlockIndex::Block(i))
    ensures i.height.0 >= 1, look(m, i.prev()) matches Some(p) ==> p.at().0 == i.height.0 - 1 && back(m, GenBlockIndex::Block(i), 1) == Some(p),
        look(m, i.some_ancestor) is Some, look(m, i.some_ancestor) == back(m, GenBlockIndex::Block(i), (i.height.0 - skip(i.height.0)) as nat),
        look(m, i.some_ancestor)->Some_0.at().0 == skip(i.height.0)
{
    reveal(good); reveal_with_fuel(back, 2); skips(i.height.0);
    steps(m, GenBlockIndex::Block(i), (i.height.0 - skip(i.height.0)) as nat, look(m, i.some_ancestor)->Some_0);
}
proof fn moved(m: Book, first: GenBlockIndex, w: GenBlockIndex, c: GenBlockIndex, k: nat)
    requires linked(m), good(m, first), good(m, w), w.at().0 <= first.at().0, back(m, first, (first.at().0 - w.at().0) as nat) == Some(w), back(m, w, k) == Some(c)
    ensures good(m, c), k <= w.at().0, c.at().0 == w.at().0 - k, back(m, first, (first.at().0 - c.at().0) as nat) == Some(c)
{ steps(m, w, k, c); further(m, first, (first.at().0 - w.at().0) as nat, k, w); }
//@ enum KA AncestorGetterStartingPoint
pub open spec fn start(m: Book, p: AncestorGetterStartingPoint<'_>) -> Option<GenBlockIndex> { match p { AncestorGetterStartingPoint::BlockIndex(b) => Some(place(*b)), AncestorGetterStartingPoint::BlockId(id) => look(m, *id) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Id<GenBlock>> for AncestorGetterStartingPoint<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: &'a Id<GenBlock>) -> Self { AncestorGetterStartingPoint::BlockId(x) } }
//@ impl KA impl<'a> From<&'a Id<GenBlock>> for AncestorGetterStartingPoint<'a>
//@ fn from
//@ endimpl
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a GenBlockIndex> for AncestorGetterStartingPoint<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: &'a GenBlockIndex) -> Self { AncestorGetterStartingPoint::BlockIndex(x) } }
//@ impl KA impl<'a> From<&'a GenBlockIndex> for AncestorGetterStartingPoint<'a>
//@ fn from
//@ endimpl
/// std's Cow
pub enum VfCow<'a> { Borrowed(&'a GenBlockIndex), Owned(GenBlockIndex) }
impl<'a> VfCow<'a> {
    pub open spec fn it(&self) -> GenBlockIndex { match self { VfCow::Borrowed(b) => **b, VfCow::Owned(b) => *b } }
    pub fn block_height(&self) -> (r: BlockHeight) ensures r == self.it().at() { match self { VfCow::Borrowed(b) => b.block_height(), VfCow::Owned(b) => b.block_height() } }
    pub fn into_owned(self) -> (r: GenBlockIndex) ensures r == self.it() { match self { VfCow::Borrowed(b) => b.clone(), VfCow::Owned(b) => b } }
}
//@ fn KA block_index_ancestor_getter
//@|    requires linked(db_tx.book()), starting_point matches AncestorGetterStartingPoint::BlockIndex(b) ==> good(db_tx.book(), place(*b)),
//@|        forall|id: &Id<GenBlock>| #[trigger] call_requires(gen_block_index_getter, (db_tx, chain_config, id)),
//@|        forall|id: &Id<GenBlock>, r: core::result::Result<Option<GenBlockIndex>, StorageError>| #[trigger] call_ensures(gen_block_index_getter, (db_tx, chain_config, id), r) ==> answers(db_tx.book(), *id, r)
//@|    ensures match r {
//@|        Ok(a) => start(db_tx.book(), starting_point) matches Some(s) && target_height.0 <= s.at().0 && back(db_tx.book(), s, (s.at().0 - target_height.0) as nat) == Some(place(a)) && a.at() == target_height,
//@|        Err(_) => true,
//@|    }
//@ . bound S Indexed
//@ . loop 0
//@|    invariant linked(db_tx.book()), good(db_tx.book(), first), start(db_tx.book(), starting_point) == Some(first), target_height.0 <= height_walk.0 <= first.at().0, height_walk == block_index_walk.at(), good(db_tx.book(), place(block_index_walk)),
//@|        back(db_tx.book(), first, (first.at().0 - height_walk.0) as nat) == Some(place(block_index_walk)),
//@|        forall|id: &Id<GenBlock>| #[trigger] call_requires(gen_block_index_getter, (db_tx, chain_config, id)),
//@|        forall|id: &Id<GenBlock>, r: core::result::Result<Option<GenBlockIndex>, StorageError>| #[trigger] call_ensures(gen_block_index_getter, (db_tx, chain_config, id), r) ==> answers(db_tx.book(), *id, r)
//@|    decreases height_walk.0
//@ . proof before let height_walk
//@|    let ghost first = place(block_index.it());
//@ . proof loop 0 start
//@|    let ghost (w, h) = (place(block_index_walk), height_walk.0); proof { skips(h); if h > 0 { skips((h - 1) as u64); } if let GenBlockIndex::Block(i) = w { seat(db_tx.book(), i); } }
//@ . proof loop 0 end
//@|    proof { moved(db_tx.book(), first, w, place(block_index_walk), (h - height_walk.0) as nat); }
} // verus!
fn main() {}
