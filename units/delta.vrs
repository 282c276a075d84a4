// Deltas of accounting data: combining, merging and undoing.
use vstd::prelude::*;
use std::collections::BTreeMap;
use vstd::std_specs::btree::*;
//@ source C accounting/src/delta/combine.rs
//@ source D accounting/src/delta/delta_data_collection/mod.rs
//@ source U accounting/src/delta/delta_data_collection/undo.rs
//@ source E accounting/src/error.rs
//@ mono K u64
//@ mono T u64
verus! {
//@ enum E Error
//@ struct D DataDelta derive PartialEq,Eq,Clone
//@ struct U DataDeltaUndo
//@ struct D DeltaDataCollection
//@ enum D GetDataResult

type Delta = DataDelta<u64>;
type State = Map<u64, u64>;
pub open spec fn at(s: State, k: u64) -> Option<u64> { if s.contains_key(k) { Some(s[k]) } else { None } }
pub open spec fn set(s: State, k: u64, v: Option<u64>) -> State { match v { Some(x) => s.insert(k, x), None => s.remove(k) } }
/// The delta is applicable to the data of its key
pub open spec fn applies(data: Option<u64>, d: Option<Delta>) -> bool { match d { Some(x) => data == x.old, None => true } }
pub open spec fn effect(data: Option<u64>, d: Option<Delta>) -> Option<u64> { match d { Some(x) => x.new, None => data } }
/// What a merge leaves for the key
pub open spec fn merged(cur: Option<Delta>, d: Delta) -> Delta { match cur { Some(c) => DataDelta { old: c.old, new: d.new }, None => d } }
pub open spec fn mergeable(cur: Option<Delta>, d: Delta) -> bool { match cur { Some(c) => c.new == d.old, None => true } }
pub open spec fn inverse(d: Delta) -> Delta { DataDelta { old: d.new, new: d.old } }
pub open spec fn lookup(m: Map<u64, Delta>, k: u64) -> Option<Delta> { if m.contains_key(k) { Some(m[k]) } else { None } }

/// Applying the merged delta is applying one after the other.
pub proof fn merge_is_composition(data: Option<u64>, cur: Option<Delta>, d: Delta)
    ensures mergeable(cur, d) && applies(data, Some(merged(cur, d))) <==> (applies(data, cur) && applies(effect(data, cur), Some(d))) || (mergeable(cur, d) && cur.is_some() && applies(data, cur) && cur.unwrap().new == d.old) || (cur.is_none() && applies(data, Some(d))),
            mergeable(cur, d) && applies(data, Some(merged(cur, d))) ==> effect(effect(data, cur), Some(d)) == effect(data, Some(merged(cur, d)))
{}
/// Merging is associative where it is defined.
pub proof fn merge_is_associative(cur: Option<Delta>, d: Delta, e: Delta)
    ensures (mergeable(cur, d) && mergeable(Some(merged(cur, d)), e)) <==> (mergeable(Some(d), e) && mergeable(cur, merged(Some(d), e))),
            mergeable(cur, d) && mergeable(Some(d), e) ==> merged(Some(merged(cur, d)), e) == merged(cur, merged(Some(d), e))
{}
/// A merge can always be undone, and the undo has the effect of not having merged.
pub proof fn undo_restores(data: Option<u64>, cur: Option<Delta>, d: Delta)
    requires mergeable(cur, d)
    ensures mergeable(Some(merged(cur, d)), inverse(d)),
            cur.is_some() ==> merged(Some(merged(cur, d)), inverse(d)) == cur.unwrap(),
            applies(data, Some(merged(cur, d))) ==> effect(data, Some(merged(Some(merged(cur, d)), inverse(d)))) == effect(data, cur),
            inverse(inverse(d)) == d
{}
// the clone that Verus does not know to be exact for a derived generic Clone
/// The entries of a map that is consumed: each once, in some order
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct MapIter<V> { i: std::collections::btree_map::IntoIter<u64, V> }
impl<V> MapIter<V> {
    pub uninterp spec fn rest(&self) -> Map<u64, V>;
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<(u64, V)>)
        ensures match r { Some(x) => old(self).rest().contains_key(x.0) && x.1 == old(self).rest()[x.0] && final(self).rest() == old(self).rest().remove(x.0) && old(self).rest().dom().len() > 0, None => old(self).rest() == Map::<u64, V>::empty() && final(self).rest() == old(self).rest() } { unimplemented!() }
}
pub trait VfMapIter<V>: Sized { spec fn map(&self) -> Map<u64, V>; fn vf_iter(self) -> (r: MapIter<V>) ensures r.rest() == self.map(); }
impl<V> VfMapIter<V> for BTreeMap<u64, V> {
    open spec fn map(&self) -> Map<u64, V> { self@ }
    #[verifier::external_body]
    fn vf_iter(self) -> (r: MapIter<V>) { unimplemented!() }
}
/// what merging a whole collection leaves
pub open spec fn all_mergeable(a: Map<u64, Delta>, b: Map<u64, Delta>) -> bool { forall|k: u64| #[trigger] b.contains_key(k) ==> mergeable(lookup(a, k), b[k]) }
pub open spec fn all_merged(a: Map<u64, Delta>, b: Map<u64, Delta>, c: Map<u64, Delta>) -> bool { forall|k: u64| #[trigger] lookup(c, k) == (if b.contains_key(k) { Some(merged(lookup(a, k), b[k])) } else { lookup(a, k) }) }
pub open spec fn undos(b: Map<u64, DataDeltaUndo<u64>>) -> Map<u64, Delta> { b.map_values(|u: DataDeltaUndo<u64>| u.0) }
pub open spec fn undos_upto(m: Map<u64, DataDeltaUndo<u64>>, b: Map<u64, Delta>, rest: Map<u64, Delta>) -> bool {
    (forall|k: u64| #[trigger] m.contains_key(k) <==> b.contains_key(k) && !rest.contains_key(k)) && (forall|k: u64| #[trigger] m.contains_key(k) ==> m[k].0 == inverse(b[k]))
}
/// the collection with the elements that are no longer in `rest` merged
pub open spec fn part(a: Map<u64, Delta>, b: Map<u64, Delta>, rest: Map<u64, Delta>, now: Map<u64, Delta>) -> bool {
    &&& forall|k: u64| #[trigger] rest.contains_key(k) ==> b.contains_key(k) && rest[k] == b[k]
    &&& forall|k: u64| #[trigger] lookup(now, k) == (if b.contains_key(k) && !rest.contains_key(k) { Some(merged(lookup(a, k), b[k])) } else { lookup(a, k) })
    &&& forall|k: u64| #[trigger] b.contains_key(k) && !rest.contains_key(k) ==> mergeable(lookup(a, k), b[k])
}
proof fn one_merge(a: Map<u64, Delta>, b: Map<u64, Delta>, rest: Map<u64, Delta>, now: Map<u64, Delta>)
    requires part(a, b, rest, now)
    ensures forall|k: u64| #[trigger] rest.contains_key(k) ==> lookup(now, k) == lookup(a, k) && (mergeable(lookup(now, k), b[k]) ==> part(a, b, rest.remove(k), now.insert(k, merged(lookup(now, k), b[k])))) && (!mergeable(lookup(now, k), b[k]) ==> !all_mergeable(a, b))
{
    assert forall|k: u64| #[trigger] rest.contains_key(k) implies lookup(now, k) == lookup(a, k) && (mergeable(lookup(now, k), b[k]) ==> part(a, b, rest.remove(k), now.insert(k, merged(lookup(now, k), b[k])))) && (!mergeable(lookup(now, k), b[k]) ==> !all_mergeable(a, b)) by {
        assert(lookup(now, k) == lookup(a, k));
        let (rest1, now1) = (rest.remove(k), now.insert(k, merged(lookup(now, k), b[k])));
        if mergeable(lookup(now, k), b[k]) {
            assert forall|j: u64| #[trigger] lookup(now1, j) == (if b.contains_key(j) && !rest1.contains_key(j) { Some(merged(lookup(a, j), b[j])) } else { lookup(a, j) }) by { assert(lookup(now, j) == (if b.contains_key(j) && !rest.contains_key(j) { Some(merged(lookup(a, j), b[j])) } else { lookup(a, j) })); }
        }
    }
}
pub trait VfClone: Sized { fn vf_clone(&self) -> (r: Self) ensures r == *self; }
impl VfClone for DataDelta<u64> { #[verifier::external_body] fn vf_clone(&self) -> (r: Self) { self.clone() } }

//@ impl D impl<T: Clone> DataDelta<T>
//@ fn new
//@|    ensures r.old == old && r.new == new
//@ fn invert
//@|    ensures r.0 == inverse(self)
//@ fn consume
//@|    ensures r == (self.old, self.new)
//@ endimpl
//@ struct U DeltaDataUndoCollection
//@ impl U impl<T> DataDeltaUndo<T>
//@ fn new
//@|    ensures r.0 == delta
//@ fn as_delta
//@|    ensures *r == self.0
//@ fn consume
//@|    ensures r == self.0
//@ endimpl
//@ impl U impl<K: Ord, T: Clone> DeltaDataUndoCollection<K, T>
//@ fn from_data
//@|    ensures r.data == data
//@ fn consume
//@|    ensures r == self.data
//@ endimpl
//@ fn D combine_delta_data
//@|    ensures match r { Ok(d) => mergeable(Some(lhs), rhs) && d == merged(Some(lhs), rhs), Err(_) => !mergeable(Some(lhs), rhs) }
//@ fn C combine_data_with_delta
//@|    ensures match r { Ok(x) => applies(lhs, rhs) && x == effect(lhs, rhs), Err(_) => !applies(lhs, rhs) }
//@ impl D impl<K: Ord + Copy, T: Clone + Eq> DeltaDataCollection<K, T>
//@ fn new
//@|    ensures r.data@ == Map::<u64, Delta>::empty()
//@ fn data
//@|    ensures r == self.data
//@ fn consume
//@|    ensures r == self.data
//@ fn get_data
//@|    ensures match r {
//@|        GetDataResult::Missing => !self.data@.contains_key(*key),
//@|        GetDataResult::Deleted => self.data@.contains_key(*key) && self.data@[*key].new.is_none(),
//@|        GetDataResult::Present(d) => self.data@.contains_key(*key) && self.data@[*key].new == Some(*d) }
//@ fn merge_delta_data
//@ . opt fornext
//@|    ensures match r {
//@|        Ok(u) => all_mergeable(old(self).data@, other.data@) && all_merged(old(self).data@, other.data@, final(self).data@) && (forall|k: u64| #[trigger] u.data@.contains_key(k) <==> other.data@.contains_key(k)) && (forall|k: u64| #[trigger] u.data@.contains_key(k) ==> u.data@[k].0 == inverse(other.data@[k])),
//@|        Err(_) => !all_mergeable(old(self).data@, other.data@) }
//@ . loop 0
//@|    invariant forall|k: u64| #[trigger] vf_it0.rest().contains_key(k) ==> other.data@.contains_key(k) && vf_it0.rest()[k] == other.data@[k],
//@|        part(old(self).data@, other.data@, vf_it0.rest(), self.data@),
//@|        undos_upto(vf_m@, other.data@, vf_it0.rest()),
//@|    ensures vf_it0.rest() == Map::<u64, Delta>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ . proof loop 0 start
//@|    proof { one_merge(old(self).data@, other.data@, vf_it0.rest(), self.data@); }
//@ fn undo_merge_delta_data
//@ . opt fornext
//@|    ensures match r { Ok(_) => all_mergeable(old(self).data@, undos(undo_data.data@)) && all_merged(old(self).data@, undos(undo_data.data@), final(self).data@), Err(_) => !all_mergeable(old(self).data@, undos(undo_data.data@)) }
//@ . loop 0
//@|    invariant forall|k: u64| #[trigger] vf_it0.rest().contains_key(k) ==> undo_data.data@.contains_key(k) && vf_it0.rest()[k] == undo_data.data@[k],
//@|        part(old(self).data@, undos(undo_data.data@), undos(vf_it0.rest()), self.data@),
//@|    ensures vf_it0.rest() == Map::<u64, DataDeltaUndo<u64>>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ . proof loop 0 start
//@|    proof { let rest = vf_it0.rest(); one_merge(old(self).data@, undos(undo_data.data@), undos(rest), self.data@); assert forall|k: u64| rest.contains_key(k) implies #[trigger] undos(rest.remove(k)) == undos(rest).remove(k) by { assert(undos(rest.remove(k)) =~= undos(rest).remove(k)); } }
//@ fn merge_delta_data_element
//@ . method clone => vf_clone
//@|    ensures match r {
//@|        Ok(u) => mergeable(lookup(old(self).data@, key), other) && u.0 == inverse(other) && final(self).data@ == old(self).data@.insert(key, merged(lookup(old(self).data@, key), other)),
//@|        Err(_) => !mergeable(lookup(old(self).data@, key), other) && final(self).data@ == old(self).data@ }
//@ fn undo_merge_delta_data_element
//@|    ensures match r {
//@|        Ok(_) => mergeable(lookup(old(self).data@, key), undo.0) && final(self).data@ == old(self).data@.insert(key, merged(lookup(old(self).data@, key), undo.0)),
//@|        Err(_) => !mergeable(lookup(old(self).data@, key), undo.0) && final(self).data@ == old(self).data@ }
//@ endimpl

/// The whole round: merge an element, then undo it with what the merge returned.
fn merge_then_undo(c: &mut DeltaDataCollection<u64, u64>, key: u64, d: Delta)
    ensures lookup(old(c).data@, key).is_some() ==> final(c).data@ =~= old(c).data@,
            forall|k: u64| k != key ==> lookup(final(c).data@, k) == lookup(old(c).data@, k),
            forall|data: Option<u64>| applies(data, lookup(final(c).data@, key)) ==> #[trigger] effect(data, lookup(final(c).data@, key)) == effect(data, lookup(old(c).data@, key))
{
    match c.merge_delta_data_element(key, d) {
        Ok(u) => { let r = c.undo_merge_delta_data_element(key, u); assert(r.is_ok()); }
        Err(_) => {}
    }
}
}
fn main() {}
