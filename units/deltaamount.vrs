// Amounts changed by signed deltas: combining, merging and undoing, for all amounts and all collections.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::ops::Neg;
use std::collections::BTreeMap;
use vstd::std_specs::btree::*;
verus! {
//@ include amount.vrs
//@ source C accounting/src/delta/combine.rs
//@ source M accounting/src/delta/delta_amount_collection.rs
//@ source E accounting/src/error.rs
//@ mono K u64
//@ enum E Error
//@ struct M DeltaAmountCollection

pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
impl SignedAmount { pub const ZERO: Self = SignedAmount { val: 0 }; }
/// The delta held for a key: absent means none
pub open spec fn delta_of(m: Map<u64, SignedAmount>, k: u64) -> int { if m.contains_key(k) { m[k].val as int } else { 0 } }
pub open spec fn put(m: Map<u64, SignedAmount>, k: u64, v: int) -> Map<u64, SignedAmount> { if v == 0 { m.remove(k) } else { m.insert(k, SignedAmount { val: v as i128 }) } }
pub open spec fn fits(x: int) -> bool { i128::MIN <= x <= i128::MAX }

/// The entries of a map that is consumed: each once, in some order
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct MapIter<V> { i: std::collections::btree_map::IntoIter<u64, V> }
impl<V> MapIter<V> {
    pub uninterp spec fn rest(&self) -> Map<u64, V>;
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<(u64, V)>)
        ensures match r { Some(x) => old(self).rest().contains_key(x.0) && x.1 == old(self).rest()[x.0] && final(self).rest() == old(self).rest().remove(x.0) && old(self).rest().dom().len() > 0, None => old(self).rest() == Map::<u64, V>::empty() && final(self).rest() == old(self).rest() } { unimplemented!() }
}
pub trait VfMapIter<V>: Sized { spec fn map(&self) -> Map<u64, V>; fn vf_iter(self) -> (r: MapIter<V>) ensures r.rest() == self.map(); }
impl<V> VfMapIter<V> for BTreeMap<u64, V> {
    open spec fn map(&self) -> Map<u64, V> { self@ }
    #[verifier::external_body]
    fn vf_iter(self) -> (r: MapIter<V>) { unimplemented!() }
}
/// the collection with the changes that are no longer in `rest` made; `sign` is -1 for an undo
pub open spec fn part(a: Map<u64, SignedAmount>, b: Map<u64, SignedAmount>, rest: Map<u64, SignedAmount>, now: Map<u64, SignedAmount>, sign: int) -> bool {
    &&& forall|k: u64| #[trigger] rest.contains_key(k) ==> b.contains_key(k) && rest[k] == b[k]
    &&& forall|k: u64| #[trigger] delta_of(now, k) == (if b.contains_key(k) && !rest.contains_key(k) { delta_of(a, k) + sign * b[k].val } else { delta_of(a, k) })
    &&& forall|k: u64| #[trigger] b.contains_key(k) && !rest.contains_key(k) ==> fits(sign * b[k].val) && fits(delta_of(a, k) + sign * b[k].val)
    &&& no_zero(a) ==> no_zero(now)
}
pub open spec fn all_fit(a: Map<u64, SignedAmount>, b: Map<u64, SignedAmount>, sign: int) -> bool { forall|k: u64| #[trigger] b.contains_key(k) ==> fits(sign * b[k].val) && fits(delta_of(a, k) + sign * b[k].val) }
pub open spec fn summed(a: Map<u64, SignedAmount>, b: Map<u64, SignedAmount>, c: Map<u64, SignedAmount>, sign: int) -> bool { (forall|k: u64| #[trigger] delta_of(c, k) == delta_of(a, k) + sign * delta_of(b, k)) && (no_zero(a) ==> no_zero(c)) }
proof fn one_merge(a: Map<u64, SignedAmount>, b: Map<u64, SignedAmount>, rest: Map<u64, SignedAmount>, now: Map<u64, SignedAmount>, sign: int)
    requires part(a, b, rest, now, sign), sign == 1 || sign == -1
    ensures forall|k: u64| #[trigger] rest.contains_key(k) ==> delta_of(now, k) == delta_of(a, k) && ({ let x = sign * b[k].val;
        if fits(x) && fits(delta_of(now, k) + x) { part(a, b, rest.remove(k), put(now, k, delta_of(now, k) + x), sign) } else { !all_fit(a, b, sign) } })
{
    assert forall|k: u64| #[trigger] rest.contains_key(k) implies delta_of(now, k) == delta_of(a, k) && ({ let x = sign * b[k].val;
        if fits(x) && fits(delta_of(now, k) + x) { part(a, b, rest.remove(k), put(now, k, delta_of(now, k) + x), sign) } else { !all_fit(a, b, sign) } }) by {
        assert(delta_of(now, k) == delta_of(a, k));
        let x = sign * b[k].val;
        let (rest1, now1) = (rest.remove(k), put(now, k, delta_of(now, k) + x));
        if fits(x) && fits(delta_of(now, k) + x) {
            assert forall|j: u64| #[trigger] delta_of(now1, j) == (if b.contains_key(j) && !rest1.contains_key(j) { delta_of(a, j) + sign * b[j].val } else { delta_of(a, j) }) by { assert(delta_of(now, j) == (if b.contains_key(j) && !rest.contains_key(j) { delta_of(a, j) + sign * b[j].val } else { delta_of(a, j) })); }
            if no_zero(now) { put_keeps_no_zero(now, k, delta_of(now, k) + x); }
        }
    }
}
proof fn all_made(a: Map<u64, SignedAmount>, b: Map<u64, SignedAmount>, now: Map<u64, SignedAmount>, sign: int)
    requires part(a, b, Map::<u64, SignedAmount>::empty(), now, sign)
    ensures summed(a, b, now, sign), all_fit(a, b, sign)
{
    assert forall|k: u64| #[trigger] delta_of(now, k) == delta_of(a, k) + sign * delta_of(b, k) by { assert(sign * 0 == 0); }
}
//@ fn C combine_amount_delta
//@|    ensures match r {
//@|        Ok(x) => x.atoms == lhs.atoms + (match rhs { Some(d) => d.val as int, None => 0 }) && (rhs is Some ==> lhs.atoms <= i128::MAX),
//@|        Err(_) => rhs.is_some() && !(lhs.atoms <= i128::MAX && fits(lhs.atoms + rhs.unwrap().val) && lhs.atoms + rhs.unwrap().val >= 0) }
//@ impl M impl<K: Ord> DeltaAmountCollection<K>
//@ fn new
//@|    ensures r.data@ == Map::<u64, SignedAmount>::empty()
//@ fn combine_signed_amount_delta
//@|    ensures ({ let l = match *lhs { Some(x) => x.val as int, None => 0 };
//@|        match r { Ok(x) => x.val == l + rhs.val, Err(_) => !fits(l + rhs.val) } })
//@ fn merge_delta_amounts
//@ . opt fornext
//@|    ensures match r { Ok(_) => summed(old(self).data@, delta_to_apply.data@, final(self).data@, 1) && all_fit(old(self).data@, delta_to_apply.data@, 1), Err(_) => !all_fit(old(self).data@, delta_to_apply.data@, 1) }
//@ . loop 0
//@|    invariant part(old(self).data@, delta_to_apply.data@, vf_it0.rest(), self.data@, 1)
//@|    ensures vf_it0.rest() == Map::<u64, SignedAmount>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ . proof loop 0 start
//@|    proof { one_merge(old(self).data@, delta_to_apply.data@, vf_it0.rest(), self.data@, 1); }
//@ . proof loop 0 after
//@|    proof { all_made(old(self).data@, delta_to_apply.data@, self.data@, 1); }
//@ fn undo_merge_delta_amounts
//@ . opt fornext
//@|    ensures match r { Ok(_) => summed(old(self).data@, delta_to_remove.data@, final(self).data@, -1) && all_fit(old(self).data@, delta_to_remove.data@, -1), Err(_) => !all_fit(old(self).data@, delta_to_remove.data@, -1) }
//@ . loop 0
//@|    invariant part(old(self).data@, delta_to_remove.data@, vf_it0.rest(), self.data@, -1)
//@|    ensures vf_it0.rest() == Map::<u64, SignedAmount>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ . proof loop 0 start
//@|    proof { one_merge(old(self).data@, delta_to_remove.data@, vf_it0.rest(), self.data@, -1); }
//@ . proof loop 0 after
//@|    proof { all_made(old(self).data@, delta_to_remove.data@, self.data@, -1); }
//@ fn merge_delta_amount_element
//@|    ensures ({ let s = delta_of(old(self).data@, key) + other_amount.val;
//@|        match r { Ok(_) => fits(s) && final(self).data@ =~= put(old(self).data@, key, s), Err(_) => !fits(s) && final(self).data@ == old(self).data@ } })
//@ fn add_unsigned
//@|    ensures ({ let s = delta_of(old(self).data@, id) + to_add.atoms;
//@|        match r { Ok(_) => final(self).data@ =~= put(old(self).data@, id, s), Err(_) => (to_add.atoms > i128::MAX || !fits(s)) && final(self).data@ == old(self).data@ } })
//@ fn sub_unsigned
//@|    ensures ({ let s = delta_of(old(self).data@, id) - to_sub.atoms;
//@|        match r { Ok(_) => final(self).data@ =~= put(old(self).data@, id, s), Err(_) => (to_sub.atoms > i128::MAX || !fits(s)) && final(self).data@ == old(self).data@ } })
//@ fn data
//@|    ensures *r == self.data
//@ fn consume
//@|    ensures r == self.data
//@ endimpl

/// No entry is kept for a delta of zero, if none was there before.
pub open spec fn no_zero(m: Map<u64, SignedAmount>) -> bool { forall|k: u64| m.contains_key(k) ==> #[trigger] m[k].val != 0 }
proof fn put_keeps_no_zero(m: Map<u64, SignedAmount>, k: u64, v: int)
    requires no_zero(m), fits(v)
    ensures no_zero(put(m, k, v)), delta_of(put(m, k, v), k) == v, forall|j: u64| j != k ==> delta_of(put(m, k, v), j) == delta_of(m, j)
{}
/// An element merged and then merged with the sign changed leaves the collection as it was.
proof fn merge_then_undo(m: Map<u64, SignedAmount>, k: u64, d: int)
    requires no_zero(m), fits(d), fits(-d), fits(delta_of(m, k) + d)
    ensures put(put(m, k, delta_of(m, k) + d), k, delta_of(put(m, k, delta_of(m, k) + d), k) - d) =~= m
{}
} // verus!
fn main() {}
