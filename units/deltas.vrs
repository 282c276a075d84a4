// Contracts of the delta collections of the crate `accounting`: those proved of its code in the units delta (C09) and
// deltaamount (C10), with the maps as functions of the key.
pub struct AccError { code: u8 }
pub open spec fn fits(x: int) -> bool { i128::MIN <= x <= i128::MAX }
#[verifier::external_body]
pub fn combine_amount_delta(lhs: Amount, rhs: Option<SignedAmount>) -> (r: core::result::Result<Amount, AccError>)
    ensures match r {
        Ok(x) => x.atoms == lhs.atoms + (match rhs { Some(d) => d.val as int, None => 0 }) && (rhs is Some ==> lhs.atoms <= i128::MAX),
        Err(_) => rhs.is_some() && !(lhs.atoms <= i128::MAX && fits(lhs.atoms + rhs.unwrap().val) && lhs.atoms + rhs.unwrap().val >= 0) } { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct DeltaAmountCollection<K> { k: Vec<K> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct AmountMap<K> { k: Vec<K> }
impl<K> AmountMap<K> {
    pub uninterp spec fn of(&self, k: K) -> int;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&SignedAmount>) ensures match r { Some(x) => x.val == self.of(*k), None => self.of(*k) == 0 } { unimplemented!() }
}
pub fn vf_cloned(x: Option<&SignedAmount>) -> (r: Option<SignedAmount>) ensures r == (match x { Some(x) => Some(*x), None => None }) { match x { Some(x) => Some(SignedAmount { val: x.val }), None => None } }
pub open spec fn moved<K>(a: DeltaAmountCollection<K>, b: DeltaAmountCollection<K>, k: K, v: int) -> bool { forall|j: K| #[trigger] b.of(j) == (if j == k { a.of(j) + v } else { a.of(j) }) }
impl<K> DeltaAmountCollection<K> {
    pub uninterp spec fn of(&self, k: K) -> int;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|k: K| #[trigger] r.of(k) == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn data(&self) -> (r: &AmountMap<K>) ensures forall|k: K| #[trigger] r.of(k) == self.of(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_unsigned(&mut self, id: K, to_add: Amount) -> (r: core::result::Result<(), AccError>)
        ensures match r { Ok(_) => moved(*old(self), *final(self), id, to_add.atoms as int), Err(_) => (to_add.atoms > i128::MAX || !fits(old(self).of(id) + to_add.atoms)) && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body]
    pub fn sub_unsigned(&mut self, id: K, to_sub: Amount) -> (r: core::result::Result<(), AccError>)
        ensures match r { Ok(_) => moved(*old(self), *final(self), id, -(to_sub.atoms as int)), Err(_) => (to_sub.atoms > i128::MAX || !fits(old(self).of(id) - to_sub.atoms)) && *final(self) == *old(self) } { unimplemented!() }
}
impl<K> DeltaAmountCollection<K> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn merge_delta_amounts(&mut self, delta_to_apply: Self) -> (r: core::result::Result<(), AccError>)
        ensures r is Ok ==> forall|k: K| #[trigger] final(self).of(k) == old(self).of(k) + delta_to_apply.of(k), r is Ok <==> forall|k: K| fits(#[trigger] old(self).of(k) + delta_to_apply.of(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn undo_merge_delta_amounts(&mut self, delta_to_remove: Self) -> (r: core::result::Result<(), AccError>)
        ensures r is Ok ==> forall|k: K| #[trigger] final(self).of(k) == old(self).of(k) - delta_to_remove.of(k) { unimplemented!() }
}
pub struct DataDelta<T> { pub old: Option<T>, pub new: Option<T> }
impl<T> DataDelta<T> { pub fn new(old: Option<T>, new: Option<T>) -> (r: Self) ensures r.old == old, r.new == new { DataDelta { old, new } } }
pub struct DataDeltaUndo<T>(pub DataDelta<T>);
pub enum GetDataResult<T> { Present(T), Deleted, Missing }
pub open spec fn mergeable<T>(cur: Option<DataDelta<T>>, d: DataDelta<T>) -> bool { match cur { Some(c) => c.new == d.old, None => true } }
pub open spec fn merged<T>(cur: Option<DataDelta<T>>, d: DataDelta<T>) -> DataDelta<T> { match cur { Some(c) => DataDelta { old: c.old, new: d.new }, None => d } }
pub open spec fn inverse<T>(d: DataDelta<T>) -> DataDelta<T> { DataDelta { old: d.new, new: d.old } }
/// the data of a key, over those of the parent
pub open spec fn effect<T>(parent: Option<T>, d: Option<DataDelta<T>>) -> Option<T> { match d { Some(x) => x.new, None => parent } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
pub struct DeltaDataCollection<K, T> { k: Vec<(K, T)> }
pub open spec fn set<K, T>(a: DeltaDataCollection<K, T>, b: DeltaDataCollection<K, T>, k: K, d: DataDelta<T>) -> bool { forall|j: K| #[trigger] b.of(j) == (if j == k { Some(merged(a.of(j), d)) } else { a.of(j) }) }
impl<K, T> DeltaDataCollection<K, T> {
    pub uninterp spec fn of(&self, k: K) -> Option<DataDelta<T>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|k: K| #[trigger] r.of(k) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn get_data(&self, key: &K) -> (r: GetDataResult<&T>) ensures match r {
        GetDataResult::Missing => self.of(*key) is None,
        GetDataResult::Deleted => self.of(*key) is Some && self.of(*key)->0.new is None,
        GetDataResult::Present(d) => self.of(*key) is Some && self.of(*key)->0.new == Some(*d) } { unimplemented!() }
    #[verifier::external_body]
    pub fn merge_delta_data_element(&mut self, key: K, other: DataDelta<T>) -> (r: core::result::Result<DataDeltaUndo<T>, AccError>) ensures match r {
        Ok(u) => mergeable(old(self).of(key), other) && u.0 == inverse(other) && set(*old(self), *final(self), key, other),
        Err(_) => !mergeable(old(self).of(key), other) && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body]
    pub fn undo_merge_delta_data_element(&mut self, key: K, undo: DataDeltaUndo<T>) -> (r: core::result::Result<(), AccError>) ensures match r {
        Ok(_) => mergeable(old(self).of(key), undo.0) && set(*old(self), *final(self), key, undo.0),
        Err(_) => !mergeable(old(self).of(key), undo.0) && *final(self) == *old(self) } { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
pub struct DeltaDataUndoCollection<K, T> { k: Vec<(K, T)> }
impl<K, T> DeltaDataUndoCollection<K, T> {
    pub uninterp spec fn of(&self, k: K) -> Option<DataDelta<T>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|k: K| #[trigger] r.of(k) is None { unimplemented!() }
}
pub open spec fn all_merged<K, T>(a: DeltaDataCollection<K, T>, d: spec_fn(K) -> Option<DataDelta<T>>, b: DeltaDataCollection<K, T>) -> bool {
    forall|k: K| #[trigger] b.of(k) == (match d(k) { Some(x) => Some(merged(a.of(k), x)), None => a.of(k) }) && (d(k) is Some ==> mergeable(a.of(k), d(k)->0))
}
impl<K, T> DeltaDataCollection<K, T> {
    #[verifier::external_body]
    pub fn merge_delta_data(&mut self, other: Self) -> (r: core::result::Result<DeltaDataUndoCollection<K, T>, AccError>) ensures
        r matches Ok(u) ==> all_merged(*old(self), |k: K| other.of(k), *final(self)) && (forall|k: K| #[trigger] u.of(k) == (match other.of(k) { Some(d) => Some(inverse(d)), None => None })) { unimplemented!() }
    #[verifier::external_body]
    pub fn undo_merge_delta_data(&mut self, undo: DeltaDataUndoCollection<K, T>) -> (r: core::result::Result<(), AccError>) ensures
        r is Ok ==> all_merged(*old(self), |k: K| undo.of(k), *final(self)) { unimplemented!() }
}
/// std's map: a finite map, iterated over each entry once
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<(K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapIter<K, V> { k: Vec<(K, V)> }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn map(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_iter(self) -> (r: MapIter<K, V>) ensures r.rest() == self.map() { unimplemented!() }
}
impl<K, V> MapIter<K, V> {
    pub uninterp spec fn rest(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<(K, V)>)
        ensures match r { Some(x) => old(self).rest().contains_key(x.0) && x.1 == old(self).rest()[x.0] && final(self).rest() == old(self).rest().remove(x.0) && old(self).rest().dom().len() > 0, None => old(self).rest() == Map::<K, V>::empty() && final(self).rest() == old(self).rest() } { unimplemented!() }
}
impl<T> DataDelta<T> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub fn invert(self) -> (r: DataDeltaUndo<T>) ensures r.0 == inverse(self) { DataDeltaUndo(DataDelta { old: self.new, new: self.old }) }
}
impl<T> DataDeltaUndo<T> { pub fn consume(self) -> (r: DataDelta<T>) ensures r == self.0 { self.0 } }
#[verifier::external_body]
pub fn combine_data_with_delta<T>(lhs: Option<T>, rhs: Option<DataDelta<T>>) -> (r: core::result::Result<Option<T>, AccError>)
    ensures match r { Ok(x) => x == effect(lhs, rhs) && (rhs is Some ==> lhs == rhs->0.old), Err(_) => rhs is Some && lhs != rhs->0.old } { unimplemented!() }
impl<K, T> DeltaDataCollection<K, T> {
    #[verifier::external_body]
    pub fn consume(self) -> (r: BTreeMap<K, DataDelta<T>>) ensures forall|k: K| (#[trigger] self.of(k)) == (if r.map().contains_key(k) { Some(r.map()[k]) } else { None }) { unimplemented!() }
}
impl<K, T> DeltaDataUndoCollection<K, T> {
    #[verifier::external_body]
    pub fn from_data(m: BTreeMap<K, DataDeltaUndo<T>>) -> (r: Self) ensures forall|k: K| #[trigger] r.of(k) == (if m.map().contains_key(k) { Some(m.map()[k].0) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn consume(self) -> (r: BTreeMap<K, DataDeltaUndo<T>>) ensures forall|k: K| (#[trigger] self.of(k)) == (if r.map().contains_key(k) { Some(r.map()[k].0) } else { None }) { unimplemented!() }
}
/// the sum held for a key: absent means none
pub open spec fn sum_of<K>(m: Map<K, SignedAmount>, k: K) -> int { if m.contains_key(k) { m[k].val as int } else { 0 } }
impl<K> DeltaAmountCollection<K> {
    #[verifier::external_body]
    pub fn consume(self) -> (r: BTreeMap<K, SignedAmount>) ensures forall|k: K| (#[trigger] self.of(k)) == sum_of(r.map(), k) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter(m: BTreeMap<K, SignedAmount>) -> (r: Self) ensures forall|k: K| #[trigger] r.of(k) == sum_of(m.map(), k) { unimplemented!() }
}
