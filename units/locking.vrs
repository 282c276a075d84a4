// The transactions over a plain store (storage/core/src/adaptor/locking.rs): reads see the own changes over the committed
// state, commit applies exactly these, and nothing is applied otherwise.
use vstd::prelude::*;
//@ source L storage/core/src/adaptor/locking.rs
//@ source T storage/core/src/types.rs
//@ path sync::RwLockWriteGuard => VfGuard
//@ path sync::RwLockReadGuard => VfShared
//@ path crate::Result => VfResult
verus! {
global size_of usize == 8;
pub struct Error { code: u8 }
pub type VfResult<T> = core::result::Result<T, Error>;
pub type Data = Vec<u8>;
pub type Bytes = Seq<u8>;
/// The contents of a store: one map of byte strings per map id
pub type Maps = Seq<IMap<Bytes, Bytes>>;
/// The changes of a transaction: a value, or a deletion
pub type Changes = Seq<Map<Bytes, Option<Bytes>>>;
pub open spec fn value(v: Option<Data>) -> Option<Bytes> { match v { Some(x) => Some(x@), None => None } }
pub open spec fn find(m: IMap<Bytes, Bytes>, k: Bytes) -> Option<Bytes> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn put(m: IMap<Bytes, Bytes>, k: Bytes, v: Option<Bytes>) -> IMap<Bytes, Bytes> { match v { Some(v) => m.insert(k, v), None => m.remove(k) } }
/// What a transaction sees: its own change, else what is committed
pub open spec fn seen(m: IMap<Bytes, Bytes>, d: Map<Bytes, Option<Bytes>>) -> IMap<Bytes, Bytes> {
    IMap::new(|k: Bytes| if d.contains_key(k) { d[k] is Some } else { m.contains_key(k) }, |k: Bytes| if d.contains_key(k) { d[k]->0 } else { m[k] })
}
pub open spec fn seen_all(m: Maps, d: Changes) -> Maps { Seq::new(m.len(), |i: int| seen(m[i], d[i])) }

//@ struct T DbMapId derive Clone,Copy
//@ struct T DbMapsData
//@ impl T impl DbMapId
//@ fn new
//@|    ensures r.0 == id
//@ fn as_usize
//@|    ensures r == self.0
//@ endimpl
//@ inherent T impl<T> std::ops::Index<DbMapId> for DbMapsData<T>
//@ fn index
//@ . retype &T
//@|    requires map_id.0 < self.0@.len()
//@|    ensures *r == self.0@[map_id.0 as int]
//@ endimpl
//@ inherent T impl<T> std::ops::IndexMut<DbMapId> for DbMapsData<T>
//@ fn index_mut
//@ . retype &mut T
//@|    requires map_id.0 < old(self).0@.len()
//@|    ensures *r == old(self).0@[map_id.0 as int], final(self).0@ == old(self).0@.update(map_id.0 as int, *final(r))
//@ endimpl
//@ mono T Base

/// BTreeMap<Data, Option<Data>>
#[verifier::external_body]
pub struct DeltaMap { m: std::collections::BTreeMap<Data, Option<Data>> }
/// the entries of a map in the order of the keys
#[verifier::external_body]
pub struct DeltaIter { i: std::collections::btree_map::IntoIter<Data, Option<Data>> }
impl DeltaMap {
    pub uninterp spec fn view(&self) -> Map<Bytes, Option<Bytes>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Bytes, Option<Bytes>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Data, v: Option<Data>) -> (r: Option<Option<Data>>) ensures final(self)@ == old(self)@.insert(k@, value(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &[u8]) -> (r: Option<&Option<Data>>) ensures match r { Some(v) => self@.contains_key(k@) && value(*v) == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_iter(self) -> (r: DeltaIter) ensures entries(r.rest(), self@) { unimplemented!() }
}
pub open spec fn entries(s: Seq<(Bytes, Option<Bytes>)>, m: Map<Bytes, Option<Bytes>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i].0) && m[s[i].0] == s[i].1
    &&& forall|k: Bytes| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && s[i].0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].0 != #[trigger] s[j].0
}
impl DeltaIter {
    pub uninterp spec fn rest(&self) -> Seq<(Bytes, Option<Bytes>)>;
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<(Data, Option<Data>)>)
        ensures match r { Some(x) => old(self).rest().len() > 0 && (x.0@, value(x.1)) == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
}
/// The maps with their ids, in order
#[verifier::external_body]
pub struct MapsIter { i: std::vec::IntoIter<(DbMapId, DeltaMap)> }
impl MapsIter {
    pub uninterp spec fn rest(&self) -> Seq<DeltaMap>;
    pub uninterp spec fn next_id(&self) -> int;
    pub fn vf_iter(self) -> (r: MapsIter) ensures r == self { self }
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<(DbMapId, DeltaMap)>)
        ensures match r { Some(x) => old(self).rest().len() > 0 && x.0.0 == old(self).next_id() && x.1 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) && final(self).next_id() == old(self).next_id() + 1, None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() && final(self).next_id() == old(self).next_id() } { unimplemented!() }
}
impl DbMapsData<DeltaMap> {
    // self.0.into_iter().enumerate().map(|(i, m)| (DbMapId::new(i), m))
    #[verifier::external_body]
    pub fn into_iter_with_id(self) -> (r: MapsIter) ensures r.rest() == self.0@, r.next_id() == 0 { unimplemented!() }
}
/// The plain store under the lock
#[verifier::external_body]
pub struct Base { v: u64 }
impl Base {
    pub uninterp spec fn maps(&self) -> Maps;
    #[verifier::external_body]
    pub fn get(&self, map_id: DbMapId, key: &[u8]) -> (r: VfResult<Option<Data>>) requires map_id.0 < self.maps().len() ensures match r { Ok(v) => value(v) == find(self.maps()[map_id.0 as int], key@), Err(_) => true } { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, map_id: DbMapId, key: Data, val: Data) -> (r: VfResult<()>) requires map_id.0 < old(self).maps().len() ensures r is Ok ==> final(self).maps() == old(self).maps().update(map_id.0 as int, put(old(self).maps()[map_id.0 as int], key@, Some(val@))) { unimplemented!() }
    #[verifier::external_body]
    pub fn del(&mut self, map_id: DbMapId, key: &[u8]) -> (r: VfResult<()>) requires map_id.0 < old(self).maps().len() ensures r is Ok ==> final(self).maps() == old(self).maps().update(map_id.0 as int, put(old(self).maps()[map_id.0 as int], key@, None)) { unimplemented!() }
}
/// The write lock: exclusive access to the store
pub struct VfGuard<'tx, T> { pub v: &'tx mut T }
impl<'tx> VfGuard<'tx, Base> {
    pub fn get(&self, map_id: DbMapId, key: &[u8]) -> (r: VfResult<Option<Data>>) requires map_id.0 < old(self.v).maps().len() ensures match r { Ok(v) => value(v) == find(old(self.v).maps()[map_id.0 as int], key@), Err(_) => true } { self.v.get(map_id, key) }
    pub fn put(&mut self, map_id: DbMapId, key: Data, val: Data) -> (r: VfResult<()>) requires map_id.0 < old(self).v.maps().len()
        ensures *final(final(self).v) == *final(old(self).v), r is Ok ==> final(self).v.maps() == old(self).v.maps().update(map_id.0 as int, put(old(self).v.maps()[map_id.0 as int], key@, Some(val@))) { self.v.put(map_id, key, val) }
    pub fn del(&mut self, map_id: DbMapId, key: &[u8]) -> (r: VfResult<()>) requires map_id.0 < old(self).v.maps().len()
        ensures *final(final(self).v) == *final(old(self).v), r is Ok ==> final(self).v.maps() == old(self).v.maps().update(map_id.0 as int, put(old(self).v.maps()[map_id.0 as int], key@, None)) { self.v.del(map_id, key) }
}
//@ struct L TxRw
pub open spec fn changes(t: TxRw<Base>) -> Changes { Seq::new(t.deltas.0@.len(), |i: int| t.deltas.0@[i]@) }
//@ impl L impl<T> TxRw<'_, T>
//@ fn update
//@ . replace self.deltas[map_id] =>> self.deltas.index_mut(map_id)
//@|    requires map_id.0 < old(self).deltas.0@.len()
//@|    ensures r is Ok, changes(*final(self)) =~= changes(*old(self)).update(map_id.0 as int, changes(*old(self))[map_id.0 as int].insert(key@, value(val))), final(self).db == old(self).db
//@ endimpl
pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
pub trait VfInto<T> { fn vf_into(self) -> T; }
pub fn vf_deref(x: &Option<Data>) -> (r: Option<Data>) ensures value(r) == value(*x) { x.clone() }
pub open spec fn wellformed(t: TxRw<Base>, m: Maps) -> bool { m.len() == t.deltas.0@.len() }
//@ inherent L impl<T: ReadOps> ReadOps for TxRw<'_, T>
//@ fn get
//@ . retype VfResult<Option<Data>>
//@ . replace self.deltas[map_id] =>> self.deltas.index(map_id)
//@ . replace x.as_deref().map(|p| p.into()) =>> vf_deref(x)
//@|    requires map_id.0 < old(self.db.v).maps().len(), wellformed(*self, old(self.db.v).maps())
//@|    ensures match r { Ok(v) => value(v) == find(seen_all(old(self.db.v).maps(), changes(*self))[map_id.0 as int], key@), Err(_) => !changes(*self)[map_id.0 as int].contains_key(key@) }
//@ endimpl
//@ inherent L impl<T> WriteOps for TxRw<'_, T>
//@ fn put
//@|    requires map_id.0 < old(self).deltas.0@.len()
//@|    ensures r is Ok, changes(*final(self)) =~= changes(*old(self)).update(map_id.0 as int, changes(*old(self))[map_id.0 as int].insert(key@, Some(val@))), final(self).db == old(self).db
//@ fn del
//@|    requires map_id.0 < old(self).deltas.0@.len()
//@|    ensures r is Ok, changes(*final(self)) =~= changes(*old(self)).update(map_id.0 as int, changes(*old(self))[map_id.0 as int].insert(key@, None)), final(self).db == old(self).db
//@ endimpl
pub open spec fn left(s: Seq<(Bytes, Option<Bytes>)>, k: Bytes) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
/// the map with the changes that are no longer in `rest` made
pub open spec fn made(m: IMap<Bytes, Bytes>, d: Map<Bytes, Option<Bytes>>, rest: Seq<(Bytes, Option<Bytes>)>, now: IMap<Bytes, Bytes>) -> bool {
    forall|k: Bytes| #[trigger] find(now, k) == (if d.contains_key(k) && !left(rest, k) { d[k] } else { find(m, k) })
}
pub open spec fn made_upto(m: Maps, d: Changes, n: int, now: Maps) -> bool { now.len() == m.len() && forall|i: int| 0 <= i < m.len() ==> #[trigger] now[i] == (if i < n { seen(m[i], d[i]) } else { m[i] }) }
proof fn one_more(m: IMap<Bytes, Bytes>, d: Map<Bytes, Option<Bytes>>, s: Seq<(Bytes, Option<Bytes>)>, now: IMap<Bytes, Bytes>)
    requires s.len() > 0, made(m, d, s, now), d.contains_key(s[0].0), d[s[0].0] == s[0].1, forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].0 != #[trigger] s[j].0
    ensures made(m, d, s.skip(1), put(now, s[0].0, s[0].1))
{
    let (t, after) = (s.skip(1), put(now, s[0].0, s[0].1));
    assert forall|k: Bytes| #[trigger] find(after, k) == (if d.contains_key(k) && !left(t, k) { d[k] } else { find(m, k) }) by {
        assert(find(now, k) == (if d.contains_key(k) && !left(s, k) { d[k] } else { find(m, k) }));
        if k == s[0].0 { if left(t, k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(s[i + 1].0 == s[0].0); } }
        else {
            if left(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(t[i - 1] == s[i]); }
            if left(t, k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(s[i + 1] == t[i]); }
        }
    }
}
proof fn none_left(m: IMap<Bytes, Bytes>, d: Map<Bytes, Option<Bytes>>, s: Seq<(Bytes, Option<Bytes>)>, now: IMap<Bytes, Bytes>) requires s.len() == 0, made(m, d, s, now) ensures now == seen(m, d) {
    assert forall|k: Bytes| now.contains_key(k) == #[trigger] seen(m, d).contains_key(k) && (now.contains_key(k) ==> now[k] == seen(m, d)[k]) by { assert(find(now, k) == (if d.contains_key(k) && !left(s, k) { d[k] } else { find(m, k) })); }
    assert(now =~= seen(m, d));
}
proof fn at_first(m: IMap<Bytes, Bytes>, d: Map<Bytes, Option<Bytes>>, s: Seq<(Bytes, Option<Bytes>)>) requires entries(s, d) ensures made(m, d, s, m) { assert forall|k: Bytes| d.contains_key(k) implies left(s, k) by { let i = choose|i: int| 0 <= i < s.len() && s[i].0 == k; assert(s[i].0 == k); } }
proof fn fewer(s: Seq<(Bytes, Option<Bytes>)>, d: Map<Bytes, Option<Bytes>>) requires s.len() > 0, pending(s, d) ensures pending(s.skip(1), d) { let t = s.skip(1); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == s[i + 1] by { } }
pub open spec fn pending(s: Seq<(Bytes, Option<Bytes>)>, d: Map<Bytes, Option<Bytes>>) -> bool { (forall|i: int| 0 <= i < s.len() ==> d.contains_key(#[trigger] s[i].0) && d[s[i].0] == s[i].1) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].0 != #[trigger] s[j].0) }
//@ inherent L impl<T: ReadOps + WriteOps> backend::TxRw for TxRw<'_, T>
//@ fn commit
//@ . opt fornext
//@|    requires wellformed(self, old(self.db.v).maps())
//@|    ensures r is Ok ==> final(self.db.v).maps() =~= seen_all(old(self.db.v).maps(), changes(self))
//@ . proof start
//@|    let ghost (m0, d0, n) = (vf_self.db.v.maps(), changes(vf_self), vf_self.deltas.0@.len());
//@|    let ghost last = *final(vf_self.db.v);
//@|    proof { assert(changes(self) == d0); }
//@ . loop 0
//@|    invariant m0.len() == n, d0.len() == n, *final(vf_self.db.v) == last,
//@|        vf_it0.next_id() + vf_it0.rest().len() == n, 0 <= vf_it0.next_id(), forall|i: int| 0 <= i < vf_it0.rest().len() ==> d0[vf_it0.next_id() + i] == #[trigger] vf_it0.rest()[i]@,
//@|        made_upto(m0, d0, vf_it0.next_id(), vf_self.db.v.maps()),
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ . proof loop 0 start
//@|    let ghost (at, rest0) = (vf_it0.next_id(), vf_it0.rest());
//@|    let ghost before = vf_self.db.v.maps();
//@ . proof loop 1 before
//@|    proof { assert(kvmap == rest0[0]); assert(d0[at + 0] == rest0[0]@); at_first(m0[at], d0[at], vf_it1.rest()); assert(vf_self.db.v.maps()[at] == m0[at]); }
//@ . proof loop 1 after
//@|    proof { none_left(m0[at], d0[at], vf_it1.rest(), vf_self.db.v.maps()[at]); assert forall|i: int| 0 <= i < vf_it0.rest().len() implies d0[vf_it0.next_id() + i] == #[trigger] vf_it0.rest()[i]@ by { assert(vf_it0.rest()[i] == rest0[i + 1]); assert(d0[at + (i + 1)] == rest0[i + 1]@); } }
//@ . loop 1
//@|    invariant m0.len() == n, d0.len() == n, *final(vf_self.db.v) == last,
//@|        0 <= at < n, idx.0 == at, before.len() == n,
//@|        pending(vf_it1.rest(), d0[at]),
//@|        made(m0[at], d0[at], vf_it1.rest(), vf_self.db.v.maps()[at]), vf_self.db.v.maps() =~= before.update(at, vf_self.db.v.maps()[at]),
//@|    ensures vf_it1.rest().len() == 0
//@|    decreases vf_it1.rest().len()
//@ . proof loop 1 start
//@|    let ghost (s, now) = (vf_it1.rest(), vf_self.db.v.maps()[at]);
//@|    proof { if s.len() > 0 { assert(d0[at].contains_key(s[0].0)); one_more(m0[at], d0[at], s, now); fewer(s, d0[at]); } }
//@ endimpl

/// The store in memory is such a plain store
//@ path Map => StdMap
/// BTreeMap<Data, Data>
#[verifier::external_body]
pub struct StdMap { m: std::collections::BTreeMap<Data, Data> }
impl StdMap {
    pub uninterp spec fn view(&self) -> IMap<Bytes, Bytes>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: Data, v: Data) -> (r: Option<Data>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &[u8]) -> (r: Option<Data>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &[u8]) -> (r: Option<&Data>) ensures match r { Some(v) => find(self@, k@) == Some(v@), None => find(self@, k@) is None } { unimplemented!() }
}
//@ source M storage/inmemory/src/lib.rs
//@ path storage_core::Result => VfResult
//@ struct M StorageMaps
pub open spec fn stored(s: StorageMaps) -> Maps { Seq::new(s.0.0@.len(), |i: int| s.0.0@[i]@) }
//@ inherent M impl backend::ReadOps for StorageMaps
//@ fn get
//@ . retype VfResult<Option<Data>>
//@ . replace self.0[map_id] =>> self.0.index(map_id)
//@ . replace p.into() =>> p.clone()
//@|    requires map_id.0 < self.0.0@.len()
//@|    ensures r is Ok, value(r->Ok_0) == find(stored(*self)[map_id.0 as int], key@)
//@ endimpl
//@ inherent M impl backend::WriteOps for StorageMaps
//@ fn put
//@ . replace self.0[map_id] =>> self.0.index_mut(map_id)
//@|    requires map_id.0 < old(self).0.0@.len()
//@|    ensures r is Ok, stored(*final(self)) =~= stored(*old(self)).update(map_id.0 as int, put(stored(*old(self))[map_id.0 as int], key@, Some(val@)))
//@ fn del
//@ . replace self.0[map_id] =>> self.0.index_mut(map_id)
//@|    requires map_id.0 < old(self).0.0@.len()
//@|    ensures r is Ok, stored(*final(self)) =~= stored(*old(self)).update(map_id.0 as int, put(stored(*old(self))[map_id.0 as int], key@, None))
//@ endimpl

/// The order of byte strings, and prefixes
pub open spec fn le(a: Bytes, b: Bytes) -> bool decreases a.len() { a.len() == 0 || (b.len() > 0 && (a[0] < b[0] || (a[0] == b[0] && le(a.skip(1), b.skip(1))))) }
pub open spec fn starts(k: Bytes, p: Bytes) -> bool { p.len() <= k.len() && k.take(p.len() as int) == p }
proof fn starts_step(k: Bytes, p: Bytes) requires p.len() > 0 ensures starts(k, p) <==> (k.len() > 0 && k[0] == p[0] && starts(k.skip(1), p.skip(1))) {
    if k.len() > 0 && k[0] == p[0] && starts(k.skip(1), p.skip(1)) { assert(k.take(p.len() as int) =~= p) by { assert forall|i: int| 0 <= i < p.len() implies k[i] == p[i] by { if i > 0 { assert(k.skip(1).take(p.len() - 1)[i - 1] == p.skip(1)[i - 1]); } } } }
    if starts(k, p) { assert(k.take(p.len() as int)[0] == p[0]); assert(k.skip(1).take(p.len() - 1) =~= p.skip(1)) by { assert forall|i: int| 0 <= i < p.len() - 1 implies k.skip(1)[i] == p.skip(1)[i] by { assert(k.take(p.len() as int)[i + 1] == p[i + 1]); } } }
}
/// past the last key with a prefix there is none
proof fn past(p: Bytes, a: Bytes, b: Bytes) requires le(p, a), !starts(a, p), le(a, b) ensures !starts(b, p) decreases p.len() {
    if p.len() == 0 { assert(a.take(0) =~= p); }
    else {
        starts_step(a, p); starts_step(b, p);
        if a[0] == p[0] && b[0] == a[0] { past(p.skip(1), a.skip(1), b.skip(1)); }
    }
}
proof fn starts_le(k: Bytes, p: Bytes) requires starts(k, p) ensures le(p, k) decreases p.len() { if p.len() > 0 { starts_step(k, p); starts_le(k.skip(1), p.skip(1)); } }
//@ source U storage/core/src/util.rs
//@ path std::collections::btree_map::Range => VfRange
//@ path BTreeMap => VfTree
//@ mono T u64
/// The entries of a map in the order of their keys
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(T)]
pub struct VfRange<'m, K, T> { r: std::collections::btree_map::Range<'m, K, T> }
impl<'m> VfRange<'m, Data, u64> {
    pub uninterp spec fn rest(&self) -> Seq<(Bytes, u64)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'m Data, &'m u64)>)
        ensures match r { Some(x) => old(self).rest().len() > 0 && (x.0@, *x.1) == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
}
pub open spec fn sorted(s: Seq<(Bytes, u64)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le(#[trigger] s[i].0, #[trigger] s[j].0) }
pub open spec fn entry_map(s: Seq<(Bytes, u64)>, p: Bytes, m: IMap<Bytes, u64>) -> bool {
    &&& sorted(s)
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i].0) && m[s[i].0] == s[i].1 && le(p, s[i].0)
    &&& forall|k: Bytes| #[trigger] m.contains_key(k) && le(p, k) ==> exists|i: int| 0 <= i < s.len() && s[i].0 == k
}
/// BTreeMap<Data, T>
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(T)]
pub struct VfTree<K, T> { m: std::collections::BTreeMap<K, T> }
impl VfTree<Data, u64> {
    pub uninterp spec fn view(&self) -> IMap<Bytes, u64>;
    #[verifier::external_body]
    pub fn range<'m>(&'m self, r: SliceRange<'_, u8>) -> (i: VfRange<'m, Data, u64>) requires r.end is Unbounded, r.start is Included ensures match r.start { std::ops::Bound::Included(x) => entry_map(i.rest(), x@, self@), _ => false } { unimplemented!() }
}
pub fn vf_starts(k: &Data, p: &Data) -> (r: bool) ensures r == starts(k@, p@) {
    if p.len() > k.len() { return false; }
    for i in 0..p.len() invariant p.len() <= k.len(), forall|j: int| 0 <= j < i ==> p@[j] == k@[j] { if p[i] != k[i] { assert(k@.take(p@.len() as int)[i as int] != p@[i as int]); return false; } }
    assert(k@.take(p@.len() as int) =~= p@);
    true
}
//@ struct U SliceRange
//@ struct U MapPrefixIter
/// what is left of the entries with the prefix: all of the map from here on
pub open spec fn left_ok(s: Seq<(Bytes, u64)>, p: Bytes) -> bool { sorted(s) && forall|i: int| 0 <= i < s.len() ==> le(p, #[trigger] s[i].0) }
//@ impl U impl<'m, T> MapPrefixIter<'m, T>
//@ fn new
//@|    ensures r.prefix@ == prefix@, entry_map(r.inner.rest(), prefix@, map@), left_ok(r.inner.rest(), prefix@)
//@ endimpl
//@ inherent U impl<'m, T> Iterator for MapPrefixIter<'m, T>
//@ fn next
//@ . retype Option<(&'m Data, &'m u64)>
//@ . replace k.starts_with(&self.prefix[..]) =>> vf_starts(k, &self.prefix)
//@|    requires left_ok(old(self).inner.rest(), old(self).prefix@)
//@|    ensures final(self).prefix == old(self).prefix, left_ok(final(self).inner.rest(), old(self).prefix@),
//@|        match r { Some(x) => starts(x.0@, old(self).prefix@) && old(self).inner.rest().len() > 0 && (x.0@, *x.1) == old(self).inner.rest()[0] && final(self).inner.rest() == old(self).inner.rest().skip(1),
//@|            None => forall|i: int| 0 <= i < old(self).inner.rest().len() ==> !starts(#[trigger] old(self).inner.rest()[i].0, old(self).prefix@) }
//@ . proof start
//@|    proof { let (s, p) = (old(self).inner.rest(), old(self).prefix@); if s.len() > 0 && !starts(s[0].0, p) { assert forall|i: int| 0 <= i < s.len() implies !starts(#[trigger] s[i].0, p) by { if i > 0 { past(p, s[0].0, s[i].0); } } } }
//@ endimpl
}
fn main() {}
