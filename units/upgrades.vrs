// Which rules are in force at which height.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::ops::{Add, Sub, Range};
//@ source N common/src/chain/upgrades/netupgrade.rs
//@ source U common/src/chain/upgrades/consensus_upgrade.rs
verus! {
//@ include height.vrs
/// std's sort and iterators over slices
pub trait VfVec<T> { spec fn all(&self) -> Seq<(BlockHeight, T)>; fn vf_sort(&mut self) ensures final(self).all().to_multiset() == old(self).all().to_multiset(), sorted(final(self).all()); }
impl<T> VfVec<T> for Vec<(BlockHeight, T)> { open spec fn all(&self) -> Seq<(BlockHeight, T)> { self@ } #[verifier::external_body] fn vf_sort(&mut self) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T> { k: &'a [T] }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceEnum<'a, T> { k: &'a [T] }
pub trait VfSlice<T> { spec fn seq(&self) -> Seq<T>; fn vf_iter(&self) -> (r: SliceIter<'_, T>) ensures r.rest() == self.seq(); }
impl<T> VfSlice<T> for Vec<T> { open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_iter(&self) -> (r: SliceIter<'_, T>) { unimplemented!() } }
impl<'a, T> SliceIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    pub fn vf_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn rev(self) -> (r: Self) ensures r.rest() == self.rest().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: SliceEnum<'a, T>) ensures r.rest() == self.rest(), r.at() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<&'a T>) ensures match r { Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
}
impl<'a, T> SliceEnum<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    pub uninterp spec fn at(&self) -> int;
    pub fn vf_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<(usize, &'a T)>) ensures match r { Some(x) => old(self).rest().len() > 0 && *x.1 == old(self).rest()[0] && x.0 == old(self).at() && final(self).at() == old(self).at() + 1 && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && *final(self) == *old(self) } { unimplemented!() }
}
pub open spec fn sorted<T>(s: Seq<(BlockHeight, T)>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).0.0 <= (#[trigger] s[j]).0.0 }
/// the upgrades in order, from genesis on
pub open spec fn wf<T>(n: NetUpgrades<T>) -> bool { n.0@.len() > 0 && n.0@[0].0.0 == 0 && sorted(n.0@) }
proof fn same_items<T>(s: Seq<T>, t: Seq<T>)
    requires s.to_multiset() == t.to_multiset()
    ensures s.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] s.contains(t[i]), forall|i: int| 0 <= i < s.len() ==> t.contains(#[trigger] s[i])
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] s.contains(t[i]) by { assert(t.contains(t[i])); assert(t.to_multiset().count(t[i]) > 0); }
    assert forall|i: int| 0 <= i < s.len() implies t.contains(#[trigger] s[i]) by { assert(s.contains(s[i])); assert(s.to_multiset().count(s[i]) > 0); }
}
//@ struct N NetUpgrades
//@ enum N NetUpgradesInitializeError
pub open spec fn first_of<T: PartialEq>(s: Seq<(BlockHeight, T)>, v: T, i: int) -> bool { s[i].1.eq_spec(&v) && forall|j: int| 0 <= j < i ==> !(#[trigger] s[j]).1.eq_spec(&v) }
pub open spec fn latest<T>(s: Seq<(BlockHeight, T)>, h: BlockHeight, r: Option<&(BlockHeight, T)>) -> bool { r matches Some(x) && s.contains(*x) && x.0.0 <= h.0 && (forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.0 <= h.0 ==> s[j].0.0 <= x.0.0) }
pub open spec fn found<T: PartialEq>(s: Seq<(BlockHeight, T)>, v: T, r: Option<(usize, &(BlockHeight, T))>) -> bool { match r { Some(x) => 0 <= x.0 < s.len() && *x.1 == s[x.0 as int] && first_of(s, v, x.0 as int), None => forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).1.eq_spec(&v) } }
//@ impl N impl<T: Ord> NetUpgrades<T>
//@ fn initialize
//@ . opt refpats
//@ . method sort_unstable => vf_sort
//@|    ensures match r { Ok(n) => wf(n) && n.0@.to_multiset() == upgrades@.to_multiset(), Err(NetUpgradesInitializeError::NoUpgrades) => upgrades@.len() == 0, Err(NetUpgradesInitializeError::FirstUpgradeNotAtGenesis) => upgrades@.len() > 0 && forall|i: int| 0 <= i < upgrades@.len() ==> (#[trigger] upgrades@[i]).0.0 != 0 }
//@ . proof start
//@|    let ghost given = upgrades@;
//@|    proof { assert forall|s: Seq<(BlockHeight, T)>| #[trigger] s.to_multiset() == given.to_multiset() && sorted(s) implies s.len() == given.len() && (forall|i: int| 0 <= i < given.len() ==> s[0].0.0 <= (#[trigger] given[i]).0.0) by {
//@|        same_items(s, given);
//@|        assert forall|i: int| 0 <= i < given.len() implies s[0].0.0 <= (#[trigger] given[i]).0.0 by { let k = choose|k: int| 0 <= k < s.len() && s[k] == given[i]; assert(s.contains(given[i])); assert(s[0].0.0 <= s[k].0.0); }
//@|    } }
//@ fn version_at_height
//@ . opt fornext eager refpats
//@ . method iter => vf_iter
//@|    requires wf(*self)
//@|    ensures self.0@.contains(*r), r.0.0 <= height.0, forall|j: int| 0 <= j < self.0@.len() && (#[trigger] self.0@[j]).0.0 <= height.0 ==> self.0@[j].0.0 <= r.0.0
//@ . proof start
//@|    let ghost s = self.0@;
//@|    let ghost mut i: int = s.len() as int;
//@ . loop 0
//@|    invariant_except_break vf_it0.rest() == s.take(i).reverse(), vf_r is None
//@|    invariant s == self.0@, wf(*self), 0 < i <= s.len(), forall|j: int| i <= j < s.len() ==> (#[trigger] s[j]).0.0 > height.0
//@|    ensures latest(s, height, vf_r)
//@|    decreases i
//@ . proof loop 0 start
//@|    proof { assert(vf_it0.rest().len() == i); assert(vf_it0.rest()[0] == s[i - 1]); assert(s.contains(s[i - 1])); }
//@ . proof loop 0 end
//@|    proof { assert(i > 1) by { if i == 1 { assert(s[0].0.0 == 0); } } assert(vf_it0.rest() =~= s.take(i - 1).reverse()); i = i - 1; }
//@ fn height_range
//@ . opt fornext eager refpats
//@ . method iter => vf_iter
//@|    requires wf(*self), self.0@.len() < usize::MAX, T::obeys_eq_spec()
//@|    ensures match r { Some(x) => exists|i: int| 0 <= i < self.0@.len() && first_of(self.0@, *version, i) && x.start == self.0@[i].0 && x.end.0 == (if i + 1 < self.0@.len() { self.0@[i + 1].0.0 } else { u64::MAX }), None => forall|i: int| 0 <= i < self.0@.len() ==> !(#[trigger] self.0@[i]).1.eq_spec(version) }
//@ . proof start
//@|    let ghost s = self.0@;
//@|    let ghost mut i: int = 0;
//@ . loop 0
//@|    invariant_except_break vf_it0.rest() == s.skip(i), vf_it0.at() == i, vf_r is None
//@|    invariant s == self.0@, T::obeys_eq_spec(), 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> !(#[trigger] s[j]).1.eq_spec(version)
//@|    ensures found(s, *version, vf_r)
//@|    decreases s.len() - i
//@ . proof loop 0 start
//@|    proof { assert(vf_it0.rest().len() == s.len() - i); if i < s.len() { assert(vf_it0.rest()[0] == s[i]); } }
//@ . proof loop 0 end
//@|    proof { assert(vf_it0.rest() =~= s.skip(i + 1)); i = i + 1; }
//@ fn all_upgrades
//@|    ensures r@ == self.0@
//@ fn len
//@|    ensures r == self.0@.len()
//@ fn is_empty
//@|    ensures r == (self.0@.len() == 0)
//@ endimpl
pub struct Compact(pub u32);
#[verifier::external_body] pub struct PoSChainConfig { c: u64 }
impl PoSChainConfig { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Compact { }
impl Clone for Compact { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
//@ enum U ConsensusUpgrade
// (their order among themselves is not looked into)
impl core::cmp::PartialEq for ConsensusUpgrade { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl core::cmp::Eq for ConsensusUpgrade { }
impl core::cmp::PartialOrd for ConsensusUpgrade { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl core::cmp::Ord for ConsensusUpgrade { #[verifier::external_body] fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
//@ enum U RequiredConsensus
//@ enum U PoWStatus
//@ enum U PoSStatus
/// the first block under new rules takes the upgrade's target, the later ones compute theirs
pub open spec fn required(u: (BlockHeight, ConsensusUpgrade), h: BlockHeight) -> RequiredConsensus {
    match u.1 {
        ConsensusUpgrade::PoW { initial_difficulty } => RequiredConsensus::PoW(if u.0 == h { PoWStatus::Threshold { initial_difficulty } } else { PoWStatus::Ongoing }),
        ConsensusUpgrade::PoS { initial_difficulty, config } => RequiredConsensus::PoS(if u.0 == h { PoSStatus::Threshold { initial_difficulty, config } } else { PoSStatus::Ongoing(config) }),
        ConsensusUpgrade::IgnoreConsensus => RequiredConsensus::IgnoreConsensus,
    }
}
//@ impl U impl NetUpgrades<ConsensusUpgrade>
//@ fn consensus_status
//@|    requires wf(*self)
//@|    ensures exists|i: int| 0 <= i < self.0@.len() && latest(self.0@, height, Some(&#[trigger] self.0@[i])) && r == required(self.0@[i], height)
//@ . replace debug_assert_eq!(*last_upgrade_height, height) =>>
//@ endimpl
//@ impl U impl PoSStatus
//@ fn get_chain_config
//@|    ensures match *self { PoSStatus::Ongoing(c) => *r == c, PoSStatus::Threshold { initial_difficulty, config } => *r == config }
//@ endimpl
//@ impl U impl From<ConsensusUpgrade> for RequiredConsensus
//@ fn from
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<ConsensusUpgrade> for RequiredConsensus { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(u: ConsensusUpgrade) -> RequiredConsensus { required((BlockHeight(0), u), BlockHeight(0)) } }
}
fn main() {}
