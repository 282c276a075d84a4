// What a block pays: split between the staker and the delegations, to the last atom.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
//@ source RD chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs
//@ source RP common/src/primitives/per_thousand.rs
//@ source RV common/src/chain/upgrades/chainstate_upgrade/mod.rs
//@ source RQ pos-accounting/src/pool/pool_data.rs
//@ source RE pos-accounting/src/error.rs
//@ path pos_accounting::Error => PosError
//@ path AmountUIntType => u128
//@ path crate::Error => PosError
//@ path Error => PosError
verus! {
//@ include word.vrs
//@ include wides.vrs
//@ include lists.vrs
pub type PoolId = u64;
pub type DelegationId = u64;
#[derive(Clone, Copy)]
pub struct Block { }
#[derive(Clone, Copy)]
pub struct Id<T> { pub i: u64, pub t: T }
#[verifier::external_body]
pub struct Destination { d: u64 }
#[verifier::external_body]
pub struct VRFPublicKey { d: u64 }
// (its other variants: what the state says no with)
pub enum PosError { StakerBalanceOverflow, Other(u64) }
//@ const RP DENOMINATOR ensures DENOMINATOR == 1000
//@ struct RP PerThousand derive Clone,Copy
//@ impl RP impl PerThousand
//@ fn new
//@ . opt const
//@|    ensures match r { Some(x) => value <= 1000 && x.0 == value, None => value > 1000 }
//@ fn value
//@|    ensures r == self.0
//@ fn denominator
//@ . opt const
//@|    ensures r == 1000
//@ endimpl
//@ enum RV RewardDistributionVersion
//@ struct RQ PoolData
//@ impl RQ impl PoolData
//@ fn staker_balance
//@|    ensures match r { Ok(x) => x.atoms == self.pledge_amount.atoms + self.staker_rewards.atoms, Err(_) => self.pledge_amount.atoms + self.staker_rewards.atoms > u128::MAX }
//@ fn margin_ratio_per_thousand
//@|    ensures r == self.margin_ratio_per_thousand
//@ fn cost_per_block
//@|    ensures r == self.cost_per_block
//@ endimpl
//@ enum RD RewardDistributionError
impl vstd::std_specs::convert::FromSpecImpl<PosError> for RewardDistributionError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: PosError) -> RewardDistributionError { RewardDistributionError::PoSAccountingError(e) } }
impl core::convert::From<PosError> for RewardDistributionError { fn from(e: PosError) -> (r: RewardDistributionError) { RewardDistributionError::PoSAccountingError(e) } }
// ---------------------------------------------------------------- std
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<(K, V)> }
impl<K, V> BTreeMap<K, V> {
    /// in the order of the keys, no key twice
    pub uninterp spec fn entries(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn vf_iter(&self) -> (r: ListIter<(&K, &V)>) ensures r.rest().len() == self.entries().len(), forall|i: int| 0 <= i < self.entries().len() ==> #[trigger] r.rest()[i] == (&self.entries()[i].0, &self.entries()[i].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_values(&self) -> (r: Vec<V>) ensures r@ == self.entries().map_values(|x: (K, V)| x.1) { unimplemented!() }
}
/// a list's sum, as std's Sum of amounts gives it (C01)
pub open spec fn sum_of(v: Seq<Amount>) -> int decreases v.len() { if v.len() == 0 { 0 } else { sum_of(v.drop_last()) + v.last().atoms } }
pub trait VfSum { spec fn all(&self) -> Seq<Amount>; fn vf_sum(self) -> (r: Option<Amount>) where Self: Sized ensures match r { Some(x) => x.atoms == sum_of(self.all()), None => sum_of(self.all()) > u128::MAX }; }
impl VfSum for Vec<Amount> { open spec fn all(&self) -> Seq<Amount> { self@ } #[verifier::external_body] fn vf_sum(self) -> (r: Option<Amount>) { unimplemented!() } }
impl Uint256 {
    #[verifier::external_body] pub fn from_amount(x: Amount) -> (r: Uint256) ensures r == of256(x.atoms as int), r.num() == x.atoms { unimplemented!() }
    #[verifier::external_body] pub fn vf_u128(self) -> (r: core::result::Result<u128, ()>) ensures match r { Ok(x) => x == self.num(), Err(_) => self.num() > u128::MAX } { unimplemented!() }
}
impl<T> ListIter<T> { pub fn into_iter(self) -> (r: Self) ensures r == self { self } }
impl<T> VfSlice<T> for Vec<T> { open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_iter(&self) -> (r: SliceIter<'_, T>) { unimplemented!() } }
#[verifier::external_body]
pub fn vf_with<T>(v: Vec<T>, x: T) -> (r: Vec<T>) ensures r@ == v@.push(x) { unimplemented!() }
// ---------------------------------------------------------------- the state
pub type Entries = Seq<(DelegationId, Amount)>;
/// What there is of the pools, and what has been paid out so far
pub trait PoSAccountingView: Sized {
    type Error;
    spec fn pool(&self, p: PoolId) -> Option<PoolData>;
    spec fn balance(&self, p: PoolId) -> int;
    spec fn shares(&self, p: PoolId) -> Option<Entries>;
    /// paid to a delegation; to the staker of a pool
    spec fn to_delegation(&self, d: DelegationId) -> int;
    spec fn to_staker(&self, p: PoolId) -> int;
    fn get_pool_balance(&self, pool_id: PoolId) -> (r: Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.balance(pool_id);
    fn get_pool_data(&self, pool_id: PoolId) -> (r: Result<Option<PoolData>, Self::Error>) ensures r matches Ok(x) ==> x == self.pool(pool_id) && (x matches Some(d) ==> d.margin_ratio_per_thousand.0 <= 1000);
    fn get_pool_delegations_shares(&self, pool_id: PoolId) -> (r: Result<Option<BTreeMap<DelegationId, Amount>>, Self::Error>) ensures r matches Ok(x) ==> ((x is Some) == (self.shares(pool_id) is Some)) && (x matches Some(m) ==> self.shares(pool_id) == Some(m.entries()));
}
pub trait PoSAccountingOperations<U>: PoSAccountingView {
    /// what takes back what was done, so far
    spec fn log(&self) -> Seq<U>;
    fn increase_staker_rewards(&mut self, pool_id: PoolId, amount_to_add: Amount) -> (r: Result<U, PosError>)
        ensures r matches Ok(u) ==> final(self).log() == old(self).log().push(u) && (forall|q: PoolId| #[trigger] final(self).to_staker(q) == old(self).to_staker(q) + (if q == pool_id { amount_to_add.atoms as int } else { 0 })) && (forall|d: DelegationId| #[trigger] final(self).to_delegation(d) == old(self).to_delegation(d));
    fn delegate_staking(&mut self, delegation_target: DelegationId, amount_to_delegate: Amount) -> (r: Result<U, PosError>)
        ensures r matches Ok(u) ==> final(self).log() == old(self).log().push(u) && (forall|d: DelegationId| #[trigger] final(self).to_delegation(d) == old(self).to_delegation(d) + (if d == delegation_target { amount_to_delegate.atoms as int } else { 0 })) && (forall|q: PoolId| #[trigger] final(self).to_staker(q) == old(self).to_staker(q));
}
// ---------------------------------------------------------------- the staker's part
pub open spec fn staker_v0(total: int, cost: int, m: int) -> int { if total < cost { total } else { (total - cost) * m / 1000 + cost } }
pub open spec fn staker_v1(total: int, balance: int, own: int, cost: int, m: int) -> int {
    if total < cost { total } else { let mine = (total - cost) * own / balance; (total - cost - mine) * m / 1000 + mine + cost }
}
proof fn part(a: int, x: int, y: int) requires 0 <= a, 0 <= x <= y, 0 < y ensures 0 <= a * x / y <= a, 0 <= a * x
{
    assert(0 <= a * x <= a * y) by (nonlinear_arith) requires 0 <= a, 0 <= x <= y;
    let p = a * x;
    assert(0 <= p / y <= a) by (nonlinear_arith) requires 0 <= p <= a * y, 0 < y;
}
//@ fn RD calculate_staker_reward_v0
//@|    requires mpt.0 <= 1000
//@|    ensures match r { Some(x) => x.atoms == staker_v0(total_reward.atoms as int, cost_per_block.atoms as int, mpt.0 as int) && x.atoms <= total_reward.atoms, None => total_reward.atoms >= cost_per_block.atoms && (total_reward.atoms - cost_per_block.atoms) * mpt.0 > u128::MAX }
//@ . proof start
//@|    proof { if total_reward.atoms >= cost_per_block.atoms { part(total_reward.atoms - cost_per_block.atoms, mpt.0 as int, 1000); } }
//@ fn RD calculate_staker_reward_v1
//@ . method try_into => vf_u128
//@|    requires mpt.0 <= 1000
//@|    ensures match r {
//@|        Ok(x) => 0 < pool_balance.atoms && staker_balance.atoms <= pool_balance.atoms && x.atoms == staker_v1(total_reward.atoms as int, pool_balance.atoms as int, staker_balance.atoms as int, cost_per_block.atoms as int, mpt.0 as int) && x.atoms <= total_reward.atoms,
//@|        Err(_) => pool_balance.atoms == 0 || staker_balance.atoms > pool_balance.atoms }
//@ . proof start
//@|    broadcast use of256_num, of256_range;
//@|    proof {
//@|        bounds();
//@|        if total_reward.atoms >= cost_per_block.atoms && pool_balance.atoms > 0 && staker_balance.atoms <= pool_balance.atoms {
//@|            let rest = total_reward.atoms - cost_per_block.atoms;
//@|            part(rest, staker_balance.atoms as int, pool_balance.atoms as int);
//@|            product(rest, staker_balance.atoms as int);
//@|            let mine = rest * staker_balance.atoms / pool_balance.atoms as int;
//@|            part(rest - mine, mpt.0 as int, 1000);
//@|            product(rest - mine, mpt.0 as int);
//@|        }
//@|    }
// ---------------------------------------------------------------- the delegations' part
pub open spec fn cut(rest: int, share: int, all: int) -> int { rest * share / all }
pub open spec fn cuts(es: Entries, rest: int, all: int) -> Entries { es.map_values(|e: (DelegationId, Amount)| (e.0, Amount { atoms: cut(rest, e.1.atoms as int, all) as u128 })) }
pub open spec fn amounts(es: Entries) -> Seq<Amount> { es.map_values(|e: (DelegationId, Amount)| e.1) }
/// what a delegation gets
pub open spec fn got(es: Entries, d: DelegationId) -> int decreases es.len() { if es.len() == 0 { 0 } else { got(es.drop_last(), d) + (if es.last().0 == d { es.last().1.atoms as int } else { 0 }) } }
pub open spec fn each_fits(es: Entries, all: int) -> bool { forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1.atoms <= all }
//@ fn RD calculate_rewards_per_delegation
//@ . opt fornext
//@ . mono I ListIter<(&'a DelegationId, &'a Amount)>
//@ . method try_into => vf_u128
//@ . replace assert_eq_size!(Amount, common::primitives::amount::UnsignedIntType); =>> ;
//@|    requires forall|i: int| 0 <= i < delegation_shares.rest().len() ==> (#[trigger] delegation_shares.rest()[i]).1.atoms <= total_delegations_amount.atoms
//@|    ensures r is Ok <==> total_delegations_amount.atoms != 0,
//@|        r matches Ok(v) ==> v@.len() == delegation_shares.rest().len() && forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == (*delegation_shares.rest()[i].0, Amount { atoms: cut(total_delegations_reward_amount.atoms as int, delegation_shares.rest()[i].1.atoms as int, total_delegations_amount.atoms as int) as u128 })
//@ . proof start
//@|    broadcast use of256_num, of256_range;
//@|    proof { bounds(); }
//@|    let ghost all = delegation_shares.rest();
//@|    let ghost (t, w) = (total_delegations_amount.atoms as int, total_delegations_reward_amount.atoms as int);
//@ . loop 0
//@|    invariant t != 0, t == total_delegations_balance.num(), w == total_delegations_reward.num(), 0 < t <= u128::MAX, 0 <= w <= u128::MAX, vf_m@.len() <= all.len(), vf_it0.rest() == all.skip(vf_m@.len() as int),
//@|        forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).1.atoms <= t,
//@|        forall|i: int| 0 <= i < vf_m@.len() ==> #[trigger] vf_m@[i] == (*all[i].0, Amount { atoms: cut(w, all[i].1.atoms as int, t) as u128 })
//@|    ensures vf_m@.len() == all.len()
//@|    decreases vf_it0.rest().len()
//@ . proof loop 0 start
//@|    broadcast use of256_num, of256_range;
//@|    proof { bounds(); let n = vf_m@.len() as int; if n < all.len() { assert(all.skip(n)[0] == all[n]); assert(all.skip(n).drop_first() =~= all.skip(n + 1)); let b = all[n].1.atoms as int; part(w, b, t); product(w, b); } }
proof fn one_more(es: Entries, n: int, d: DelegationId)
    requires 0 <= n < es.len()
    ensures got(es.take(n + 1), d) == got(es.take(n), d) + (if es[n].0 == d { es[n].1.atoms as int } else { 0 })
{ assert(es.take(n + 1).drop_last() =~= es.take(n)); assert(es.take(n + 1).last() == es[n]); }
proof fn summed(v: Seq<Amount>) ensures sum_of(v) >= 0, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).atoms <= sum_of(v) decreases v.len()
{ if v.len() > 0 { summed(v.drop_last()); assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).atoms <= sum_of(v) by { if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } } } }
proof fn fits_all(es: Entries) ensures each_fits(es, sum_of(amounts(es))), sum_of(amounts(es)) >= 0 { summed(amounts(es)); assert forall|i: int| 0 <= i < es.len() implies (#[trigger] es[i]).1.atoms <= sum_of(amounts(es)) by { assert(amounts(es)[i] == es[i].1); } }
/// the parts are not more than the whole
proof fn no_more(es: Entries, rest: int, all: int)
    requires each_fits(es, all), all > 0, 0 <= rest <= u128::MAX
    ensures sum_of(amounts(cuts(es, rest, all))) * all <= rest * sum_of(amounts(es)), sum_of(amounts(cuts(es, rest, all))) >= 0, sum_of(amounts(es)) >= 0
    decreases es.len()
{
    summed(amounts(cuts(es, rest, all))); summed(amounts(es));
    if es.len() > 0 {
        let (h, b) = (es.drop_last(), es.last().1.atoms as int);
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).1.atoms <= all by { assert(h[i] == es[i]); }
        no_more(h, rest, all);
        assert(amounts(cuts(es, rest, all)).drop_last() =~= amounts(cuts(h, rest, all)));
        assert(amounts(es).drop_last() =~= amounts(h));
        assert(es[es.len() - 1].1.atoms <= all);
        part(rest, b, all);
        let c = cut(rest, b, all);
        assert(amounts(cuts(es, rest, all)).last().atoms == c);
        assert(c * all <= rest * b) by (nonlinear_arith) requires c == rest * b / all, all > 0, 0 <= rest * b;
        let (x, y) = (sum_of(amounts(cuts(h, rest, all))), sum_of(amounts(h)));
        assert((x + c) * all <= rest * (y + b)) by (nonlinear_arith) requires x * all <= rest * y, c * all <= rest * b;
    } else { assert(amounts(es).len() == 0); assert(amounts(cuts(es, rest, all)).len() == 0); assert(0 * all <= rest * 0) by (nonlinear_arith); }
}
proof fn within(es: Entries, rest: int, all: int)
    requires all == sum_of(amounts(es)), all > 0, 0 <= rest <= u128::MAX
    ensures 0 <= sum_of(amounts(cuts(es, rest, all))) <= rest
{
    fits_all(es); no_more(es, rest, all);
    let x = sum_of(amounts(cuts(es, rest, all)));
    assert(x <= rest) by (nonlinear_arith) requires x * all <= rest * all, all > 0;
}
/// b is a after these have been paid, and nothing else has been done
pub open spec fn paid<U, P: PoSAccountingOperations<U>>(a: P, b: P, es: Entries, undo: Seq<U>) -> bool {
    &&& forall|d: DelegationId| #[trigger] b.to_delegation(d) == a.to_delegation(d) + got(es, d)
    &&& b.log() == a.log() + undo
}
//@ fn RD distribute_delegations_pos_reward
//@ . method iter => vf_iter
//@ . opt fornext
//@ . opt lazy
//@ . opt eager
//@ . replace .sum::<Option<Amount>>() =>> .vf_sum()
//@|    requires sum_of(amounts(delegation_shares.entries())) == total_delegations_balance.atoms, total_delegations_balance.atoms > 0
//@|    ensures ({ let es = cuts(delegation_shares.entries(), total_delegations_reward.atoms as int, total_delegations_balance.atoms as int); r matches Ok(x) ==> paid(*old(accounting_adapter), *final(accounting_adapter), es, x.0@) && x.1.atoms == total_delegations_reward.atoms - sum_of(amounts(es)) })
//@|        && (r is Ok ==> forall|q: PoolId| #[trigger] final(accounting_adapter).to_staker(q) == old(accounting_adapter).to_staker(q))
//@ . proof start
//@|    let ghost before = *accounting_adapter;
//@|    let ghost es = cuts(delegation_shares.entries(), total_delegations_reward.atoms as int, total_delegations_balance.atoms as int);
//@|    proof { fits_all(delegation_shares.entries()); within(delegation_shares.entries(), total_delegations_reward.atoms as int, total_delegations_balance.atoms as int); }
//@ . proof after let rewards_per_delegation
//@|    proof { assert(rewards_per_delegation@ =~= es); assert(before.log() + Seq::<U>::empty() =~= before.log()); assert(es.take(0).len() == 0); }
//@ . loop 0
//@|    invariant rewards_per_delegation@ == es, vf_it0.rest().len() <= es.len(), vf_it0.rest() == es.skip(es.len() - vf_it0.rest().len()), paid(before, *accounting_adapter, es.take(es.len() - vf_it0.rest().len()), vf_m@), forall|q: PoolId| #[trigger] accounting_adapter.to_staker(q) == before.to_staker(q)
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ . proof loop 0 start
//@|    let ghost (state, did, n) = (*accounting_adapter, vf_m@, es.len() - vf_it0.rest().len());
//@|    proof { if n < es.len() { assert(es.skip(n)[0] == es[n]); assert(es.skip(n).drop_first() =~= es.skip(n + 1)); assert forall|d: DelegationId| #[trigger] got(es.take(n + 1), d) == got(es.take(n), d) + (if es[n].0 == d { es[n].1.atoms as int } else { 0 }) by { one_more(es, n, d); } } }
//@ . proof loop 0 end
//@|    proof {
//@|        if es[n].1.atoms == 0 { assert(vf_m@ == did); } else { assert(did.len() + 1 == vf_m@.len()); assert(before.log() + vf_m@ =~= (before.log() + did).push(vf_m@.last())); }
//@|        assert(paid(before, *accounting_adapter, es.take(n + 1), vf_m@));
//@|    }
//@ . proof loop 0 after
//@|    proof { assert(es.take(es.len() as int) =~= es); }
//@ . loop 1
//@|    invariant rewards_per_delegation@ == es, vf_it1.rest().len() <= es.len(), vf_it1.rest() == es.skip(es.len() - vf_it1.rest().len()), vf_m@ == amounts(es.take(es.len() - vf_it1.rest().len()))
//@|    ensures vf_m@ == amounts(es)
//@|    decreases vf_it1.rest().len()
//@ . proof loop 1 start
//@|    proof { let n = es.len() - vf_it1.rest().len(); if n < es.len() { assert(es.skip(n)[0] == es[n]); assert(es.skip(n).drop_first() =~= es.skip(n + 1)); assert(amounts(es.take(n + 1)) =~= amounts(es.take(n)).push(es[n].1)); } else { assert(es.take(n) =~= es); } }
// ---------------------------------------------------------------- the whole of it
pub open spec fn staker_part(v: RewardDistributionVersion, total: int, balance: int, data: PoolData) -> int {
    match v {
        RewardDistributionVersion::V0 => staker_v0(total, data.cost_per_block.atoms as int, data.margin_ratio_per_thousand.0 as int),
        RewardDistributionVersion::V1 => staker_v1(total, balance, data.pledge_amount.atoms + data.staker_rewards.atoms, data.cost_per_block.atoms as int, data.margin_ratio_per_thousand.0 as int),
    }
}
/// what the delegations of the pool get
pub open spec fn parts(shares: Option<Entries>, rest: int) -> Entries {
    match shares { Some(es) => if rest > 0 && sum_of(amounts(es)) > 0 { cuts(es, rest, sum_of(amounts(es))) } else { Seq::empty() }, None => Seq::empty() }
}
pub open spec fn delegated<P: PoSAccountingView>(a: P, p: PoolId, v: RewardDistributionVersion, total: int) -> Entries { parts(a.shares(p), total - staker_part(v, total, a.balance(p), a.pool(p)->0)) }
//@ fn RD distribute_pos_reward
//@ . replace .values().copied().sum::<Option<Amount>>() =>> .vf_values().vf_sum()
//@ . replace delegation_undos.into_iter().chain(std::iter::once(increase_pool_balance_undo)).collect() =>> vf_with(delegation_undos, increase_pool_balance_undo)
//@|    ensures r matches Ok(u) ==> ({ let (a, b, total) = (*old(accounting_adapter), *final(accounting_adapter), total_reward.atoms as int); let es = delegated(a, pool_id, reward_distribution_version, total);
//@|        &&& a.pool(pool_id) is Some
//@|        &&& paid(a, b, es, u@)
//@|        &&& 0 <= sum_of(amounts(es)) <= total
//@|        &&& forall|q: PoolId| #[trigger] b.to_staker(q) == a.to_staker(q) + (if q == pool_id { total - sum_of(amounts(es)) } else { 0 })
//@|    })
//@ . proof start
//@|    let ghost a = *accounting_adapter;
//@|    let ghost es = delegated(a, pool_id, reward_distribution_version, total_reward.atoms as int);
//@|    let ghost rest = total_reward.atoms - staker_part(reward_distribution_version, total_reward.atoms as int, a.balance(pool_id), a.pool(pool_id)->0);
//@|    proof {
//@|        assert(a.log() + Seq::<U>::empty() =~= a.log());
//@|        assert(amounts(Seq::empty()).len() == 0);
//@|        if a.shares(pool_id) is Some { let all = a.shares(pool_id)->0; summed(amounts(all)); if 0 < rest <= u128::MAX && sum_of(amounts(all)) > 0 { within(all, rest, sum_of(amounts(all))); } }
//@|    }
}
fn main() {}
