// Proof-of-stake pools and delegations: the accounting operations, their undo and flushing, over any parent view.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
//@ source V pos-accounting/src/pool/delta/view_impl.rs
//@ source O pos-accounting/src/pool/delta/operator_impls.rs
//@ source M pos-accounting/src/pool/delta/mod.rs
//@ source D pos-accounting/src/pool/delta/data.rs
//@ source P pos-accounting/src/pool/pool_data.rs
//@ source G pos-accounting/src/pool/delegation.rs
//@ source U pos-accounting/src/pool/operations.rs
//@ source E pos-accounting/src/error.rs
//@ path accounting::Error => AccError
//@ path accounting::DataDelta => DataDelta
//@ path accounting::GetDataResult => GetDataResult
//@ path crate::Error => Error
//@ path Self::Error => Error
//@ path crate::error::Error => Error
verus! {
global size_of usize == 8;
//@ include amount.vrs
//@ include deltas.vrs
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub type PoolId = u64;
pub type DelegationId = u64;
/// a key, a script hash…: nothing here looks into it
#[verifier::external_body]
pub struct Destination { d: u64 }
#[verifier::external_body]
pub struct VRFPublicKey { d: u64 }
#[verifier::external_body]
pub struct PerThousand { d: u64 }
//@ enum E Error
//@ struct P PoolData
//@ struct G DelegationData
//@ struct D PoSAccountingDeltaData
//@ struct M DeltaMergeUndo
//@ struct M PoSAccountingDelta
//@ struct U CreatePoolUndo
//@ struct U CreateDelegationIdUndo
//@ struct U DeleteDelegationIdUndo
//@ struct U DecommissionPoolUndo
//@ struct U DelegateStakingUndo
//@ struct U SpendFromShareUndo
//@ struct U IncreaseStakerRewardsUndo
//@ enum U PoSAccountingUndo
impl vstd::std_specs::convert::FromSpecImpl<AccError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: AccError) -> Error { Error::AccountingError(e) } }
impl core::convert::From<AccError> for Error { fn from(e: AccError) -> (r: Error) { Error::AccountingError(e) } }
impl PoolData { #[verifier::external_body] pub fn clone(&self) -> (r: PoolData) ensures r == *self { unimplemented!() } }
impl DelegationData { #[verifier::external_body] pub fn clone(&self) -> (r: DelegationData) ensures r == *self { unimplemented!() } }

pub trait PoSAccountingView: Sized {
    type Error;
    /// the state that is read (when reading succeeds)
    spec fn pool(&self, p: PoolId) -> Option<PoolData>;
    spec fn balance(&self, p: PoolId) -> int;
    spec fn delegation(&self, d: DelegationId) -> Option<DelegationData>;
    spec fn held(&self, d: DelegationId) -> int;
    spec fn share(&self, x: (PoolId, DelegationId)) -> int;
    fn pool_exists(&self, pool_id: PoolId) -> (r: Result<bool, Self::Error>) ensures r matches Ok(x) ==> x == (self.pool(pool_id) is Some);
    fn get_pool_balance(&self, pool_id: PoolId) -> (r: Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.balance(pool_id);
    fn get_pool_data(&self, pool_id: PoolId) -> (r: Result<Option<PoolData>, Self::Error>) ensures r matches Ok(x) ==> x == self.pool(pool_id);
    fn get_delegation_balance(&self, delegation_id: DelegationId) -> (r: Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.held(delegation_id);
    fn get_delegation_data(&self, delegation_id: DelegationId) -> (r: Result<Option<DelegationData>, Self::Error>) ensures r matches Ok(x) ==> x == self.delegation(delegation_id);
    fn get_pool_delegation_share(&self, pool_id: PoolId, delegation_id: DelegationId) -> (r: Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.share((pool_id, delegation_id));
}
//@ impl P impl PoolData
//@ fn pledge_amount
//@|    ensures r == self.pledge_amount
//@ fn staker_balance
//@|    ensures match r { Ok(x) => x.atoms == self.pledge_amount.atoms + self.staker_rewards.atoms, Err(_) => self.pledge_amount.atoms + self.staker_rewards.atoms > u128::MAX }
//@ fn increase_staker_rewards
//@|    ensures match r { Ok(x) => x == (PoolData { staker_rewards: x.staker_rewards, ..self }) && x.staker_rewards.atoms == self.staker_rewards.atoms + reward.atoms, Err(_) => self.staker_rewards.atoms + reward.atoms > u128::MAX }
//@ fn is_decommissioned
//@|    ensures r == (self.pledge_amount.atoms == 0 && self.staker_rewards.atoms == 0)
//@ endimpl
//@ impl G impl DelegationData
//@ fn new
//@|    ensures r.source_pool == source_pool, r.spend_destination == spend_destination
//@ fn source_pool
//@|    ensures *r == self.source_pool
//@ endimpl
//@ impl V impl<P: PoSAccountingView> PoSAccountingView for PoSAccountingDelta<P>
    open spec fn pool(&self, p: PoolId) -> Option<PoolData> { effect(self.parent.pool(p), self.data.pool_data.of(p)) }
    open spec fn balance(&self, p: PoolId) -> int { self.parent.balance(p) + self.data.pool_balances.of(p) }
    open spec fn delegation(&self, d: DelegationId) -> Option<DelegationData> { effect(self.parent.delegation(d), self.data.delegation_data.of(d)) }
    open spec fn held(&self, d: DelegationId) -> int { self.parent.held(d) + self.data.delegation_balances.of(d) }
    open spec fn share(&self, x: (PoolId, DelegationId)) -> int { self.parent.share(x) + self.data.pool_delegation_shares.of(x) }
//@ fn pool_exists
//@ fn get_pool_balance
//@ . replace self.data.pool_balances.data().get(&pool_id).cloned() =>> vf_cloned(self.data.pool_balances.data().get(&pool_id))
//@ fn get_pool_data
//@ fn get_delegation_balance
//@ . replace self.data.delegation_balances.data().get(&delegation_id).copied() =>> vf_cloned(self.data.delegation_balances.data().get(&delegation_id))
//@ fn get_delegation_data
//@ fn get_pool_delegation_share
//@ . replace self.data.pool_delegation_shares.data().get(&(pool_id, delegation_id)).copied() =>> vf_cloned(self.data.pool_delegation_shares.data().get(&(pool_id, delegation_id)))
//@ endimpl
/// the states agree, but for the pool `p` if there is one given, and the delegation `d` (with its share in `x`) if there is one given
pub open spec fn others<P: PoSAccountingView>(a: PoSAccountingDelta<P>, b: PoSAccountingDelta<P>, p: Option<PoolId>, d: Option<DelegationId>, x: Option<(PoolId, DelegationId)>) -> bool {
    &&& b.parent == a.parent
    &&& forall|j: PoolId| p != Some(j) ==> #[trigger] b.pool(j) == a.pool(j)
    &&& forall|j: PoolId| p != Some(j) ==> #[trigger] b.balance(j) == a.balance(j)
    &&& forall|j: DelegationId| d != Some(j) ==> #[trigger] b.delegation(j) == a.delegation(j)
    &&& forall|j: DelegationId| d != Some(j) ==> #[trigger] b.held(j) == a.held(j)
    &&& forall|j: (PoolId, DelegationId)| x != Some(j) ==> #[trigger] b.share(j) == a.share(j)
}
pub open spec fn pool_is<P: PoSAccountingView>(a: PoSAccountingDelta<P>, b: PoSAccountingDelta<P>, p: PoolId, data: Option<PoolData>, balance: int) -> bool { others(a, b, Some(p), None, None) && b.pool(p) == data && b.balance(p) == balance }
pub open spec fn delegation_is<P: PoSAccountingView>(a: PoSAccountingDelta<P>, b: PoSAccountingDelta<P>, d: DelegationId, data: Option<DelegationData>) -> bool { others(a, b, None, Some(d), None) && b.delegation(d) == data && b.held(d) == a.held(d) }
/// `v` more is in the delegation `d`, in its share of the pool `p`, and (if `in_pool`) in the pool
pub open spec fn shifted<P: PoSAccountingView>(a: PoSAccountingDelta<P>, b: PoSAccountingDelta<P>, p: PoolId, d: DelegationId, v: int, in_pool: bool) -> bool {
    &&& others(a, b, Some(p), Some(d), Some((p, d)))
    &&& b.pool(p) == a.pool(p) && b.balance(p) == a.balance(p) + (if in_pool { v } else { 0 })
    &&& b.delegation(d) == a.delegation(d) && b.held(d) == a.held(d) + v && b.share((p, d)) == a.share((p, d)) + v
}
pub open spec fn same<P: PoSAccountingView>(a: PoSAccountingDelta<P>, b: PoSAccountingDelta<P>) -> bool { others(a, b, None, None, None) }
pub open spec fn undone<P: PoSAccountingView>(a: PoSAccountingDelta<P>, b: PoSAccountingDelta<P>, u: PoSAccountingUndo) -> bool {
    match u {
        PoSAccountingUndo::CreatePool(u) => pool_is(a, b, u.pool_id, u.data_undo.0.new, 0) && a.balance(u.pool_id) == u.pledge_amount.atoms && a.pool(u.pool_id) is Some,
        PoSAccountingUndo::DecommissionPool(u) => pool_is(a, b, u.pool_id, u.data_undo.0.new, u.pool_balance.atoms as int) && a.pool(u.pool_id) is None && a.balance(u.pool_id) == 0,
        PoSAccountingUndo::CreateDelegationId(u) => delegation_is(a, b, u.delegation_id, u.data_undo.0.new) && a.delegation(u.delegation_id) is Some,
        PoSAccountingUndo::DeleteDelegationId(u) => delegation_is(a, b, u.delegation_id, u.data_undo.0.new) && a.held(u.delegation_id) == 0,
        PoSAccountingUndo::DelegateStaking(u) => a.delegation(u.delegation_target) is Some && shifted(a, b, a.delegation(u.delegation_target)->0.source_pool, u.delegation_target, -(u.amount_to_delegate.atoms as int), true),
        PoSAccountingUndo::SpendFromShare(u) => a.delegation(u.delegation_id) is Some && ({ let p = a.delegation(u.delegation_id)->0.source_pool; shifted(a, b, p, u.delegation_id, u.amount.atoms as int, a.pool(p) is Some) }),
        PoSAccountingUndo::IncreaseStakerRewards(u) => pool_is(a, b, u.pool_id, u.data_undo.0.new, a.balance(u.pool_id) - u.amount_added.atoms),
    }
}
//@ impl D impl PoSAccountingDeltaData
//@ fn new
//@|    ensures forall|k: PoolId| #[trigger] r.pool_data.of(k) is None, forall|k: PoolId| #[trigger] r.pool_balances.of(k) == 0, forall|k: DelegationId| #[trigger] r.delegation_data.of(k) is None,
//@|        forall|k: DelegationId| #[trigger] r.delegation_balances.of(k) == 0, forall|k: (PoolId, DelegationId)| #[trigger] r.pool_delegation_shares.of(k) == 0
//@ fn merge_with_delta
//@|    ensures r matches Ok(u) ==> written(*old(self), other, *final(self)) && inverts(u, other)
//@ fn undo_delta_merge
//@|    ensures r is Ok ==> unwritten(*old(self), undo_data, *final(self))
//@ endimpl
pub open spec fn written(a: PoSAccountingDeltaData, d: PoSAccountingDeltaData, b: PoSAccountingDeltaData) -> bool {
    &&& all_merged(a.pool_data, |k: PoolId| d.pool_data.of(k), b.pool_data)
    &&& all_merged(a.delegation_data, |k: DelegationId| d.delegation_data.of(k), b.delegation_data)
    &&& forall|k: PoolId| #[trigger] b.pool_balances.of(k) == a.pool_balances.of(k) + d.pool_balances.of(k)
    &&& forall|k: DelegationId| #[trigger] b.delegation_balances.of(k) == a.delegation_balances.of(k) + d.delegation_balances.of(k)
    &&& forall|k: (PoolId, DelegationId)| #[trigger] b.pool_delegation_shares.of(k) == a.pool_delegation_shares.of(k) + d.pool_delegation_shares.of(k)
}
pub open spec fn unwritten(a: PoSAccountingDeltaData, u: DeltaMergeUndo, b: PoSAccountingDeltaData) -> bool {
    &&& all_merged(a.pool_data, |k: PoolId| u.pool_data_undo.of(k), b.pool_data)
    &&& all_merged(a.delegation_data, |k: DelegationId| u.delegation_data_undo.of(k), b.delegation_data)
    &&& forall|k: PoolId| #[trigger] b.pool_balances.of(k) == a.pool_balances.of(k) - u.pool_balances_undo.of(k)
    &&& forall|k: DelegationId| #[trigger] b.delegation_balances.of(k) == a.delegation_balances.of(k) - u.delegation_balances_undo.of(k)
    &&& forall|k: (PoolId, DelegationId)| #[trigger] b.pool_delegation_shares.of(k) == a.pool_delegation_shares.of(k) - u.pool_delegation_shares_undo.of(k)
}
pub open spec fn inverts(u: DeltaMergeUndo, d: PoSAccountingDeltaData) -> bool {
    &&& forall|k: PoolId| #[trigger] u.pool_data_undo.of(k) == (match d.pool_data.of(k) { Some(x) => Some(inverse(x)), None => None })
    &&& forall|k: DelegationId| #[trigger] u.delegation_data_undo.of(k) == (match d.delegation_data.of(k) { Some(x) => Some(inverse(x)), None => None })
    &&& u.pool_balances_undo == d.pool_balances && u.delegation_balances_undo == d.delegation_balances && u.pool_delegation_shares_undo == d.pool_delegation_shares
}
//@ impl M impl<P: PoSAccountingView> PoSAccountingDelta<P>
//@ fn new
//@|    ensures r.parent == parent, forall|j: PoolId| #[trigger] r.pool(j) == parent.pool(j), forall|j: PoolId| #[trigger] r.balance(j) == parent.balance(j), forall|j: DelegationId| #[trigger] r.delegation(j) == parent.delegation(j), forall|j: DelegationId| #[trigger] r.held(j) == parent.held(j), forall|j: (PoolId, DelegationId)| #[trigger] r.share(j) == parent.share(j)
//@ fn from_data
//@|    ensures r.parent == parent, r.data == data
//@ fn consume
//@|    ensures r == self.data
//@ fn merge_with_delta
//@|    ensures final(self).parent == old(self).parent, r matches Ok(u) ==> written(old(self).data, other, final(self).data) && inverts(u, other)
//@ fn undo_delta_merge
//@|    ensures final(self).parent == old(self).parent, r is Ok ==> unwritten(old(self).data, undo_data, final(self).data)
//@ fn add_to_delegation_balance
//@|    ensures r is Ok ==> ({ let m = final(self).data.delegation_balances; moved(old(self).data.delegation_balances, m, delegation_target, amount_to_delegate.atoms as int) && *final(self) == (PoSAccountingDelta { parent: old(self).parent, data: PoSAccountingDeltaData { delegation_balances: m, ..old(self).data } }) })
//@ fn sub_from_delegation_balance
//@|    ensures r is Ok ==> ({ let m = final(self).data.delegation_balances; moved(old(self).data.delegation_balances, m, delegation_target, -(amount_to_delegate.atoms as int)) && *final(self) == (PoSAccountingDelta { parent: old(self).parent, data: PoSAccountingDeltaData { delegation_balances: m, ..old(self).data } }) })
//@ fn add_balance_to_pool
//@|    ensures r is Ok ==> ({ let m = final(self).data.pool_balances; moved(old(self).data.pool_balances, m, pool_id, amount_to_add.atoms as int) && *final(self) == (PoSAccountingDelta { parent: old(self).parent, data: PoSAccountingDeltaData { pool_balances: m, ..old(self).data } }) })
//@ fn sub_balance_from_pool
//@|    ensures r is Ok ==> ({ let m = final(self).data.pool_balances; moved(old(self).data.pool_balances, m, pool_id, -(amount_to_add.atoms as int)) && *final(self) == (PoSAccountingDelta { parent: old(self).parent, data: PoSAccountingDeltaData { pool_balances: m, ..old(self).data } }) })
//@ fn add_delegation_to_pool_share
//@|    ensures r is Ok ==> ({ let m = final(self).data.pool_delegation_shares; moved(old(self).data.pool_delegation_shares, m, (pool_id, delegation_id), amount_to_add.atoms as int) && *final(self) == (PoSAccountingDelta { parent: old(self).parent, data: PoSAccountingDeltaData { pool_delegation_shares: m, ..old(self).data } }) })
//@ fn sub_delegation_from_pool_share
//@|    ensures r is Ok ==> ({ let m = final(self).data.pool_delegation_shares; moved(old(self).data.pool_delegation_shares, m, (pool_id, delegation_id), -(amount_to_add.atoms as int)) && *final(self) == (PoSAccountingDelta { parent: old(self).parent, data: PoSAccountingDeltaData { pool_delegation_shares: m, ..old(self).data } }) })
//@ endimpl
//@ inherent V impl<P: PoSAccountingView> FlushablePoSAccountingView for PoSAccountingDelta<P>
//@ fn batch_write_delta
//@|    ensures final(self).parent == old(self).parent, r matches Ok(u) ==> written(old(self).data, data, final(self).data) && inverts(u, data)
//@ endimpl
pub open spec fn equal<P: PoSAccountingView>(p: PoSAccountingDelta<P>, c: PoSAccountingDelta<PoSAccountingDelta<P>>) -> bool {
    &&& forall|j: PoolId| #[trigger] p.pool(j) == c.pool(j)
    &&& forall|j: PoolId| #[trigger] p.balance(j) == c.balance(j)
    &&& forall|j: DelegationId| #[trigger] p.delegation(j) == c.delegation(j)
    &&& forall|j: DelegationId| #[trigger] p.held(j) == c.held(j)
    &&& forall|j: (PoolId, DelegationId)| #[trigger] p.share(j) == c.share(j)
}
/// Writing the changes of a child to its parent makes the parent what the child was
fn flush<P: PoSAccountingView>(child: PoSAccountingDelta<PoSAccountingDelta<P>>) -> (r: Result<PoSAccountingDelta<P>>)
    ensures r matches Ok(p) ==> equal(p, child)
{
    let PoSAccountingDelta { parent, data } = child;
    let mut parent = parent;
    match parent.batch_write_delta(data) { Ok(_) => Ok(parent), Err(e) => Err(e) }
}
/// Undoing a merge leaves the state as it was
fn merge_undo<P: PoSAccountingView>(c: &mut PoSAccountingDelta<P>, d: PoSAccountingDeltaData) -> (r: Result<()>)
    requires forall|k: PoolId| (#[trigger] d.pool_data.of(k)) is Some && old(c).data.pool_data.of(k) is None ==> d.pool_data.of(k)->0.old == old(c).parent.pool(k),
        forall|k: DelegationId| (#[trigger] d.delegation_data.of(k)) is Some && old(c).data.delegation_data.of(k) is None ==> d.delegation_data.of(k)->0.old == old(c).parent.delegation(k),
    ensures r is Ok ==> same(*old(c), *final(c))
{ let u = match c.merge_with_delta(d) { Ok(u) => u, Err(e) => return Err(e) }; c.undo_delta_merge(u) }
//@ inherent O impl<P: PoSAccountingView> PoSAccountingOperations<PoSAccountingUndo> for PoSAccountingDelta<P>
//@ fn create_pool
//@|    ensures r matches Ok(u) ==> old(self).pool(pool_id) is None && old(self).balance(pool_id) == 0 && pool_is(*old(self), *final(self), pool_id, Some(pool_data), pool_data.pledge_amount.atoms as int)
//@|        && u is CreatePool && u->CreatePool_0.pool_id == pool_id && u->CreatePool_0.pledge_amount == pool_data.pledge_amount && u->CreatePool_0.data_undo.0 == (DataDelta { old: Some(pool_data), new: None })
//@ fn decommission_pool
//@|    ensures r matches Ok(u) ==> old(self).pool(pool_id) is Some && pool_is(*old(self), *final(self), pool_id, None, 0)
//@|        && u is DecommissionPool && u->DecommissionPool_0.pool_id == pool_id && u->DecommissionPool_0.pool_balance.atoms == old(self).balance(pool_id) && u->DecommissionPool_0.data_undo.0 == (DataDelta { old: None, new: old(self).pool(pool_id) })
//@ fn increase_staker_rewards
//@|    ensures r matches Ok(u) ==> old(self).pool(pool_id) is Some && ({ let d = old(self).pool(pool_id)->0; let n = PoolData { staker_rewards: Amount { atoms: (d.staker_rewards.atoms + amount_to_add.atoms) as u128 }, ..d };
//@|        d.staker_rewards.atoms + amount_to_add.atoms <= u128::MAX && pool_is(*old(self), *final(self), pool_id, Some(n), old(self).balance(pool_id) + amount_to_add.atoms)
//@|        && u is IncreaseStakerRewards && u->IncreaseStakerRewards_0.pool_id == pool_id && u->IncreaseStakerRewards_0.amount_added == amount_to_add && u->IncreaseStakerRewards_0.data_undo.0 == (DataDelta { old: Some(n), new: Some(d) }) })
//@ fn create_delegation_id
//@|    ensures r matches Ok(u) ==> old(self).pool(target_pool) is Some && old(self).delegation(delegation_id) is None && ({ let n = DelegationData { source_pool: target_pool, spend_destination: spend_key };
//@|        delegation_is(*old(self), *final(self), delegation_id, Some(n))
//@|        && u is CreateDelegationId && u->CreateDelegationId_0.delegation_id == delegation_id && u->CreateDelegationId_0.data_undo.0 == (DataDelta { old: Some(n), new: None }) })
//@ fn delete_delegation_id
//@|    ensures r matches Ok(u) ==> old(self).delegation(delegation_id) is Some && ({ let d = old(self).delegation(delegation_id)->0;
//@|        old(self).held(delegation_id) == 0 && old(self).share((d.source_pool, delegation_id)) == 0 && old(self).pool(d.source_pool) is None
//@|        && delegation_is(*old(self), *final(self), delegation_id, None)
//@|        && u is DeleteDelegationId && u->DeleteDelegationId_0.delegation_id == delegation_id && u->DeleteDelegationId_0.data_undo.0 == (DataDelta { old: None, new: Some(d) }) })
//@ fn delegate_staking
//@|    ensures r matches Ok(u) ==> old(self).delegation(delegation_target) is Some && shifted(*old(self), *final(self), old(self).delegation(delegation_target)->0.source_pool, delegation_target, amount_to_delegate.atoms as int, true)
//@|        && u is DelegateStaking && u->DelegateStaking_0.delegation_target == delegation_target && u->DelegateStaking_0.amount_to_delegate == amount_to_delegate
//@ fn spend_share_from_delegation_id
//@|    ensures r matches Ok(u) ==> old(self).delegation(delegation_id) is Some && ({ let p = old(self).delegation(delegation_id)->0.source_pool; shifted(*old(self), *final(self), p, delegation_id, -(amount.atoms as int), old(self).pool(p) is Some) })
//@|        && u is SpendFromShare && u->SpendFromShare_0.delegation_id == delegation_id && u->SpendFromShare_0.amount == amount
//@ fn undo
//@|    ensures r is Ok ==> undone(*old(self), *final(self), undo_data)
//@ endimpl
//@ impl O impl<P: PoSAccountingView> PoSAccountingDelta<P>
//@ fn undo_create_pool
//@|    ensures r is Ok ==> undone(*old(self), *final(self), PoSAccountingUndo::CreatePool(undo))
//@ fn undo_decommission_pool
//@|    ensures r is Ok ==> undone(*old(self), *final(self), PoSAccountingUndo::DecommissionPool(undo))
//@ fn undo_create_delegation_id
//@|    ensures r is Ok ==> undone(*old(self), *final(self), PoSAccountingUndo::CreateDelegationId(undo))
//@ fn undo_delete_delegation_id
//@|    ensures r is Ok ==> undone(*old(self), *final(self), PoSAccountingUndo::DeleteDelegationId(undo))
//@ fn undo_delegate_staking
//@|    ensures r is Ok ==> undone(*old(self), *final(self), PoSAccountingUndo::DelegateStaking(undo_data))
//@ fn undo_spend_share_from_delegation_id
//@|    ensures r is Ok ==> undone(*old(self), *final(self), PoSAccountingUndo::SpendFromShare(undo_data))
//@ fn undo_increase_staker_balance
//@|    ensures r is Ok ==> undone(*old(self), *final(self), PoSAccountingUndo::IncreaseStakerRewards(undo))
//@ endimpl
/// Undoing leaves the state as it was
fn create_pool_undo<P: PoSAccountingView>(c: &mut PoSAccountingDelta<P>, p: PoolId, d: PoolData) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.create_pool(p, d) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn decommission_undo<P: PoSAccountingView>(c: &mut PoSAccountingDelta<P>, p: PoolId) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.decommission_pool(p) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn rewards_undo<P: PoSAccountingView>(c: &mut PoSAccountingDelta<P>, p: PoolId, a: Amount) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.increase_staker_rewards(p, a) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn create_delegation_undo<P: PoSAccountingView>(c: &mut PoSAccountingDelta<P>, p: PoolId, d: DelegationId, k: Destination) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.create_delegation_id(p, d, k) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn delete_delegation_undo<P: PoSAccountingView>(c: &mut PoSAccountingDelta<P>, d: DelegationId) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.delete_delegation_id(d) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn delegate_undo<P: PoSAccountingView>(c: &mut PoSAccountingDelta<P>, d: DelegationId, a: Amount) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.delegate_staking(d, a) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn spend_undo<P: PoSAccountingView>(c: &mut PoSAccountingDelta<P>, d: DelegationId, a: Amount) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.spend_share_from_delegation_id(d, a) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
}
fn main() {}
