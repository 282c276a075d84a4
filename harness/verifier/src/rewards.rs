//! C32: what a block pays goes, to the last atom, to the staker and the delegations, each by its share.
use common::chain::{Block, DelegationId, Destination, PoolId, RewardDistributionVersion};
use common::primitives::{per_thousand::PerThousand, Amount, Id, H256};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey};
use num_bigint::BigUint;
use pos_accounting::{
    DelegationData, InMemoryPoSAccounting, PoSAccountingDB, PoSAccountingDelta, PoSAccountingOperations, PoSAccountingView, PoolData,
};
use randomness::make_true_rng;
use std::collections::BTreeMap;
use std::sync::OnceLock;
use tx_verifier::transaction_verifier::{distribute_pos_reward, RewardDistributionError as Refused};
use vsrc::{cases, inputs, Src};

pub fn vrf() -> VRFPublicKey {
    static K: OnceLock<VRFPublicKey> = OnceLock::new();
    K.get_or_init(|| VRFPrivateKey::new_from_rng(&mut make_true_rng(), VRFKeyKind::Schnorrkel).1).clone()
}
fn am(x: u128) -> Amount { Amount::from_atoms(x) }
fn pool(n: u8) -> PoolId { PoolId::new(H256([n; 32])) }
fn dele(n: usize) -> DelegationId { DelegationId::new(H256::from_low_u64_be(n as u64)) }
fn money(s: &mut impl Src) -> u128 {
    match s.below(6) { 0 => s.below(8) as u128, 1 => u128::MAX - s.below(4) as u128, 2 => (s.u64() as u128) << 32, 3 => 1u128 << s.below(128), _ => s.u128() >> s.below(128) }
}
/// A state that says what it was asked to do
struct Told { data: Option<PoolData>, balance: u128, shares: Option<BTreeMap<DelegationId, Amount>>, paid: Vec<(DelegationId, u128)>, staker: Vec<(PoolId, u128)> }
impl PoSAccountingView for Told {
    type Error = pos_accounting::Error;
    fn pool_exists(&self, p: PoolId) -> Result<bool, Self::Error> { Ok(p == pool(1) && self.data.is_some()) }
    fn get_pool_balance(&self, p: PoolId) -> Result<Amount, Self::Error> { Ok(am(if p == pool(1) { self.balance } else { 0 })) }
    fn get_pool_data(&self, p: PoolId) -> Result<Option<PoolData>, Self::Error> { Ok(if p == pool(1) { self.data.clone() } else { None }) }
    fn get_pool_delegations_shares(&self, p: PoolId) -> Result<Option<BTreeMap<DelegationId, Amount>>, Self::Error> { Ok(if p == pool(1) { self.shares.clone() } else { None }) }
    fn get_delegation_balance(&self, d: DelegationId) -> Result<Amount, Self::Error> { Ok(self.shares.as_ref().and_then(|x| x.get(&d).copied()).unwrap_or(Amount::ZERO)) }
    fn get_delegation_data(&self, d: DelegationId) -> Result<Option<DelegationData>, Self::Error> {
        Ok(self.shares.as_ref().and_then(|x| x.get(&d)).map(|_| DelegationData::new(pool(1), Destination::AnyoneCanSpend)))
    }
    fn get_pool_delegation_share(&self, _: PoolId, d: DelegationId) -> Result<Amount, Self::Error> { self.get_delegation_balance(d) }
}
type Err = pos_accounting::Error;
impl PoSAccountingOperations<usize> for Told {
    fn create_pool(&mut self, _: PoolId, _: PoolData) -> Result<usize, Err> { panic!("a reward creates no pool") }
    fn decommission_pool(&mut self, _: PoolId) -> Result<usize, Err> { panic!("a reward ends no pool") }
    fn increase_staker_rewards(&mut self, p: PoolId, a: Amount) -> Result<usize, Err> { self.staker.push((p, a.into_atoms())); Ok(self.paid.len() + self.staker.len()) }
    fn create_delegation_id(&mut self, _: PoolId, _: DelegationId, _: Destination) -> Result<usize, Err> { panic!("a reward creates no delegation") }
    fn delete_delegation_id(&mut self, _: DelegationId) -> Result<usize, Err> { panic!("a reward ends no delegation") }
    fn delegate_staking(&mut self, d: DelegationId, a: Amount) -> Result<usize, Err> { self.paid.push((d, a.into_atoms())); Ok(self.paid.len() + self.staker.len()) }
    fn spend_share_from_delegation_id(&mut self, _: DelegationId, _: Amount) -> Result<usize, Err> { panic!("a reward spends nothing") }
    fn undo(&mut self, _: usize) -> Result<(), Err> { panic!("a reward undoes nothing") }
}
fn big(x: u128) -> BigUint { BigUint::from(x) }
fn small(x: BigUint) -> u128 { x.try_into().unwrap() }
struct Given { v: usize, total: u128, pledge: u128, rewards: u128, balance: u128, cost: u128, margin: u16, shares: Option<Vec<u128>> }
enum Want { Paid { staker: u128, each: Vec<u128> }, Refused(&'static str) }
fn want(g: &Given) -> Want {
    let staker = if g.v == 0 {
        if g.total < g.cost { g.total } else {
            // the product has to fit an amount here, or the block is refused
            let Some(x) = (g.total - g.cost).checked_mul(g.margin as u128) else { return Want::Refused("StakerRewardCalculationFailed") };
            x / 1000 + g.cost
        }
    } else {
        let Some(own) = g.pledge.checked_add(g.rewards) else { return Want::Refused("PoSAccountingError") };
        if own > g.balance { return Want::Refused("InvariantStakerBalanceGreaterThanPoolBalance") }
        if g.balance == 0 { return Want::Refused("InvariantPoolBalanceIsZero") }
        if g.total < g.cost { g.total } else {
            let rest = g.total - g.cost;
            let own = small(big(rest) * big(own) / big(g.balance));
            g.cost + own + small(big(rest - own) * g.margin / 1000u32)
        }
    };
    let rest = g.total - staker;
    let mut each = vec![];
    if rest > 0 {
        if let Some(shares) = &g.shares {
            let sum = shares.iter().try_fold(0u128, |a, x| a.checked_add(*x));
            let Some(sum) = sum else { return Want::Refused("DelegationsRewardSumFailed") };
            if sum > 0 { each = shares.iter().map(|x| small(big(rest) * big(*x) / big(sum))).collect() }
        }
    }
    let given: u128 = each.iter().sum();
    Want::Paid { staker: staker + (rest - given), each }
}
fn given(s: &mut impl Src) -> Given {
    let total = money(s);
    let big_ones = s.below(4) == 0;
    let n = s.below(6);
    let shares: Vec<u128> = (0..n).map(|_| if s.below(6) == 0 { 0 } else if big_ones { money(s) } else { s.u128() >> (8 + s.below(120)) }).collect();
    let (pledge, rewards) = match s.below(8) { 0 => (0, 0), 1 => (money(s), money(s)), _ => (s.u128() >> (3 + s.below(125)), s.u128() >> (3 + s.below(125))) };
    // the balance is what the staker and the delegations hold, as a rule
    let sum = shares.iter().fold(pledge.saturating_add(rewards), |a, x| a.saturating_add(*x));
    let balance = match s.below(8) { 0 => 0, 1 => money(s), 2 => sum.saturating_sub(1), _ => sum };
    let cost = match s.below(5) { 0 => 0, 1 => total, 2 => total.saturating_add(1), 3 => total.saturating_sub(money(s)), _ => money(s) };
    let margin = match s.below(4) { 0 => 0, 1 => 1000, _ => s.below(1001) as u16 };
    let shares = if n == 0 && s.bool() { None } else { Some(shares) };
    Given { v: s.below(2), total, pledge, rewards, balance, cost, margin, shares }
}
fn data(g: &Given) -> PoolData { PoolData::new(Destination::AnyoneCanSpend, am(g.pledge), am(g.rewards), vrf(), PerThousand::new(g.margin).unwrap(), am(g.cost)) }
fn version(v: usize) -> RewardDistributionVersion { if v == 0 { RewardDistributionVersion::V0 } else { RewardDistributionVersion::V1 } }
fn name(e: &Refused) -> String { format!("{e:?}").chars().take_while(|c| c.is_alphanumeric()).collect() }
fn map(g: &Given) -> Option<BTreeMap<DelegationId, Amount>> { g.shares.as_ref().map(|x| x.iter().enumerate().map(|(i, x)| (dele(i), am(*x))).collect()) }

cases! {
    c32_every_atom(s) {
        let g = given(s);
        let Given { v, total, pledge, rewards, balance, cost, margin, ref shares } = g;
        inputs!(s, v, total, pledge, rewards, balance, cost, margin, shares);
        let known = s.below(16) != 0;
        let mut state = Told { data: if known { Some(data(&g)) } else { None }, balance, shares: map(&g), paid: vec![], staker: vec![] };
        let r = distribute_pos_reward(&mut state, Id::<Block>::new(H256([9; 32])), pool(1), am(total), version(v));
        if !known {
            assert_eq!(r.err(), Some(Refused::PoolDataNotFound(pool(1))));
            assert!(state.paid.is_empty() && state.staker.is_empty());
            return;
        }
        match want(&g) {
            Want::Refused(e) => {
                assert_eq!(r.map_err(|e| name(&e)).err().as_deref(), Some(e), "the reward is refused");
                assert!(state.paid.is_empty() && state.staker.is_empty(), "nothing is paid of a refused reward");
            }
            Want::Paid { staker, each } => {
                let undo = r.expect("the reward is paid");
                let mut paid = BTreeMap::new();
                for (d, x) in &state.paid { assert!(paid.insert(*d, *x).is_none(), "a delegation is paid twice") }
                let wanted: BTreeMap<_, _> = each.iter().enumerate().filter(|(_, x)| **x > 0).map(|(i, x)| (dele(i), *x)).collect();
                paid.retain(|_, x| *x > 0);
                assert_eq!(paid, wanted, "what the delegations get");
                assert!(state.staker.iter().all(|(p, _)| *p == pool(1)), "another pool is paid");
                assert_eq!(state.staker.iter().map(|x| x.1).sum::<u128>(), staker, "what the staker gets");
                assert_eq!(each.iter().sum::<u128>() + staker, total, "all of it is paid");
                let mut undo = undo;
                undo.sort();
                assert_eq!(undo, (1..=state.paid.len() + state.staker.len()).collect::<Vec<_>>(), "everything that was done can be undone");
            }
        }
    }
    c32_in_the_state(s) {
        let mut g = given(s);
        // amounts a real chain has
        let shift = 80;
        g.total >>= shift; g.cost >>= shift; g.pledge >>= shift; g.rewards >>= shift;
        g.shares = g.shares.map(|x| x.into_iter().map(|x| x >> shift).collect());
        g.balance = g.shares.iter().flatten().sum::<u128>() + g.pledge + g.rewards;
        let Given { v, total, pledge, rewards, balance, cost, margin, ref shares } = g;
        inputs!(s, v, total, pledge, rewards, balance, cost, margin, shares);
        let all = shares.clone().unwrap_or_default();
        let store = InMemoryPoSAccounting::from_values(
            BTreeMap::from([(pool(1), data(&g)), (pool(2), data(&g))]),
            BTreeMap::from([(pool(1), am(balance)), (pool(2), am(balance))]),
            all.iter().enumerate().map(|(i, x)| ((pool(1), dele(i)), am(*x))).chain(all.iter().enumerate().map(|(i, x)| ((pool(2), dele(100 + i)), am(*x)))).collect(),
            all.iter().enumerate().flat_map(|(i, x)| [(dele(i), am(*x)), (dele(100 + i), am(*x))]).collect(),
            all.iter().enumerate().flat_map(|(i, _)| [(dele(i), DelegationData::new(pool(1), Destination::AnyoneCanSpend)), (dele(100 + i), DelegationData::new(pool(2), Destination::AnyoneCanSpend))]).collect(),
        );
        let db = PoSAccountingDB::<_, pos_accounting::DefaultStorageTag>::new(&store);
        let mut state = PoSAccountingDelta::new(&db);
        let n = all.len();
        fn look<P: PoSAccountingView<Error = pos_accounting::Error>>(d: &PoSAccountingDelta<P>, n: usize) -> ([(Option<PoolData>, Amount); 2], Vec<(u128, u128, u128)>) {
            let ids: Vec<_> = (0..n).chain(100..100 + n).map(dele).collect();
            (
                [pool(1), pool(2)].map(|p| (d.get_pool_data(p).unwrap(), d.get_pool_balance(p).unwrap())),
                ids.iter().map(|x| (d.get_delegation_balance(*x).unwrap().into_atoms(), d.get_pool_delegation_share(pool(1), *x).unwrap().into_atoms(), d.get_pool_delegation_share(pool(2), *x).unwrap().into_atoms())).collect::<Vec<_>>(),
            )
        }
        let before = look(&state, n);
        let r = distribute_pos_reward(&mut state, Id::<Block>::new(H256([9; 32])), pool(1), am(total), version(v));
        let (staker, each) = match want(&g) { Want::Paid { staker, each } => (staker, each), Want::Refused(e) => { assert_eq!(r.map_err(|e| name(&e)).err().as_deref(), Some(e)); return } };
        let undo = r.expect("the reward is paid");
        let after = look(&state, n);
        assert_eq!(after.0[1], before.0[1], "another pool is as it was");
        assert_eq!(after.0[0].1.into_atoms(), balance + total, "all of it is in the pool");
        assert_eq!(after.0[0].0.as_ref().unwrap().staker_rewards().into_atoms(), rewards + staker, "the staker's part");
        assert_eq!(after.0[0].0.as_ref().unwrap().pledge_amount().into_atoms(), pledge, "the pledge is as it was");
        for (i, x) in all.iter().enumerate() {
            let got = x + each.get(i).copied().unwrap_or(0);
            assert_eq!(after.1[i], (got, got, 0), "the delegation {i}");
            assert_eq!(after.1[all.len() + i], (*x, 0, *x), "a delegation of another pool");
        }
        // it is undone in the order in which it was done (`disconnect_block_reward`), or the other way round
        if s.bool() { for u in undo { state.undo(u).unwrap() } } else { for u in undo.into_iter().rev() { state.undo(u).unwrap() } }
        assert_eq!(look(&state, n), before, "undone, it is as it was");
    }
}
