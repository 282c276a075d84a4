//! C21: pools and delegations.
use common::chain::{DelegationId, Destination, PoolId};
use common::primitives::{per_thousand::PerThousand, Amount, H256};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey};
use pos_accounting::*;
use std::collections::BTreeMap;
use std::sync::OnceLock;
use vsrc::{cases, inputs, Src};

const N: usize = 3;
fn pid(i: usize) -> PoolId { PoolId::new(H256::from_low_u64_be(i as u64 + 1)) }
/// the ends of the order of ids are among them
fn did(i: usize) -> DelegationId { match i { 0 => DelegationId::new(H256::zero()), 1 => DelegationId::new(H256::repeat_byte(0xFF)), i => DelegationId::new(H256::from_low_u64_be(i as u64)) } }
fn amt(x: u128) -> Amount { Amount::from_atoms(x) }
pub(crate) fn vrf() -> VRFPublicKey { static K: OnceLock<VRFPublicKey> = OnceLock::new(); K.get_or_init(|| VRFPrivateKey::new_from_rng(&mut crate::Fixed(7), VRFKeyKind::Schnorrkel).1).clone() }
fn dest(k: u8) -> Destination { if k == 0 { Destination::AnyoneCanSpend } else { Destination::ScriptHash(common::primitives::Id::new(H256::repeat_byte(k))) } }

#[derive(Debug, Clone, Default, PartialEq)]
struct St { pools: BTreeMap<PoolId, PoolData>, balances: BTreeMap<PoolId, u128>, delegations: BTreeMap<DelegationId, DelegationData>, held: BTreeMap<DelegationId, u128>, shares: BTreeMap<(PoolId, DelegationId), u128> }
#[derive(Debug, Clone)]
enum Op { Create(usize, u128, u8), Decommission(usize), Rewards(usize, u128), NewDelegation(usize, usize, u8), Delete(usize), Delegate(usize, u128), Spend(usize, u128), SpendAll(usize), UndoLast, Push, Flush, Drop, Down, Again }
fn small(s: &mut impl Src) -> u128 { match s.below(5) { 0 => s.below(3) as u128, 1 | 2 => s.below(100) as u128, 3 => s.u64() as u128, _ => s.u128() >> (16 + s.below(100)) } }
fn ops(s: &mut impl Src) -> Vec<Op> {
    let n = 1 + s.below(14);
    (0..n).map(|_| match s.below(20) {
        0..=2 => Op::Create(s.below(N), small(s), s.below(3) as u8),
        3 => Op::Decommission(s.below(N)),
        4 | 5 => Op::Rewards(s.below(N), small(s)),
        6..=8 => Op::NewDelegation(s.below(N), s.below(N), s.below(3) as u8),
        9 => Op::Delete(s.below(N)),
        10..=12 => Op::Delegate(s.below(N), small(s)),
        13 => Op::Spend(s.below(N), small(s)),
        14 => Op::SpendAll(s.below(N)),
        15 => Op::Push, 16 => Op::Flush, 17 => Op::Drop, 18 => if s.bool() { Op::Down } else { Op::Again },
        _ => Op::UndoLast,
    }).collect()
}
fn data(pledge: u128, k: u8) -> PoolData { PoolData::new(dest(k), amt(pledge), Amount::ZERO, vrf(), PerThousand::new(k as u16 * 100).unwrap(), amt(k as u128)) }
fn add<K: Ord>(m: &mut BTreeMap<K, u128>, k: K, x: u128) { *m.entry(k).or_insert(0) += x; m.retain(|_, v| *v != 0) }
fn sub<K: Ord>(m: &mut BTreeMap<K, u128>, k: K, x: u128) -> Option<()> { let n = m.get(&k).copied().unwrap_or(0).checked_sub(x)?; m.insert(k, n); m.retain(|_, v| *v != 0); Some(()) }
/// What the operation does; none if it is refused. Taking more than a delegation holds is left out: see below.
fn model(st: &St, op: &Op) -> Option<St> {
    let mut n = st.clone();
    match op {
        Op::Create(i, x, k) => { if st.pools.contains_key(&pid(*i)) || st.balances.contains_key(&pid(*i)) { return None } n.pools.insert(pid(*i), data(*x, *k)); add(&mut n.balances, pid(*i), *x); }
        Op::Decommission(i) => { n.pools.remove(&pid(*i))?; n.balances.remove(&pid(*i)); }
        Op::Rewards(i, x) => {
            let p = st.pools.get(&pid(*i))?;
            n.pools.insert(pid(*i), PoolData::new(p.decommission_destination().clone(), p.pledge_amount(), amt(p.staker_rewards().into_atoms() + x), p.vrf_public_key().clone(), p.margin_ratio_per_thousand(), p.cost_per_block()));
            add(&mut n.balances, pid(*i), *x);
        }
        Op::NewDelegation(i, d, k) => { st.pools.get(&pid(*i))?; if st.delegations.contains_key(&did(*d)) { return None } n.delegations.insert(did(*d), DelegationData::new(pid(*i), dest(*k))); }
        Op::Delete(d) => { let p = *n.delegations.remove(&did(*d))?.source_pool(); if st.held.contains_key(&did(*d)) || st.shares.contains_key(&(p, did(*d))) || st.pools.contains_key(&p) { return None } }
        Op::Delegate(d, x) => { let p = *st.delegations.get(&did(*d))?.source_pool(); add(&mut n.held, did(*d), *x); add(&mut n.shares, (p, did(*d)), *x); add(&mut n.balances, p, *x); }
        Op::Spend(d, x) => {
            let p = *st.delegations.get(&did(*d))?.source_pool();
            sub(&mut n.held, did(*d), *x).expect("enough"); sub(&mut n.shares, (p, did(*d)), *x).expect("the share is the balance");
            if st.pools.contains_key(&p) { sub(&mut n.balances, p, *x).expect("the pool holds its delegations") }
        }
        _ => unreachable!(),
    }
    Some(n)
}
/// spends are for no more than there is
fn bounded(st: &St, op: &Op) -> Op { match op { Op::Spend(d, x) => Op::Spend(*d, (*x).min(st.held.get(&did(*d)).copied().unwrap_or(0))), Op::SpendAll(d) => Op::Spend(*d, st.held.get(&did(*d)).copied().unwrap_or(0)), o => o.clone() } }
fn act(c: &mut impl PoSAccountingOperations<PoSAccountingUndo>, op: &Op) -> Result<PoSAccountingUndo> {
    match op {
        Op::Create(i, x, k) => c.create_pool(pid(*i), data(*x, *k)),
        Op::Decommission(i) => c.decommission_pool(pid(*i)),
        Op::Rewards(i, x) => c.increase_staker_rewards(pid(*i), amt(*x)),
        Op::NewDelegation(i, d, k) => c.create_delegation_id(pid(*i), did(*d), dest(*k)),
        Op::Delete(d) => c.delete_delegation_id(did(*d)),
        Op::Delegate(d, x) => c.delegate_staking(did(*d), amt(*x)),
        Op::Spend(d, x) => c.spend_share_from_delegation_id(did(*d), amt(*x)),
        _ => unreachable!(),
    }
}
fn compare(v: &impl PoSAccountingView, st: &St, what: &str) {
    let get = |m: Option<&u128>| m.copied().unwrap_or(0);
    for i in 0..N {
        assert_eq!(v.pool_exists(pid(i)).ok().unwrap(), st.pools.contains_key(&pid(i)), "a pool {what}");
        assert_eq!(v.get_pool_data(pid(i)).ok().unwrap(), st.pools.get(&pid(i)).cloned(), "a pool {what}");
        assert_eq!(v.get_pool_balance(pid(i)).ok().unwrap().into_atoms(), get(st.balances.get(&pid(i))), "a pool's balance {what}");
        assert_eq!(v.get_delegation_data(did(i)).ok().unwrap(), st.delegations.get(&did(i)).cloned(), "a delegation {what}");
        assert_eq!(v.get_delegation_balance(did(i)).ok().unwrap().into_atoms(), get(st.held.get(&did(i))), "a delegation's balance {what}");
        for d in 0..N { assert_eq!(v.get_pool_delegation_share(pid(i), did(d)).ok().unwrap().into_atoms(), get(st.shares.get(&(pid(i), did(d)))), "a share {what}"); }
        let all = v.get_pool_delegations_shares(pid(i)).ok().unwrap().unwrap_or_default();
        assert_eq!(all.into_iter().map(|(d, x)| (d, x.into_atoms())).filter(|x| x.1 != 0).collect::<BTreeMap<_, _>>(), st.shares.iter().filter(|(k, _)| k.0 == pid(i)).map(|(k, x)| (k.1, *x)).collect(), "the shares of a pool {what}");
    }
    // what a pool holds is its staker's and its delegations'
    for (p, d) in &st.pools { assert_eq!(st.balances.get(p).copied().unwrap_or(0), d.staker_balance().unwrap().into_atoms() + st.shares.iter().filter(|(k, _)| k.0 == *p).map(|x| *x.1).sum::<u128>()) }
}
fn step(c: &mut (impl PoSAccountingView + PoSAccountingOperations<PoSAccountingUndo>), st: &mut St, undos: &mut Vec<(PoSAccountingUndo, St)>, op: &Op) {
    match op {
        Op::UndoLast => if let Some((u, before)) = undos.pop() { c.undo(u).expect("the last operation can be undone"); *st = before; },
        op => match (act(c, op), model(st, op)) {
            (Ok(u), Some(n)) => { undos.push((u, st.clone())); *st = n; }
            (r, m) => panic!("{op:?} in {st:?}: {r:?}, expected {m:?}"),
        },
    }
    compare(c, st, "after an operation");
}
fn one<P: PoSAccountingView>(c: &mut PoSAccountingDelta<P>, st: &mut St, undos: &mut Vec<(PoSAccountingUndo, St)>, op: &Op) {
    let op = bounded(st, op);
    // the id of a pool is that of an output that is spent, so no pool is made anew while its delegations are there
    if matches!(op, Op::Create(i, ..) if !st.pools.contains_key(&pid(i)) && st.shares.keys().any(|k| k.0 == pid(i))) { return }
    if !matches!(op, Op::UndoLast) && model(st, &op).is_none() { let mut x = PoSAccountingDelta::new(&*c); assert!(act(&mut x, &op).is_err(), "{op:?} in {st:?} is not refused"); } else { step(c, st, undos, &op) }
}
fn stored(m: &InMemoryPoSAccounting, st: &St) {
    use PoSAccountingStorageRead as R;
    for i in 0..N {
        assert_eq!(R::<DefaultStorageTag>::get_pool_balance(m, pid(i)).unwrap().map(|x| x.into_atoms()), st.balances.get(&pid(i)).copied(), "no empty balances are stored");
        assert_eq!(R::<DefaultStorageTag>::get_delegation_balance(m, did(i)).unwrap().map(|x| x.into_atoms()), st.held.get(&did(i)).copied(), "no empty balances are stored");
        assert_eq!(R::<DefaultStorageTag>::get_pool_delegations_shares(m, pid(i)).unwrap().unwrap_or_default().into_iter().map(|(k, x)| (k, x.into_atoms())).collect::<Vec<_>>(), st.shares.iter().filter(|(k, _)| k.0 == pid(i)).map(|(k, x)| (k.1, *x)).collect::<Vec<_>>());
    }
    assert_eq!((m.all_pool_data(), m.all_delegation_data()), (&st.pools, &st.delegations));
}

cases! {
    // histories over a store with a delta over a delta; undoing in reverse order; writing and rewriting the store
    c21_histories(s) {
        let h = ops(s);
        inputs!(s, h);
        let mut store = InMemoryPoSAccounting::new();
        let mut st = St::default();
        for part in h.split(|o| matches!(o, Op::Down)) {
            let before = st.clone();
            let old_store = store.clone();
            let db = PoSAccountingDB::<_, DefaultStorageTag>::new(&store);
            let mut c = PoSAccountingDelta::new(&db);
            let (mut cst, mut undos) = (st.clone(), vec![]);
            let mut rest = part.iter();
            while let Some(op) = rest.next() {
                match op {
                    Op::Push => {
                        let (mut k, mut kst, mut ku) = (PoSAccountingDelta::new(&c), cst.clone(), vec![]);
                        let (mut flush, mut again) = (false, false);
                        for op in rest.by_ref() {
                            match op {
                                Op::Flush => { flush = true; break }
                                Op::Again => { again = true; break }
                                Op::Drop | Op::Push => break,
                                op => one(&mut k, &mut kst, &mut ku, op),
                            }
                        }
                        if again { let d = k.consume(); let u = c.merge_with_delta(d).expect("merge"); compare(&c, &kst, "after a merge"); c.undo_delta_merge(u).expect("undo of a merge"); }
                        else if flush { let d = k.consume(); c.batch_write_delta(d).expect("flush"); cst = kst; undos.clear(); }
                        compare(&c, &cst, "after a child");
                    }
                    Op::Flush | Op::Drop | Op::Again => {}
                    op => one(&mut c, &mut cst, &mut undos, op),
                }
            }
            let d = c.consume();
            let d2 = PoSAccountingDelta::from_data(&db, d.clone());
            compare(&d2, &cst, "of the data");
            let u = PoSAccountingDB::<_, DefaultStorageTag>::new(&mut store).merge_with_delta(d.clone()).expect("write");
            st = cst;
            compare(&PoSAccountingDB::<_, DefaultStorageTag>::new(&store), &st, "of the store");
            stored(&store, &st);
            // the store as it was, and as it is
            PoSAccountingDB::<_, DefaultStorageTag>::new(&mut store).undo_merge_with_delta(u).expect("undo of a write");
            assert!(store == old_store, "undoing a write leaves {store:?}, not {old_store:?}");
            stored(&store, &before);
            PoSAccountingDB::<_, DefaultStorageTag>::new(&mut store).batch_write_delta(d).expect("write");
            stored(&store, &st);
        }
    }

    // more than a delegation holds cannot be taken: the operation, the next look at it, or the write fails
    c21_no_more_than_is_held(s) {
        let (held, more, pledge, stored, gone) = (small(s), 1 + small(s), small(s), s.bool(), s.bool());
        inputs!(s, held, more, pledge, stored, gone);
        let mut store = InMemoryPoSAccounting::new();
        let mut c = PoSAccountingDelta::new(PoSAccountingDB::<_, DefaultStorageTag>::new(&store));
        let _ = c.create_pool(pid(0), data(pledge, 1)).unwrap();
        let _ = c.create_delegation_id(pid(0), did(0), dest(1)).unwrap();
        let _ = c.delegate_staking(did(0), amt(held)).unwrap();
        if gone { let _ = c.decommission_pool(pid(0)).unwrap(); }
        if stored { let d = c.consume(); PoSAccountingDB::<_, DefaultStorageTag>::new(&mut store).batch_write_delta(d).unwrap(); c = PoSAccountingDelta::new(PoSAccountingDB::new(&store)); }
        if c.spend_share_from_delegation_id(did(0), amt(held + more)).is_ok() {
            assert!(c.get_delegation_balance(did(0)).is_err());
            assert!(c.get_pool_delegation_share(pid(0), did(0)).is_err());
            assert!(c.get_pool_delegations_shares(pid(0)).is_err());
            let d = c.consume();
            assert!(PoSAccountingDB::<_, DefaultStorageTag>::new(&mut store).batch_write_delta(d).is_err());
        }
    }

    // the staker's balance and the pool's data
    c21_pool_data(s) {
        let (p, r, x, k) = (s.u128(), s.u128(), s.u128(), s.u8() % 11);
        inputs!(s, p, r, x, k);
        let d = PoolData::new(dest(k), amt(p), amt(r), vrf(), PerThousand::new(k as u16 * 100).unwrap(), amt(x));
        assert_eq!(d.staker_balance().ok().map(|x| x.into_atoms()), p.checked_add(r));
        let i = d.clone().increase_staker_rewards(amt(x));
        assert_eq!(i.is_ok(), r.checked_add(x).is_some());
        if let Ok(i) = i { assert_eq!(i, PoolData::new(dest(k), amt(p), amt(r + x), vrf(), PerThousand::new(k as u16 * 100).unwrap(), amt(x))); }
        assert_eq!(d.is_decommissioned(), p == 0 && r == 0);
        assert!(d.clone().decommission_pool().is_decommissioned());
        let stake = common::chain::stakelock::StakePoolData::new(amt(p), dest(1), vrf(), dest(k), PerThousand::new(k as u16).unwrap(), amt(x));
        assert_eq!(PoolData::from(stake), PoolData::new(dest(k), amt(p), Amount::ZERO, vrf(), PerThousand::new(k as u16).unwrap(), amt(x)));
    }
}
