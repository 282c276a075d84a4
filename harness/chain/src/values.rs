//! C23: what a transaction takes in, what it gives out, and the fee that is left.
use common::chain::config::{Builder, ChainType};
use common::chain::htlc::{HashedTimelockContract, HtlcSecretHash};
use common::chain::output_value::OutputValue;
use common::chain::stakelock::StakePoolData;
use common::chain::timelock::OutputTimeLock;
use common::chain::tokens::{IsTokenUnfreezable, Metadata, NftIssuance, NftIssuanceV0, TokenData, TokenId, TokenTransfer};
use common::chain::{AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, ChainConfig, ChainstateUpgradeBuilder, ConsensusUpgrade, DelegationId, Destination, NetUpgrades, OrderAccountCommand, OrderData, OrderId, OrdersVersion, OutPointSourceId, PoSChainConfig, PoSConsensusVersion, PoolId, TxInput, TxOutput, UtxoOutPoint};
use common::primitives::{per_thousand::PerThousand, Amount, BlockCount, BlockHeight, Fee, Id, Subsidy, H256};
use common::Uint256;
use constraints_value_accumulator::{AccumulatedFee, ConstrainedValueAccumulator, Error};
use orders_accounting::{InMemoryOrdersAccounting, OrdersAccountingDB};
use pos_accounting::{InMemoryPoSAccounting, PoSAccountingDB, DefaultStorageTag, DelegationData, PoolData};
use tokens_accounting::{InMemoryTokensAccounting, TokensAccountingDB};
use std::collections::BTreeMap;
use std::sync::OnceLock;
use vsrc::{cases, inputs, Src};

/// 0: coins; 1, 2: tokens
type Cur = usize;
const N: usize = 2;
fn amt(x: u128) -> Amount { Amount::from_atoms(x) }
fn tok(c: Cur) -> TokenId { TokenId::new(H256::from_low_u64_be(c as u64)) }
fn pid(i: usize) -> PoolId { PoolId::new(H256::from_low_u64_be(i as u64 + 1)) }
fn did(i: usize) -> DelegationId { DelegationId::new(H256::from_low_u64_be(i as u64 + 1)) }
fn oid(i: usize) -> OrderId { OrderId::new(H256::from_low_u64_be(i as u64 + 1)) }
fn val(c: Cur, x: u128) -> OutputValue { if c == 0 { OutputValue::Coin(amt(x)) } else { OutputValue::TokenV1(tok(c), amt(x)) } }
fn any() -> Destination { Destination::AnyoneCanSpend }
/// heights with maturities of 0, 5 and 2000 blocks, the last with the second version of orders
const HEIGHTS: [u64; 3] = [7, 17, 27];
const MATURITY: [u64; 3] = [0, 5, 2000];
fn config() -> &'static ChainConfig {
    static C: OnceLock<ChainConfig> = OnceLock::new();
    C.get_or_init(|| {
        let mut up = vec![(BlockHeight::zero(), ConsensusUpgrade::IgnoreConsensus)];
        for i in 0..3 { up.push((BlockHeight::new(HEIGHTS[i] - 2), ConsensusUpgrade::PoS { initial_difficulty: None, config: PoSChainConfig::new(Uint256::MAX, BlockCount::new(MATURITY[i]), 2, PerThousand::new(1).unwrap(), PoSConsensusVersion::V1) })); }
        let v = |o| ChainstateUpgradeBuilder::latest().orders_version(o).build();
        let st = vec![(BlockHeight::zero(), v(OrdersVersion::V0)), (BlockHeight::new(HEIGHTS[2] - 3), v(OrdersVersion::V1))];
        Builder::new(ChainType::Regtest).consensus_upgrades(NetUpgrades::initialize(up).unwrap()).chainstate_upgrades(NetUpgrades::initialize(st).unwrap()).build()
    })
}
#[derive(Debug, Clone, Copy)]
enum Lock { Blocks(u64), Other(u8) }
fn lock(l: Lock) -> OutputTimeLock { match l { Lock::Blocks(n) => OutputTimeLock::ForBlockCount(n), Lock::Other(0) => OutputTimeLock::UntilHeight(BlockHeight::new(100_000)), Lock::Other(1) => OutputTimeLock::UntilTime(common::chain::block::timestamp::BlockTimestamp::from_int_seconds(1 << 40)), Lock::Other(_) => OutputTimeLock::ForSeconds(100_000) } }
#[derive(Debug, Clone)]
enum In { Transfer(Cur, u128), Htlc(Cur, u128), Locked(Cur, u128), Nft(Cur), Delegate(u128), Pool(usize, bool), OldToken, Barren(u8), Missing, Spend(usize, u128), Mint(Cur, u128), Command(u8, Cur), Fill(usize, u128, bool), Conclude(usize, bool), FreezeOrder(usize) }
#[derive(Debug, Clone)]
enum Out { Transfer(Cur, u128), Burn(Cur, u128), Htlc(Cur, u128), Locked(Cur, u128, Lock), Delegate(u128), Pool(u128), Produce, NewDelegation, OldToken, Data, Issue, Nft, Order(Cur, u128, Cur, u128) }
#[derive(Debug, Clone)]
struct Order { ask: (Cur, u128), give: (Cur, u128), filled: u128, given: u128, frozen: bool }
#[derive(Debug, Clone)]
struct World { pools: [Option<(u128, u128)>; N], held: [u128; N], tokens: [(u8, u128, u128); 2], orders: [Order; N] }
#[derive(Debug, Clone, Default, PartialEq)]
struct Sum { free: BTreeMap<Cur, u128>, locked: BTreeMap<u64, u128> }
impl Sum {
    fn add(&mut self, c: Cur, x: u128) -> Option<()> { let e = self.free.entry(c).or_insert(0); *e = e.checked_add(x)?; Some(()) }
    fn add_locked(&mut self, blocks: u64, x: u128) -> Option<()> { if blocks == 0 { return self.add(0, x) } let e = self.locked.entry(blocks).or_insert(0); *e = e.checked_add(x)?; Some(()) }
    fn take(&mut self, c: Cur, x: u128) -> Option<()> { if x == 0 { return Some(()) } let e = self.free.get_mut(&c)?; *e = e.checked_sub(x)?; Some(()) }
    fn all(&self, c: Cur) -> u128 { self.free.get(&c).copied().unwrap_or(0).saturating_add(if c == 0 { self.locked.values().fold(0, |a, x| x.saturating_add(a)) } else { 0 }) }
}
fn amount(s: &mut impl Src) -> u128 { match s.below(6) { 0 => s.below(3) as u128, 1 | 2 => s.below(1000) as u128, 3 => (s.u64() >> s.below(60)) as u128, 4 => 10u128.pow(13) * s.below(100) as u128, _ => s.u128() >> s.below(128) } }
fn blocks(s: &mut impl Src) -> u64 { [0, 1, 4, 5, 6, 1999, 2000, 2001, u64::MAX][s.below(9)] }
fn world(s: &mut impl Src) -> World {
    let small = |s: &mut _| -> u128 { amount(s) >> 8 };
    World {
        pools: std::array::from_fn(|_| if s.below(5) == 0 { None } else { Some((small(s), if s.bool() { 0 } else { small(s) })) }),
        held: std::array::from_fn(|_| small(s)),
        tokens: std::array::from_fn(|_| { let x = small(s); (s.below(3) as u8, x, x + if s.bool() { s.below(3) as u128 } else { small(s) }) }),
        orders: std::array::from_fn(|_| { let (a, g) = (s.below(3), 1 + s.below(2)); let (ask, give) = (1 + small(s), 1 + small(s)); let filled = match s.below(3) { 0 => 0, 1 => ask, _ => small(s) % (ask + 1) }; Order { ask: (a, ask), give: ((a + g) % 3, give), filled, given: crate::orders::share(ask, give, filled).unwrap(), frozen: s.below(6) == 0 } }),
    }
}
fn input(s: &mut impl Src, w: &World) -> In {
    let part = |s: &mut _, x: u128| -> u128 { match Src::below(s, 5) { 0 => x, 1 => x + 1, 2 => 0, _ => amount(s) % (x + 1) } };
    match s.below(32) {
        0..=5 => In::Transfer(s.below(3), amount(s)), 6 => In::Htlc(s.below(3), amount(s)), 7 => In::Locked(s.below(3), amount(s)), 8 => In::Nft(1 + s.below(2)), 9 => In::Delegate(amount(s)),
        10..=12 => In::Pool(s.below(N), s.bool()), 13 => if s.below(6) == 0 { In::Barren(s.below(5) as u8) } else { In::Transfer(0, amount(s)) }, 14 => if s.below(6) == 0 { In::Missing } else { In::Transfer(0, 10u128.pow(15)) },
        15..=19 => { let d = s.below(N); In::Spend(d, part(s, w.held[d])) }
        20..=22 => { let c = 1 + s.below(2); let t = w.tokens[c - 1]; In::Mint(c, part(s, t.2 - t.1)) }
        23..=25 => In::Command(s.below(6) as u8, 1 + s.below(2)),
        26..=28 => { let o = s.below(N); let left = w.orders[o].ask.1 - w.orders[o].filled; In::Fill(o, part(s, left), s.bool()) }
        29 | 30 => In::Conclude(s.below(N), s.bool()),
        _ => if s.bool() { In::OldToken } else { In::FreezeOrder(s.below(N)) },
    }
}
/// What the inputs are worth, with what has to be taken off for commands; none if an input is not allowed
fn taken_in(w: &World, h: usize, ins: &[In]) -> Option<Sum> {
    let (cfg, height) = (config(), BlockHeight::new(HEIGHTS[h]));
    let mut w = w.clone();
    let (mut got, mut off) = (Sum::default(), BTreeMap::<Cur, u128>::new());
    let mut concluded = [false; N];
    for i in ins {
        let mut less = |c: Cur, x: u128| -> Option<()> { let e = off.entry(c).or_insert(0); *e = e.checked_add(x)?; Some(()) };
        match i {
            In::Transfer(c, x) | In::Htlc(c, x) | In::Locked(c, x) => got.add(*c, *x)?,
            In::Nft(c) => got.add(*c, 1)?,
            In::Delegate(x) => got.add(0, *x)?,
            In::Pool(p, _) => { let (pledge, reward) = w.pools[*p]?; got.add_locked(MATURITY[h], pledge + reward)? }
            In::OldToken => {}
            In::Barren(_) | In::Missing => return None,
            In::Spend(d, x) => { w.held[*d] = w.held[*d].checked_sub(*x)?; got.add_locked(MATURITY[h], *x)? }
            In::Mint(c, x) => {
                let t = &mut w.tokens[*c - 1];
                t.1 = t.1.checked_add(*x)?;
                if t.0 == 0 && t.1 > t.2 || t.1 > i128::MAX as u128 { return None }
                got.add(*c, *x)?;
                less(0, cfg.token_supply_change_fee(height).into_atoms())?
            }
            In::Command(k, _) => less(0, match k { 0 | 1 => cfg.token_supply_change_fee(height), 2 | 3 => cfg.token_freeze_fee(height), 4 => cfg.token_change_authority_fee(height), _ => cfg.token_change_metadata_uri_fee() }.into_atoms())?,
            In::Fill(o, x, _) => {
                let d = &mut w.orders[*o];
                let left = d.ask.1 - d.filled;
                if concluded[*o] || d.frozen || *x > left { return None }
                let pay = if h == 2 { crate::orders::share(d.ask.1, d.give.1, *x)? } else { crate::orders::share(left, d.give.1 - d.given, *x)? };
                if h == 2 && pay == 0 { return None }
                d.filled += x;
                d.given += pay;
                got.add(d.give.0, pay)?;
                less(d.ask.0, *x)?
            }
            In::Conclude(o, _) => {
                if concluded[*o] { return None }
                concluded[*o] = true;
                let d = &w.orders[*o];
                got.add(d.ask.0, d.filled)?;
                got.add(d.give.0, d.give.1 - d.given)?
            }
            In::FreezeOrder(_) => {}
        }
    }
    for (c, x) in off { got.take(c, x)? }
    Some(got)
}
fn given_out(h: usize, outs: &[Out]) -> Option<Sum> {
    let (cfg, height) = (config(), BlockHeight::new(HEIGHTS[h]));
    let mut sum = Sum::default();
    for o in outs {
        match o {
            Out::Transfer(c, x) | Out::Burn(c, x) | Out::Htlc(c, x) => sum.add(*c, *x)?,
            Out::Locked(0, x, Lock::Blocks(n)) => sum.add_locked(*n, *x)?,
            Out::Locked(c, x, _) => sum.add(*c, *x)?,
            Out::Delegate(x) | Out::Pool(x) => sum.add(0, *x)?,
            Out::Produce | Out::NewDelegation | Out::OldToken => {}
            Out::Data => sum.add(0, cfg.data_deposit_fee(height).into_atoms())?,
            Out::Issue => sum.add(0, cfg.fungible_token_issuance_fee().into_atoms())?,
            Out::Nft => sum.add(0, cfg.nft_issuance_fee(height).into_atoms())?,
            Out::Order(_, _, c, x) => sum.add(*c, *x)?,
        }
    }
    Some(sum)
}
/// What is left of the inputs after the outputs: free values pay free values; coins locked for a number of blocks pay what has to be locked for
/// no longer than that, the longest first, and free coins last.
fn left(mut a: Sum, b: &Sum) -> Option<Sum> {
    for (c, x) in &b.free { a.take(*c, *x)? }
    for (n, x) in &b.locked {
        let mut x = *x;
        for (_, v) in a.locked.range_mut(..=n).rev() { let y = x.min(*v); x -= y; *v -= y; }
        a.take(0, x)?;
    }
    Some(a)
}
fn fee_at(left: &Sum, maturity: u64) -> Option<u128> { left.locked.range(..=maturity).try_fold(left.free.get(&0).copied().unwrap_or(0), |a, x| a.checked_add(*x.1)) }

fn output(s: &mut impl Src, left: &Sum) -> Out {
    let mut part = |s: &mut _, c: Cur| -> u128 { let x = left.all(c); match Src::below(s, 8) { 0 => x, 1 => x.saturating_add(1), 2 | 3 => x / 2, 4 => x / 3, 5 => amount(s) % x.saturating_add(1).max(1), 6 => left.locked.values().next().copied().unwrap_or(x), _ => 0 } };
    match s.below(20) {
        0..=3 => { let c = s.below(3); Out::Transfer(c, part(s, c)) }
        4 => { let c = s.below(3); Out::Burn(c, part(s, c)) }
        5 => { let c = s.below(3); Out::Htlc(c, part(s, c)) }
        6..=13 => { let c = if s.below(4) > 0 { 0 } else { s.below(3) }; let x = part(s, c); Out::Locked(c, x, if s.below(5) > 0 { Lock::Blocks(blocks(s)) } else { Lock::Other(s.below(3) as u8) }) }
        14 => Out::Delegate(part(s, 0)),
        15 => Out::Pool(part(s, 0)),
        16 => [Out::Produce, Out::NewDelegation, Out::OldToken][s.below(3)].clone(),
        17 => if left.all(0) >= 1 << 60 { [Out::Data, Out::Issue, Out::Nft][s.below(3)].clone() } else { Out::Produce },
        _ => { let (c, d) = (s.below(3), 1 + s.below(2)); let x = part(s, c); Out::Order((c + d) % 3, amount(s), c, x) }
    }
}
fn tx_output(o: &Out) -> TxOutput {
    match o {
        Out::Transfer(c, x) => TxOutput::Transfer(val(*c, *x), any()),
        Out::Burn(c, x) => TxOutput::Burn(val(*c, *x)),
        Out::Htlc(c, x) => TxOutput::Htlc(val(*c, *x), Box::new(HashedTimelockContract { secret_hash: HtlcSecretHash([1; 20]), spend_key: any(), refund_timelock: OutputTimeLock::ForBlockCount(9), refund_key: any() })),
        Out::Locked(c, x, l) => TxOutput::LockThenTransfer(val(*c, *x), any(), lock(*l)),
        Out::Delegate(x) => TxOutput::DelegateStaking(amt(*x), did(0)),
        Out::Pool(x) => TxOutput::CreateStakePool(pid(0), Box::new(StakePoolData::new(amt(*x), any(), crate::pools::vrf(), any(), PerThousand::new(1).unwrap(), amt(77)))),
        Out::Produce => TxOutput::ProduceBlockFromStake(any(), pid(0)),
        Out::NewDelegation => TxOutput::CreateDelegationId(any(), pid(0)),
        Out::OldToken => TxOutput::Transfer(OutputValue::TokenV0(Box::new(TokenData::TokenTransfer(TokenTransfer { token_id: tok(1), amount: amt(5) }))), any()),
        Out::Data => TxOutput::DataDeposit(vec![1, 2]),
        Out::Issue => TxOutput::IssueFungibleToken(Box::new(crate::tokens::issuance(0, 9, true))),
        Out::Nft => nft(1),
        Out::Order(c, x, d, y) => TxOutput::CreateOrder(Box::new(OrderData::new(any(), val(*c, *x), val(*d, *y)))),
    }
}
pub fn nft(c: Cur) -> TxOutput {
    let metadata = Metadata { creator: None, name: vec![b'n'], description: vec![], ticker: vec![b't'], icon_uri: None.into(), additional_metadata_uri: None.into(), media_uri: None.into(), media_hash: vec![1; 4] };
    TxOutput::IssueNft(tok(c), Box::new(NftIssuance::V0(NftIssuanceV0 { metadata })), any())
}
fn tx_input(i: &In) -> (TxInput, Option<TxOutput>) {
    let utxo = |o| (TxInput::Utxo(UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(H256::repeat_byte(9))), 3)), o);
    let command = |c| (TxInput::AccountCommand(AccountNonce::new(4), c), None);
    let order = |c| (TxInput::OrderAccountCommand(c), None);
    match i {
        In::Transfer(c, x) => utxo(Some(tx_output(&Out::Transfer(*c, *x)))),
        In::Htlc(c, x) => utxo(Some(tx_output(&Out::Htlc(*c, *x)))),
        In::Locked(c, x) => utxo(Some(tx_output(&Out::Locked(*c, *x, Lock::Blocks(1 + *x as u64 % 50))))),
        In::Nft(c) => utxo(Some(nft(*c))),
        In::OldToken => utxo(Some(tx_output(&Out::OldToken))),
        In::Delegate(x) => utxo(Some(tx_output(&Out::Delegate(*x)))),
        // what is pledged in the output does not matter: the pool has the balance
        In::Pool(p, false) => utxo(Some(TxOutput::CreateStakePool(pid(*p), Box::new(StakePoolData::new(amt(12345), any(), crate::pools::vrf(), any(), PerThousand::new(1).unwrap(), amt(7)))))),
        In::Pool(p, true) => utxo(Some(TxOutput::ProduceBlockFromStake(any(), pid(*p)))),
        In::Barren(k) => utxo(Some(tx_output(&[Out::NewDelegation, Out::Issue, Out::Burn(0, 10), Out::Data, Out::Order(0, 1, 1, 1)][*k as usize]))),
        In::Missing => utxo(None),
        In::Spend(d, x) => (TxInput::Account(AccountOutPoint::new(AccountNonce::new(2), AccountSpending::DelegationBalance(did(*d), amt(*x)))), None),
        In::Mint(c, x) => command(AccountCommand::MintTokens(tok(*c), amt(*x))),
        In::Command(k, c) => command(match k { 0 => AccountCommand::UnmintTokens(tok(*c)), 1 => AccountCommand::LockTokenSupply(tok(*c)), 2 => AccountCommand::FreezeToken(tok(*c), IsTokenUnfreezable::Yes), 3 => AccountCommand::UnfreezeToken(tok(*c)), 4 => AccountCommand::ChangeTokenAuthority(tok(*c), any()), _ => AccountCommand::ChangeTokenMetadataUri(tok(*c), vec![1]) }),
        In::Fill(o, x, old) => if *old { command(AccountCommand::FillOrder(oid(*o), amt(*x), any())) } else { order(OrderAccountCommand::FillOrder(oid(*o), amt(*x))) },
        In::Conclude(o, old) => if *old { command(AccountCommand::ConcludeOrder(oid(*o))) } else { order(OrderAccountCommand::ConcludeOrder(oid(*o))) },
        In::FreezeOrder(o) => order(OrderAccountCommand::FreezeOrder(oid(*o))),
    }
}
struct Stores { pools: InMemoryPoSAccounting, tokens: InMemoryTokensAccounting, orders: InMemoryOrdersAccounting }
fn stores(w: &World) -> Stores {
    let some = |x: &u128| (*x > 0).then(|| amt(*x));
    let held = |i: usize| some(&w.held[i]);
    let pools = (0..N).filter_map(|i| w.pools[i].map(|(p, r)| (pid(i), PoolData::new(any(), amt(p), amt(r), crate::pools::vrf(), PerThousand::new(1).unwrap(), amt(3)))));
    let balances = (0..N).filter_map(|i| w.pools[i].map(|(p, r)| (pid(i), amt(p + r + w.held[i]))));
    let shares = (0..N).filter_map(|i| held(i).map(|x| ((pid(i), did(i)), x)));
    let issued = |i: usize| crate::tokens::issued(w.tokens[i].0, w.tokens[i].2, true).data();
    let order = |i: usize| { let d = &w.orders[i]; orders_accounting::OrderData::new_generic(any(), val(d.ask.0, d.ask.1), val(d.give.0, d.give.1), d.frozen) };
    Stores {
        pools: InMemoryPoSAccounting::from_values(pools.collect(), balances.collect(), shares.collect(), (0..N).filter_map(|i| held(i).map(|x| (did(i), x))).collect(), (0..N).map(|i| (did(i), DelegationData::new(pid(i), any()))).collect()),
        tokens: InMemoryTokensAccounting::from_values((0..2).map(|i| (tok(i + 1), issued(i))).collect(), (0..2).filter_map(|i| some(&w.tokens[i].1).map(|x| (tok(i + 1), x))).collect()),
        orders: InMemoryOrdersAccounting::from_values((0..N).map(|i| (oid(i), order(i))).collect(), (0..N).filter_map(|i| some(&(w.orders[i].ask.1 - w.orders[i].filled)).map(|x| (oid(i), x))).collect(), (0..N).filter_map(|i| some(&(w.orders[i].give.1 - w.orders[i].given)).map(|x| (oid(i), x))).collect()),
    }
}
fn from_inputs(st: &Stores, h: usize, ins: &[TxInput], utxos: &[Option<TxOutput>]) -> Result<ConstrainedValueAccumulator, Error> {
    let (p, t, o) = (PoSAccountingDB::<_, DefaultStorageTag>::new(&st.pools), TokensAccountingDB::new(&st.tokens), OrdersAccountingDB::new(&st.orders));
    ConstrainedValueAccumulator::from_inputs(config(), BlockHeight::new(HEIGHTS[h]), &o, &p, &t, ins, utxos)
}
fn inputs_of(s: &mut impl Src, w: &World) -> Vec<In> { let n = s.below(6); let mut v: Vec<_> = (0..n).map(|_| input(s, w)).collect(); if s.bool() { v.push(In::Transfer(0, 1 << 70)) } v }
fn fees(fee: &AccumulatedFee, left: &Sum) {
    for k in 0..3 { assert_eq!(fee.clone().map_into_block_fees(config(), BlockHeight::new(HEIGHTS[k])).ok().map(|f| f.0.into_atoms()), fee_at(left, MATURITY[k]), "the fee of {left:?} for {} blocks", MATURITY[k]) }
}

cases! {
    // a transaction is allowed if its inputs are worth its outputs, and the rest is its fee
    c23_fee_of_a_transaction(s) {
        let w = world(s);
        let h = s.below(3);
        let ins = inputs_of(s, &w);
        let got = taken_in(&w, h, &ins);
        let mut rest = got.clone().unwrap_or_default();
        let mut outs = vec![];
        for _ in 0..s.below(5) {
            let o = output(s, &rest);
            if let Some(r) = given_out(h, &[o.clone()]).and_then(|b| left(rest.clone(), &b)) { rest = r; }
            outs.push(o);
        }
        inputs!(s, w, h, ins, outs);
        let st = stores(&w);
        let (txi, utxos): (Vec<_>, Vec<_>) = ins.iter().map(tx_input).unzip();
        let a = from_inputs(&st, h, &txi, &utxos);
        assert_eq!(a.is_ok(), got.is_some(), "the inputs: {a:?}, expected {got:?}");
        let b = ConstrainedValueAccumulator::from_outputs(config(), BlockHeight::new(HEIGHTS[h]), &outs.iter().map(tx_output).collect::<Vec<_>>());
        let out = given_out(h, &outs);
        assert_eq!(b.is_ok(), out.is_some(), "the outputs: {b:?}, expected {out:?}");
        if let (Ok(a), Ok(b), Some(got), Some(out)) = (a, b, got, out) {
            let r = a.satisfy_with(b);
            let left = left(got.clone(), &out);
            assert_eq!(r.is_ok(), left.is_some(), "{got:?} pays {out:?}: {r:?}");
            if let (Ok(fee), Some(left)) = (r, left) { fees(&fee, &left) }
        }
    }

    // the fees of two transactions together are the sums
    c23_fees_together(s) {
        let (x, y) = (world(s), world(s));
        let (h, a, b) = (s.below(3), inputs_of(s, &x), inputs_of(s, &y));
        inputs!(s, x, y, h, a, b);
        let one = |w: &World, ins: &[In]| -> Option<(AccumulatedFee, Sum)> {
            let (txi, utxos): (Vec<_>, Vec<_>) = ins.iter().map(tx_input).unzip();
            Some((from_inputs(&stores(w), h, &txi, &utxos).ok()?.satisfy_with(ConstrainedValueAccumulator::new()).unwrap(), taken_in(w, h, ins)?))
        };
        if let (Some((fa, sa)), Some((fb, sb))) = (one(&x, &a), one(&y, &b)) {
            let mut sum = Some(sa);
            for (c, v) in &sb.free { sum = sum.and_then(|mut t| t.add(*c, *v).map(|_| t)) }
            for (n, v) in &sb.locked { sum = sum.and_then(|mut t| t.add_locked(*n, *v).map(|_| t)) }
            let (ab, ba) = (fa.clone().combine(fb.clone()), fb.combine(fa.clone()));
            assert_eq!(ab, ba, "the order does not matter");
            assert_eq!(ab.is_ok(), sum.is_some());
            if let (Ok(f), Some(sum)) = (ab, sum) { fees(&f, &sum) }
            assert_eq!(fa.clone().combine(AccumulatedFee::new()), Ok(fa));
        }
    }

    // a block's reward is the fees and the subsidy, with no bounds to it
    c23_block_reward(s) {
        let (fee, subsidy, n, x) = (s.u128() >> s.below(128), s.u128() >> s.below(128), blocks(s), amount(s));
        let x = if s.bool() { fee.saturating_add(subsidy) } else { x };
        inputs!(s, fee, subsidy, n, x);
        let r = ConstrainedValueAccumulator::from_block_reward(Fee(amt(fee)), Subsidy(amt(subsidy)));
        assert_eq!(r.is_some(), fee.checked_add(subsidy).is_some());
        if let Some(r) = r {
            let outs = [Out::Locked(0, x, Lock::Blocks(n)), Out::Produce];
            let b = ConstrainedValueAccumulator::from_outputs(config(), BlockHeight::new(7), &outs.iter().map(tx_output).collect::<Vec<_>>()).unwrap();
            let r = r.satisfy_with(b);
            assert_eq!(r.is_ok(), x <= fee + subsidy);
            if let Ok(f) = r { assert_eq!(f.map_into_block_fees(config(), BlockHeight::new(7)).unwrap().0.into_atoms(), fee + subsidy - x) }
        }
    }

    // every input has its output
    c23_as_many_outputs(s) {
        let (n, m) = (s.below(4), s.below(4));
        inputs!(s, n, m);
        let w = World { pools: [None; N], held: [0; N], tokens: [(0, 0, 0); 2], orders: std::array::from_fn(|_| Order { ask: (0, 1), give: (1, 1), filled: 0, given: 0, frozen: false }) };
        let (i, u) = tx_input(&In::Transfer(0, 7));
        assert_eq!(from_inputs(&stores(&w), 0, &vec![i; n], &vec![u; m]).is_ok(), n == m);
    }
}
