//! C26, C29: how many coins there are at a height, and which rules are in force there.
use common::chain::config::{emission_schedule::mainnet_schedule_table, Builder, ChainType, Checkpoints, EmissionScheduleTabular};
use common::chain::{ChainConfig, ConsensusUpgrade, CoinUnit, GenBlock, Genesis, NetUpgrades, PoSChainConfig, PoSConsensusVersion, PoSStatus, PoWStatus, RequiredConsensus};
use common::primitives::{per_thousand::PerThousand, BlockCount, BlockHeight, Compact, Id, H256};
use common::Uint256;
use num_bigint::BigInt;
use std::collections::BTreeMap;
use std::sync::OnceLock;
use vsrc::{cases, inputs, Src};

const COIN: u128 = 100_000_000_000;
type Table = (u128, u128, Vec<(u64, u128)>);
/// What there is at a height: block by block, each at the subsidy of the last period that began before it
fn total(t: &Table, h: u64) -> BigInt {
    let mut starts: Vec<(u64, u128)> = vec![(0, t.1)];
    for (at, x) in &t.2 { if *at == 0 { starts[0].1 = *x } else { starts.push((*at, *x)) } }
    starts.sort();
    let mut sum = BigInt::from(t.0);
    for (i, (from, x)) in starts.iter().enumerate() {
        let to = starts.get(i + 1).map_or(h, |n| n.0.min(h));
        if to > *from { sum += BigInt::from(*x) * (to - from); }
    }
    sum
}
fn rate(t: &Table, h: u64) -> u128 { t.2.iter().filter(|(at, _)| *at < h).max_by_key(|(at, _)| *at).map_or(t.1, |p| p.1) }
fn table(s: &mut impl Src) -> Table {
    let small = s.bool();
    let mut coins = |s: &mut _| -> u128 { let s: &mut dyn FnMut(u32) -> u128 = s; match s(8) % 4 { 0 => 0, 1 => s(8), 2 => s(16) * COIN, _ => s(64) >> (s(8) % 64) } };
    let mut d = |b: u32| s.draw(b);
    let (a, b) = (coins(&mut d), coins(&mut d));
    let n = d(8) % 7;
    let mut p = BTreeMap::new();
    for _ in 0..n { let h = if small { d(8) % 40 } else { d(64) >> (d(8) % 64) } as u64; p.insert(h, coins(&mut d)); }
    (a, b, p.into_iter().collect())
}
fn made(t: &Table) -> EmissionScheduleTabular { EmissionScheduleTabular::new(CoinUnit::from_atoms(t.0), CoinUnit::from_atoms(t.1), t.2.iter().map(|(h, x)| (BlockHeight::new(*h), CoinUnit::from_atoms(*x))).collect()) }
fn fits(x: &BigInt) -> bool { *x <= BigInt::from(u128::MAX) }
fn some_height(s: &mut impl Src, t: &Table) -> u64 { let k = s.below(t.2.len() + 1); let base = t.2.get(k).map_or(0, |p| p.0); match s.below(5) { 0 => base, 1 => base.saturating_add(1), 2 => base.saturating_sub(1), 3 => base.saturating_add(s.below(1000) as u64), _ => s.u64() >> s.below(64) } }
fn coins(x: CoinUnit) -> BigInt { BigInt::from(x.to_amount_atoms().into_atoms()) }
fn decimal(x: u128) -> String { let (w, f) = (x / COIN, x % COIN); if f == 0 { w.to_string() } else { format!("{w}.{}", format!("{f:011}").trim_end_matches('0')) } }

const NETS: [ChainType; 4] = [ChainType::Mainnet, ChainType::Testnet, ChainType::Signet, ChainType::Regtest];
fn net(i: usize) -> &'static ChainConfig { static C: OnceLock<Vec<ChainConfig>> = OnceLock::new(); &C.get_or_init(|| NETS.iter().map(|t| Builder::new(*t).build()).collect())[i] }
fn upgrade(s: &mut impl Src) -> ConsensusUpgrade {
    let pos = |n: u16, d: Option<u32>| ConsensusUpgrade::PoS { initial_difficulty: d.map(Compact), config: PoSChainConfig::new(Uint256::MAX, BlockCount::new(n as u64), 2 + n as usize, PerThousand::new(n % 1000).unwrap(), PoSConsensusVersion::V1) };
    match s.below(4) { 0 => ConsensusUpgrade::IgnoreConsensus, 1 => { let d = s.u8(); ConsensusUpgrade::PoW { initial_difficulty: Compact(d as u32) } } 2 => { let n = s.u8(); pos(n as u16, None) } _ => { let (n, d) = (s.u8(), s.u8()); pos(n as u16, Some(d as u32)) } }
}
/// distinct heights with their rules, one at 0 if so asked
fn upgrades(s: &mut impl Src, genesis: bool) -> Vec<(u64, u8)> {
    let (n, narrow) = (s.below(8), s.bool());
    let mut m = BTreeMap::new();
    for _ in 0..n { let h = if narrow { s.below(20) as u64 } else { s.u64() >> s.below(64) }; m.insert(h, s.below(6) as u8); }
    if genesis { m.insert(0, s.below(6) as u8); }
    // (in any order)
    let mut v: Vec<(u64, u8)> = m.into_iter().collect();
    for i in (1..v.len()).rev() { let j = s.below(i + 1); v.swap(i, j); }
    v
}
fn heights<T>(v: Vec<(u64, T)>) -> Vec<(BlockHeight, T)> { v.into_iter().map(|(h, x)| (BlockHeight::new(h), x)).collect() }
fn near(s: &mut impl Src, hs: &[u64]) -> u64 { let k = s.below(hs.len() + 1); match hs.get(k) { Some(h) => match s.below(3) { 0 => *h, 1 => h.saturating_add(1), _ => h.saturating_sub(1) }, None => s.u64() >> s.below(64) } }

cases! {
    c26_schedule(s) {
        let t = table(s);
        let h = some_height(s, &t);
        inputs!(s, t, h);
        let last = t.2.iter().map(|p| p.0).max().unwrap_or(0);
        vsrc::assume!(s, fits(&total(&t, last)));
        let e = made(&t);
        let f = e.schedule();
        assert_eq!(coins(f.initial_supply()), BigInt::from(t.0));
        assert_eq!(coins(e.initial_supply()), BigInt::from(t.0));
        let tail = t.2.iter().max_by_key(|p| p.0).map_or(t.1, |p| p.1);
        assert_eq!(e.tail_emission(), (BlockHeight::new(last), CoinUnit::from_atoms(tail)));
        match e.final_supply() { Some(x) => { assert_eq!(tail, 0); assert_eq!(coins(x), total(&t, u64::MAX)); } None => assert!(tail != 0) }
        let mut periods = vec![(BlockHeight::zero(), CoinUnit::from_atoms(t.1))];
        periods.extend(t.2.iter().map(|(h, x)| (BlockHeight::new(*h), CoinUnit::from_atoms(*x))));
        assert_eq!(e.subsidy_periods().collect::<Vec<_>>(), periods);
        vsrc::assume!(s, fits(&total(&t, h)));
        assert_eq!(coins(f.amount_at(BlockHeight::new(h))), total(&t, h));
        if h > 0 { assert_eq!(coins(f.subsidy(BlockHeight::new(h))), BigInt::from(rate(&t, h))); assert_eq!(total(&t, h) - total(&t, h - 1), BigInt::from(rate(&t, h))); }
    }
    c26_text(s) {
        let t = table(s);
        let gap = s.below(3);
        let text = format!("{}+{}{}", decimal(t.0), decimal(t.1), t.2.iter().map(|(h, x)| format!(",{}{h}:+{}", " ".repeat(gap), decimal(*x))).collect::<String>());
        inputs!(s, t, text);
        assert_eq!(text.parse::<EmissionScheduleTabular>(), Ok(made(&t)));
        assert_eq!(made(&t).to_string().parse::<EmissionScheduleTabular>(), Ok(made(&t)));
        // what is missing is an error, not a guess
        for bad in [text.replacen('+', " ", 1), format!("{text},"), format!("{text},7"), format!("{text},7:5"), format!("{text},x:+5"), format!("{text},7:+"), format!("-{text}"), format!("{text},99999999999999999999:+1"), "9999999999999999999999999999999999999999+0".to_string()] { assert!(bad.parse::<EmissionScheduleTabular>().is_err(), "{bad}"); }
    }
    c26_mainnet(s) {
        let (secs, h) = match s.below(3) { 0 => (120, s.below(4_000_000) as u64), 1 => (1 + s.below(1000) as u64, s.below(40_000_000) as u64), _ => { let (y, o) = (s.below(12) as u64, s.below(3) as u64); (120, (262_800 * y + o).saturating_sub(1)) } };
        inputs!(s, secs, h);
        const SUBSIDY: [u128; 11] = [202, 151, 113, 85, 64, 48, 36, 27, 20, 15, 0];
        let year = 365 * 24 * 3600 / secs;
        let t: Table = (400_000_000 * COIN, 202 * COIN, (1..11).map(|y| (year * y as u64, SUBSIDY[y] * COIN)).collect());
        let e = mainnet_schedule_table(std::time::Duration::from_secs(secs));
        assert_eq!(e, made(&t));
        let f = e.schedule();
        assert_eq!(coins(f.amount_at(BlockHeight::new(h))), total(&t, h));
        assert_eq!(e.final_supply().map(coins), Some(total(&t, u64::MAX)));
        let c = net(0);
        let t: Table = (400_000_000 * COIN, 202 * COIN, (1..11).map(|y| (262_800 * y as u64, SUBSIDY[y] * COIN)).collect());
        assert_eq!(c.emission_schedule().amount_at(BlockHeight::new(h)).to_amount_atoms().into_atoms(), u128::try_from(total(&t, h)).unwrap());
        assert_eq!(c.final_supply(), Some(CoinUnit::from_coins(599_990_800)));
        if h > 0 { assert_eq!(c.block_subsidy_at_height(&BlockHeight::new(h)).into_atoms(), SUBSIDY[((h - 1) / 262_800).min(10) as usize] * COIN); }
    }
    c26_config(s) {
        let (t, h) = (table(s), s.u64() >> s.below(64));
        let h = if s.bool() { some_height(s, &t) } else { h };
        inputs!(s, t, h);
        vsrc::assume!(s, h > 0 && fits(&total(&t, t.2.iter().map(|p| p.0).max().unwrap_or(0))) && fits(&total(&t, h)));
        let c = Builder::new(ChainType::Regtest).emission_schedule_tabular(made(&t)).build();
        assert_eq!(c.block_subsidy_at_height(&BlockHeight::new(h)).into_atoms(), rate(&t, h));
        assert_eq!(c.final_supply().map(coins), if t.2.iter().max_by_key(|p| p.0).map_or(t.1, |p| p.1) == 0 { Some(total(&t, u64::MAX)) } else { None });
        assert_eq!(coins(c.emission_schedule().initial_supply()), BigInt::from(t.0));
    }
    c29_version(s) {
        let genesis = s.below(8) > 0;
        let v = upgrades(s, genesis);
        let hs: Vec<u64> = v.iter().map(|x| x.0).collect();
        let h = near(s, &hs);
        inputs!(s, v, h);
        let n = NetUpgrades::initialize(heights(v.clone()));
        if v.is_empty() || v.iter().all(|x| x.0 != 0) { assert!(n.is_err()); return }
        let n = n.unwrap();
        let mut sorted = v.clone();
        sorted.sort();
        assert_eq!(n.all_upgrades(), &heights(sorted.clone())[..]);
        assert_eq!((n.len(), n.is_empty()), (v.len(), false));
        let want = sorted.iter().filter(|x| x.0 <= h).last().unwrap();
        assert_eq!(n.version_at_height(BlockHeight::new(h)), &(BlockHeight::new(want.0), want.1));
        for x in 0..6u8 {
            let want = sorted.iter().position(|y| y.1 == x).map(|i| BlockHeight::new(sorted[i].0)..sorted.get(i + 1).map_or(BlockHeight::max(), |n| BlockHeight::new(n.0)));
            assert_eq!(n.height_range(&x), want);
        }
    }
    c29_consensus(s) {
        let v = upgrades(s, true);
        let v: Vec<(u64, ConsensusUpgrade)> = v.into_iter().map(|x| (x.0, upgrade(s))).collect();
        let hs: Vec<u64> = v.iter().map(|x| x.0).collect();
        let h = near(s, &hs);
        inputs!(s, v, h);
        let n = NetUpgrades::initialize(heights(v.clone())).unwrap();
        let (at, up) = v.iter().filter(|x| x.0 <= h).max_by_key(|x| x.0).unwrap().clone();
        let want = match up {
            ConsensusUpgrade::IgnoreConsensus => RequiredConsensus::IgnoreConsensus,
            ConsensusUpgrade::PoW { .. } if at < h => RequiredConsensus::PoW(PoWStatus::Ongoing),
            ConsensusUpgrade::PoW { initial_difficulty } => RequiredConsensus::PoW(PoWStatus::Threshold { initial_difficulty }),
            ConsensusUpgrade::PoS { config, .. } if at < h => RequiredConsensus::PoS(PoSStatus::Ongoing(config)),
            ConsensusUpgrade::PoS { config, initial_difficulty } => RequiredConsensus::PoS(PoSStatus::Threshold { initial_difficulty, config }),
        };
        assert_eq!(n.consensus_status(BlockHeight::new(h)), want);
        if let RequiredConsensus::PoS(p) = &want { let (PoSStatus::Ongoing(c) | PoSStatus::Threshold { config: c, .. }) = p; assert_eq!(p.get_chain_config(), c); }
    }
    c29_networks(s) {
        let k = s.below(4);
        let c = net(k);
        let hs: Vec<u64> = c.chainstate_upgrades().all_upgrades().iter().map(|x| x.0.into_int()).chain(c.consensus_upgrades().all_upgrades().iter().map(|x| x.0.into_int())).collect();
        let h = near(s, &hs);
        inputs!(s, k, h);
        let at = BlockHeight::new(h);
        assert_eq!(c.chainstate_upgrades().version_at_height(at), c.chainstate_upgrades().all_upgrades().iter().filter(|x| x.0.into_int() <= h).last().unwrap());
        assert_eq!(c.consensus_upgrades().version_at_height(at), c.consensus_upgrades().all_upgrades().iter().filter(|x| x.0.into_int() <= h).last().unwrap());
        // mainnet and testnet ignore consensus at genesis only
        if k < 2 && h > 0 { assert!(c.consensus_upgrades().consensus_status(at) != RequiredConsensus::IgnoreConsensus); }
    }
    c29_checkpoints(s) {
        let v = upgrades(s, false);
        let genesis: Id<Genesis> = Id::new(H256::from_low_u64_be(1000));
        let id = |x: u8| -> Id<GenBlock> { if x == 5 { genesis.into() } else { Id::new(H256::from_low_u64_be(x as u64)) } };
        let hs: Vec<u64> = v.iter().map(|x| x.0).collect();
        let h = near(s, &hs);
        inputs!(s, v, h);
        let given: BTreeMap<BlockHeight, Id<GenBlock>> = v.iter().map(|(h, x)| (BlockHeight::new(*h), id(*x))).collect();
        let mut all: BTreeMap<u64, Id<GenBlock>> = v.iter().map(|(h, x)| (*h, id(*x))).collect();
        let r = Checkpoints::new(given.clone(), genesis);
        let s2 = Checkpoints::new_static(Box::leak(Box::new(given)), &genesis);
        let g: Id<GenBlock> = genesis.into();
        match all.get(&0) { Some(x) if *x != g => { assert!(r.is_err() && s2.is_err()); return } Some(_) => assert!(s2.is_ok()), None => assert!(s2.is_err()) }
        all.insert(0, g);
        for c in [Some(r.unwrap()), s2.ok()].into_iter().flatten() {
            assert_eq!(c.checkpoint_at_height(&BlockHeight::new(h)), all.get(&h));
            let (a, x) = all.range(..=h).last().unwrap();
            assert_eq!(c.parent_checkpoint_to_height(BlockHeight::new(h)), (BlockHeight::new(*a), *x));
            let (a, x) = all.last_key_value().unwrap();
            assert_eq!(c.last_checkpoint(), (BlockHeight::new(*a), *x));
        }
    }
}
