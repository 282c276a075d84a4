//! C24, C25: the weight of a stake, when a hash is low enough, and the next target.
use common::chain::block::{consensus_data::{PoSData, PoWData}, timestamp::BlockTimestamp, BlockReward, ConsensusData};
use common::chain::{config::{Builder, ChainType}, Block, ChainConfig, ConsensusUpgrade, GenBlock, NetUpgrades, PoSChainConfig, PoSConsensusVersion, PoSStatus, PoWStatus, PoolId};
use common::primitives::{per_thousand::PerThousand, Amount, BlockCount, BlockHeight, Compact, Id, Idable, H256};
use common::{Uint256, Uint512};
use chainstate_types::{BlockIndex, BlockStatus, GenBlockIndex};
use crypto::vrf::{transcript::no_rng::VRFTranscript, VRFKeyKind, VRFPrivateKey, VRFReturn};
use num_bigint::BigInt;
use serialization::{DecodeAll, Encode};
use std::sync::OnceLock;
use vsrc::{cases, inputs, Src};

fn amt(x: u128) -> Amount { Amount::from_atoms(x) }
fn big(w: &Uint256) -> BigInt { w.0.iter().rev().fold(BigInt::from(0), |a, x| (a << 64) + *x) }
fn wide(x: &BigInt) -> Uint256 { let d = x.to_u64_digits().1; Uint256(std::array::from_fn(|i| d.get(i).copied().unwrap_or(0))) }
/// 256-bit numbers of all sizes, and close to powers of two
fn word(s: &mut impl Src) -> Uint256 {
    let (a, b, sh, kind) = (s.u128(), s.u128(), s.below(256), s.below(4));
    let x = Uint256([a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64]);
    match kind { 0 | 1 => x >> sh, 2 => Uint256::MAX >> sh, _ => Uint256::ONE << sh }
}
fn amount(s: &mut impl Src) -> u128 { match s.below(4) { 0 => s.below(20) as u128, 1 => s.u128() >> s.below(128), _ => s.u128() >> (40 + s.below(30)) } }
/// The balance that counts towards staking, by the formula of the documentation; none if there is none or it cannot be calculated
fn effective(pledge: u128, pool: u128, supply: u128) -> Option<BigInt> {
    if supply == 0 || pool >= supply || pledge > pool { return None }
    let z = BigInt::from(supply / 1000);
    let b = BigInt::from;
    if z == b(0) { return None }
    let (sigma, s) = (b(pool).min(z.clone()), b(pledge).min(z.clone()));
    let a: (BigInt, BigInt) = (b(75_375_728), b(1_000_000_000));
    // sigma' = sigma - [sigma z^2 - s (z sigma - (z - sigma) s)] a / (1 + a) / z^2
    let less: BigInt = &sigma * &z * &z - (&z * &sigma - (&z - &sigma) * &s) * &s;
    let max = BigInt::from(1) << 256;
    if &sigma * &z * &z >= max || &less * &a.0 >= max { return None }
    Some(&sigma - &less * &a.0 / (&a.0 + &a.1) / (&z * &z))
}
fn vrf_data() -> VRFReturn { static V: OnceLock<VRFReturn> = OnceLock::new(); V.get_or_init(|| VRFPrivateKey::new_from_rng(&mut crate::Fixed(3), VRFKeyKind::Schnorrkel).0.produce_vrf_data(VRFTranscript::new(b"abc"))).clone() }
fn pos(target: Compact) -> ConsensusData { ConsensusData::PoS(Box::new(PoSData::new(vec![], vec![], PoolId::new(H256::zero()), vrf_data(), target))) }
fn block(data: ConsensusData, height: u64, time: u64) -> BlockIndex {
    let t = BlockTimestamp::from_int_seconds(time);
    let prev: Id<GenBlock> = Id::new(H256::from_low_u64_be(height));
    let b = Block::new(vec![], prev, t, data, BlockReward::new(vec![])).unwrap();
    BlockIndex::new(&b, Uint256::ONE, prev, BlockHeight::new(height), t, 0, BlockStatus::new())
}
const SPACINGS: [u64; 6] = [1, 2, 30, 120, 600, u32::MAX as u64];
const FIRST: u64 = 5;
const SECOND: u64 = 40;
fn initial() -> Compact { Compact(0x1d00ffff) }
fn posconf(limit: Uint256, n: usize, change: u16) -> PoSChainConfig { PoSChainConfig::new(limit, BlockCount::new(7), n, PerThousand::new(change).unwrap(), PoSConsensusVersion::V1) }
/// proof of stake from height 5 at a given difficulty, and from 40 at the current one
fn pos_chain(i: usize) -> &'static ChainConfig {
    static C: OnceLock<Vec<ChainConfig>> = OnceLock::new();
    &C.get_or_init(|| SPACINGS.iter().map(|secs| {
        let up = vec![(BlockHeight::zero(), ConsensusUpgrade::IgnoreConsensus), (BlockHeight::new(FIRST), ConsensusUpgrade::PoS { initial_difficulty: Some(initial()), config: posconf(Uint256::MAX, 2, 1) }), (BlockHeight::new(SECOND), ConsensusUpgrade::PoS { initial_difficulty: None, config: posconf(Uint256::MAX, 3, 2) })];
        Builder::new(ChainType::Regtest).consensus_upgrades(NetUpgrades::initialize(up).unwrap()).target_block_spacing(std::time::Duration::from_secs(*secs)).build()
    }).collect())[i]
}
const TYPES: [ChainType; 4] = [ChainType::Mainnet, ChainType::Testnet, ChainType::Signet, ChainType::Regtest];
fn pow_chain(i: usize) -> &'static ChainConfig { static C: OnceLock<Vec<ChainConfig>> = OnceLock::new(); &C.get_or_init(|| TYPES.iter().map(|t| Builder::new(*t).build()).collect())[i] }

cases! {
    // the balance that counts, against the formula in integers of any size
    c24_effective_balance(s) {
        let supply = amount(s);
        let (a, b) = (amount(s), amount(s));
        let near = s.below(6);
        let pool = match near { 0 => a, 1 => supply / 1000 + (a % 3), 2 => supply.saturating_sub(a % 3), 3 => (supply / 1000).saturating_sub(a % 3), _ => a % supply.max(1) };
        let pledge = if s.bool() { b } else { b % (pool.max(1)) };
        let pledge = if s.below(8) == 0 { pool } else { pledge };
        inputs!(s, pledge, pool, supply);
        let r = consensus::calculate_effective_pool_balance(amt(pledge), amt(pool), amt(supply));
        match (r, effective(pledge, pool, supply)) {
            (Ok(x), Some(y)) => { assert_eq!(BigInt::from(x.into_atoms()), y, "the balance that counts"); assert!(x.into_atoms() <= pool && x.into_atoms() <= supply / 1000, "no more than there is, or than a saturated pool") }
            (Err(_), None) => {}
            (r, y) => panic!("{r:?} instead of {y:?}"),
        }
    }

    // a hash is low enough exactly when it is at most the target times the balance
    c24_hash(s) {
        let (v, target) = (s.below(4) as u32, word(s));
        let (supply, a, b) = (amount(s), amount(s), amount(s));
        let (pool, pledge) = if s.below(4) == 0 { (a, b) } else { let p = a % supply.max(1); (p, b % p.max(1)) };
        let (free, near, d) = (word(s), s.bool(), s.below(5) as i64 - 2);
        let weight = match v { 0 => Some(BigInt::from(pool)), 1 => effective(pledge, pool, supply), _ => None };
        let most = (BigInt::from(1) << 256) - 1;
        let hash = match (&weight, near) { (Some(w), true) => wide(&(w * big(&target) + d).max(BigInt::from(0)).min(most)), _ => free };
        inputs!(s, v, hash, target, pledge, pool, supply);
        let version = PoSConsensusVersion::decode_all(&mut &v.encode()[..]).unwrap();
        if v < 2 { assert_eq!(version, [PoSConsensusVersion::V0, PoSConsensusVersion::V1][v as usize]) }
        let ok = consensus::check_pos_hash(version, &hash, &target, amt(pledge), amt(pool), amt(supply)).is_ok();
        assert_eq!(ok, weight.is_some_and(|w| big(&hash) <= w * big(&target)));
    }

    // the next target of proof of stake
    c25_stake_target(s) {
        let (cfg, h, n, change) = (s.below(SPACINGS.len()), FIRST + s.below(60) as u64, 2 + s.below(50), match s.below(5) { 0 => 0, 1 => 1000, 2 => 1, _ => s.below(1001) as u16 });
        let (prev, limit) = (Compact::from(word(s)), if s.bool() { Uint256::MAX } else { word(s) });
        let bad = s.below(20) == 0;
        let prev = if bad { Compact(s.u32()) } else { prev };
        let base = match s.below(3) { 0 => 0, 1 => s.u32() as u64, _ => s.u64() >> s.below(60) };
        let step = match s.below(4) { 0 => 0, 1 => SPACINGS[cfg], 2 => s.below(2000) as u64, _ => s.u64() >> (8 + s.below(56)) };
        let jitter = s.u64() % (step.max(1));
        let (kind, genesis, back) = (s.below(6), s.below(15) == 0, s.below(30) == 0);
        inputs!(s, SPACINGS[cfg], h, n, change, prev, limit, base, step, jitter, kind, genesis, back);
        let at = |k: u64| base.saturating_add(k.saturating_mul(step)).saturating_add(if k == h { jitter } else { 0 });
        let time = |k: u64| if back { u64::MAX - at(k) } else { at(k) };
        let c = pos_chain(cfg);
        let conf = posconf(limit, n, change);
        let status = match kind { 0 => PoSStatus::Threshold { initial_difficulty: Some(Compact(0x1c123456)), config: conf.clone() }, 1 => PoSStatus::Threshold { initial_difficulty: None, config: conf.clone() }, _ => PoSStatus::Ongoing(conf.clone()) };
        let last = if genesis { GenBlockIndex::genesis(c) } else { GenBlockIndex::Block(block(pos(prev), h, time(h))) };
        let asked = std::cell::RefCell::new(vec![]);
        let r = consensus::calculate_target_required_from_block_index(c, &status, &last, |b, k| { asked.borrow_mut().push((b.block_height(), k)); Ok(GenBlockIndex::Block(block(ConsensusData::None, k.into_int(), time(k.into_int())))) });
        let want = if kind == 0 { Some(Compact(0x1c123456)) }
            else if genesis { Some(Compact::from(limit)) }
            else if h == FIRST { Some(initial()) }
            else if let Ok(old) = Uint256::try_from(prev) {
                let start = (h + 1).saturating_sub(n as u64);
                assert_eq!(*asked.borrow(), [(BlockHeight::new(h), BlockHeight::new(start))], "the block where the average starts");
                time(h).checked_sub(time(start)).map(|span| {
                    let avg = (span / (h - start)).max(1);
                    let old = big(&old);
                    let most = &old * change / 1000;
                    let new = (&old * avg / SPACINGS[cfg]).clamp(&old - &most, &old + &most).min(big(&limit));
                    Compact::from(wide(&new))
                })
            } else { None };
        assert_eq!(r.ok(), want, "the next target");
    }

    // the next target of proof of work
    c25_work_target(s) {
        let (cfg, kind, genesis) = (s.below(4), s.below(8), s.below(20) == 0);
        let h = match s.below(4) { 0 => 1 + s.below(5000) as u64, 1 => 2016 * (1 + s.below(1000) as u64), _ => 2016 * (1 + s.below(1000) as u64) - 1 };
        let prev = if s.below(10) == 0 { Compact(s.u32()) } else { Compact::from(word(s)) };
        let (first, span, after) = (s.u64() >> (1 + s.below(60)), match s.below(4) { 0 => s.below(1_000_000) as i64, 1 => s.below(10_000_000) as i64, 2 => (s.u64() >> (2 + s.below(60))) as i64, _ => -(s.below(10_000) as i64) }, s.below(2402) as u64);
        let Some(last) = first.checked_add_signed(span).filter(|x| *x < u64::MAX - 10_000) else { return };
        inputs!(s, TYPES[cfg], h, prev, first, span, after, kind, genesis);
        let c = pow_chain(cfg);
        let limit = c.get_proof_of_work_config().limit();
        let status = if kind == 0 { PoWStatus::Threshold { initial_difficulty: Compact(0x1c123456) } } else { PoWStatus::Ongoing };
        let b = if genesis { GenBlockIndex::genesis(c) } else { GenBlockIndex::Block(block(ConsensusData::PoW(Box::new(PoWData::new(prev, 0))), h, last)) };
        let r = consensus::calculate_work_required(c, &b, BlockTimestamp::from_int_seconds(last + after), &status, |b, k| { assert_eq!(b.block_height(), BlockHeight::new(h)); assert_eq!(k.into_int(), h + 1 - 2016); Ok(GenBlockIndex::Block(block(ConsensusData::None, k.into_int(), first))) });
        let want = if kind == 0 { Some(Compact(0x1c123456)) }
            else if genesis { Some(Compact::from(limit)) }
            else if cfg == 3 { Some(prev) }
            else if (h + 1) % 2016 != 0 { Some(if cfg == 1 && after > 1200 { Compact::from(limit) } else { prev }) }
            else { Uint256::try_from(prev).ok().map(|old| {
                let took = BigInt::from(last) - BigInt::from(first);
                let took = took.clamp(BigInt::from(302_400), BigInt::from(4_838_400));
                let most = (BigInt::from(1) << 256) - 1;
                let new: BigInt = (big(&old) * took).min(most) / 1_209_600; Compact::from(wide(&new.min(big(&limit))))
            }) };
        assert_eq!(r.ok(), want, "the next target");
    }

    // a hash is low enough exactly when it is at most the target; mining finds the first nonce for which it is
    c25_work(s) {
        let (target, free, near, d) = (word(s), word(s), s.bool(), s.below(5));
        let bits = if s.below(4) == 0 { Compact(s.u32()) } else { Compact::from(target) };
        let t = Uint256::try_from(bits).ok();
        let hash = match (&t, near) { (Some(t), true) => { let x: BigInt = big(t) + (d as i64 - 2); wide(&x.max(BigInt::from(0)).min((BigInt::from(1) << 256) - 1)) } _ => free };
        let (easy, tries, time) = (s.below(5), s.below(40) as u128, s.u32() as u64);
        inputs!(s, bits, hash, easy, tries, time);
        assert_eq!(consensus::check_proof_of_work(hash.into(), bits).ok(), t.map(|t| big(&hash) <= big(&t)));
        let bits = Compact::from(Uint256::MAX >> (easy + 1));
        let mut header = Block::new(vec![], Id::new(H256::from_low_u64_be(time)), BlockTimestamp::from_int_seconds(time), ConsensusData::None, BlockReward::new(vec![])).unwrap().header().header().clone();
        let good = |nonce: u128| { let mut h = header.clone(); h.update_consensus_data(ConsensusData::PoW(Box::new(PoWData::new(bits, nonce)))); let id: Uint256 = h.get_id().to_hash().into(); id <= Uint256::try_from(bits).unwrap() };
        let first = (0..tries).find(|n| good(*n));
        let r = consensus::mine(&mut header, tries, bits, std::sync::Arc::new(false.into())).unwrap();
        match first {
            Some(n) => { assert_eq!(r, consensus::MiningResult::Success); assert!(matches!(header.consensus_data(), ConsensusData::PoW(d) if d.nonce() == n && d.bits() == bits), "the header keeps the nonce") }
            None => assert_eq!(r, consensus::MiningResult::Failed),
        }
        let _ = Uint512::ONE;
    }
}
