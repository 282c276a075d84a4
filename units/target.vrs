// The next target of proof of stake, from the average block time.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::ops::{Add, Sub};
//@ source T consensus/src/pos/target.rs
//@ source PC common/src/chain/pos/config.rs
//@ source V common/src/chain/pos/mod.rs
//@ source U common/src/chain/upgrades/consensus_upgrade.rs
//@ source M common/src/primitives/per_thousand.rs
verus! {
//@ include blocks.vrs
//@ struct M PerThousand derive Clone,Copy,PartialEq,Eq,Structural
//@ const M DENOMINATOR ensures DENOMINATOR == 1000
impl PerThousand { pub open spec fn ok(&self) -> bool { self.0 <= 1000 } }
//@ impl M impl PerThousand
//@ fn new
//@|    ensures r is Some <==> value <= 1000, r matches Some(x) ==> x.0 == value && x.ok()
//@ fn value
//@|    ensures r == self.0
//@ fn denominator
//@|    ensures r == 1000
//@ endimpl
//@ struct V PoSConsensusVersion derive Copy,Clone,PartialEq,Eq,Structural
//@ struct PC PoSChainConfig
impl PoSChainConfig { pub open spec fn ok(&self) -> bool { self.difficulty_change_limit.ok() && self.block_count_to_average_for_blocktime >= 2 && self.block_count_to_average_for_blocktime <= i64::MAX } }
//@ impl PC impl PoSChainConfig
//@ fn new
//@|    requires block_count_to_average_for_blocktime >= 2
//@|    ensures r.target_limit == target_limit, r.difficulty_change_limit == difficulty_change_limit, r.block_count_to_average_for_blocktime == block_count_to_average_for_blocktime
//@ fn target_limit
//@|    ensures r == self.target_limit
//@ fn block_count_to_average_for_blocktime
//@|    ensures r == self.block_count_to_average_for_blocktime
//@ fn difficulty_change_limit
//@|    ensures r == self.difficulty_change_limit
//@ endimpl
/// where the average starts: this many blocks back, or at genesis
pub open spec fn start(h: int, n: int) -> int { if h - (n - 1) < 0 { 0 } else { h - (n - 1) } }
//@ fn T calculate_average_block_time
//@|    requires pos_config.ok(), block_index.ht().0 <= i64::MAX, forall|b: &BlockIndex, h: BlockHeight| get_ancestor.requires((b, h))
//@|    ensures r matches Ok(x) ==> block_index.ht().0 > 0 && ({ let s = start(block_index.ht().0 as int, pos_config.block_count_to_average_for_blocktime as int);
//@|        exists|a: GenBlockIndex| #[trigger] get_ancestor.ensures((block_index, BlockHeight(s as u64)), Ok(a)) && block_index.time() >= a.time() && x == (block_index.time() - a.time()) / (block_index.ht().0 - s) }),
//@|        block_index.ht().0 == 0 ==> r is Err
/// the target in proportion to the time blocks take, within the allowed change and the limit
pub open spec fn pos_next(prev: int, actual: int, wanted: int, change: int, limit: int) -> int {
    let step = (prev * change) / 1000;
    low(clamped((prev * actual) / wanted, prev - step, prev + step), limit)
}
proof fn within(prev: int, change: int) requires 0 <= prev, 0 <= change <= 1000 ensures 0 <= (prev * change) / 1000 <= prev
{ assert(0 <= prev * change <= prev * 1000) by (nonlinear_arith) requires 0 <= prev, 0 <= change <= 1000; }
//@ fn T calculate_new_target
//@ . replace Uint256::try_from =>> Uint256::vf_of512
//@ . opt result
//@|    requires pos_config.ok()
//@|    ensures r matches Ok(c) && c == encoded(pos_next(prev_target.num(), if actual_block_time == 0 { 1 } else { actual_block_time as int }, target_block_time.val() as int, pos_config.difficulty_change_limit.0 as int, pos_config.target_limit.num()))
//@ . proof start
//@|    broadcast use of512_num, of512_range, of256_num, of256_range;
//@|    proof { bounds(); let p = prev_target.num(); let t = (if actual_block_time == 0 { 1 } else { actual_block_time as int });
//@|        product512(p, t); product512(p, pos_config.difficulty_change_limit.0 as int); within(p, pos_config.difficulty_change_limit.0 as int); assert(p * t >= 0) by (nonlinear_arith) requires p >= 0, t >= 0;
//@|        if target_block_time.val() > 0 { proportion(p * t, target_block_time.val() as int); } }
#[verifier::external_body] fn vf_panic<T>() -> T requires false { unimplemented!() }
//@ enum U PoWStatus
//@ enum U PoSStatus
//@ enum U RequiredConsensus
#[verifier::external_body] pub struct NetUpgrades { u: u64 }
impl NetUpgrades { pub uninterp spec fn status(&self, h: BlockHeight) -> RequiredConsensus; #[verifier::external_body] pub fn consensus_status(&self, h: BlockHeight) -> (r: RequiredConsensus) ensures r == self.status(h) { unimplemented!() } }
#[verifier::external_body] pub struct ChainConfig { c: u64 }
impl ChainConfig {
    pub uninterp spec fn upgrades(&self) -> NetUpgrades;
    pub uninterp spec fn spacing(&self) -> Duration;
    #[verifier::external_body] pub fn consensus_upgrades(&self) -> (r: &NetUpgrades) ensures *r == self.upgrades() { unimplemented!() }
    #[verifier::external_body] pub fn target_block_spacing(&self) -> (r: Duration) ensures r == self.spacing() { unimplemented!() }
}
/// the target of the block after `b`, when no upgrade sets one: from the average time of the blocks before it
pub open spec fn next_after<F>(conf: &PoSChainConfig, config: &ChainConfig, b: &BlockIndex, get_ancestor: F, c: Compact) -> bool where F: Fn(&BlockIndex, BlockHeight) -> Result<GenBlockIndex, ChainstateError> {
    let s = start(b.ht().0 as int, conf.block_count_to_average_for_blocktime as int);
    b.ht().0 > 0 && exists|a: GenBlockIndex| #[trigger] get_ancestor.ensures((b, BlockHeight(s as u64)), Ok(a)) && b.time() >= a.time() && decoded(b.head().data()->PoS_0.tgt()) is Some && config.spacing().ns() / second() > 0
        && ({ let avg = (b.time() - a.time()) / (b.ht().0 - s); c == encoded(pos_next(decoded(b.head().data()->PoS_0.tgt())->0, if avg == 0 { 1 } else { avg }, config.spacing().ns() / second(), conf.difficulty_change_limit.0 as int, conf.target_limit.num())) })
}
//@ fn T calculate_target_required_internal
//@ . method try_into => vf_try_into
//@|    requires pos_config.ok(), prev_block_index.ht().0 <= i64::MAX, prev_block_index.head().data() is PoS, chain_config.upgrades().status(prev_block_index.ht()) is PoS, forall|b: &BlockIndex, h: BlockHeight| get_ancestor.requires((b, h))
//@|    ensures match chain_config.upgrades().status(prev_block_index.ht())->PoS_0 {
//@|        PoSStatus::Threshold { initial_difficulty: Some(d), .. } => r == Ok::<_, ConsensusPoSError>(d),
//@|        _ => r matches Ok(c) ==> next_after(pos_config, chain_config, prev_block_index, get_ancestor, c) }
//@ fn T calculate_target_required_from_block_index
//@|    requires pos_status matches PoSStatus::Threshold { config, .. } ==> config.ok(), pos_status matches PoSStatus::Ongoing(config) ==> config.ok(), forall|b: &BlockIndex, h: BlockHeight| get_ancestor.requires((b, h)),
//@|        prev_gen_block_index matches GenBlockIndex::Block(b) ==> b.ht().0 <= i64::MAX && b.head().data() is PoS && chain_config.upgrades().status(b.ht()) is PoS
//@|    ensures match pos_status {
//@|        PoSStatus::Threshold { initial_difficulty: Some(d), .. } => r == Ok::<_, ConsensusPoSError>(*d),
//@|        PoSStatus::Threshold { initial_difficulty: None, config } => after(chain_config, config, prev_gen_block_index, get_ancestor, r),
//@|        PoSStatus::Ongoing(config) => after(chain_config, config, prev_gen_block_index, get_ancestor, r) }
pub open spec fn after<F>(config: &ChainConfig, conf: &PoSChainConfig, prev: &GenBlockIndex, get_ancestor: F, r: Result<Compact, ConsensusPoSError>) -> bool where F: Fn(&BlockIndex, BlockHeight) -> Result<GenBlockIndex, ChainstateError> {
    match prev {
        GenBlockIndex::Genesis(_) => r == Ok::<_, ConsensusPoSError>(encoded(conf.target_limit.num())),
        GenBlockIndex::Block(b) => match config.upgrades().status(b.ht())->PoS_0 { PoSStatus::Threshold { initial_difficulty: Some(d), .. } => r == Ok::<_, ConsensusPoSError>(d), _ => r matches Ok(c) ==> next_after(conf, config, b, get_ancestor, c) },
    }
}
}
fn main() {}
