// The next target of proof of work, from the timespan of the last interval; and when a hash is low enough.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::ops::{Add, Sub};
//@ source W consensus/src/pow/helpers.rs
//@ source K consensus/src/pow/work.rs
//@ source P consensus/src/pow/mod.rs
//@ source WC common/src/chain/pow.rs
//@ path special_rules::block_production_stalled => block_production_stalled
verus! {
//@ include blocks.vrs
//@ fn W due_for_retarget
//@|    requires difficulty_adjustment_interval > 0
//@|    ensures r <==> block_height.0 % difficulty_adjustment_interval == 0
//@ fn W get_starting_block_time
//@|    requires 0 < difficulty_adjustment_interval <= block_index.ht().0 + 1, forall|b: &BlockIndex, h: BlockHeight| get_ancestor.requires((b, h))
//@|    ensures r matches Ok(t) ==> exists|a: GenBlockIndex| #[trigger] get_ancestor.ensures((block_index, BlockHeight((block_index.ht().0 - (difficulty_adjustment_interval - 1)) as u64)), Ok(a)) && t.timestamp == a.time()
//@ fn W block_production_stalled
//@|    requires prev_block_time + target_spacing_in_secs * 2 <= u64::MAX
//@|    ensures r <==> new_block_time > prev_block_time + 2 * target_spacing_in_secs
/// the target in proportion to the timespan, within the limit
pub open spec fn pow_next(old: int, span: int, wanted: int, limit: int) -> int { let p = if old * span < max256() { old * span } else { max256() - 1 }; low(p / wanted, limit) }
//@ fn W calculate_new_target
//@ . replace Uint256::try_from =>> Uint256::vf_of_compact
//@|    ensures match decoded(old_target) { Some(o) => r matches Ok(c) && c == encoded(pow_next(o, actual_timespan_of_last_interval as int, target_timespan.val() as int, difficulty_limit.num())), None => r is Err }
//@ . proof start
//@|    broadcast use of256_num, of256_range;
//@|    proof { bounds(); match decoded(old_target) { Some(o) => { if 0 <= o { assert(o * actual_timespan_of_last_interval >= 0) by (nonlinear_arith) requires o >= 0; if target_timespan.val() > 0 { let p = if o * actual_timespan_of_last_interval < max256() { o * actual_timespan_of_last_interval } else { max256() - 1 }; proportion(p, target_timespan.val() as int); } } } None => {} } }
//@ struct WC PoWChainConfig
//@ impl WC impl PoWChainConfig
//@ fn no_retargeting
//@|    ensures r == self.no_retargeting
//@ fn allow_min_difficulty_blocks
//@|    ensures r == self.allow_min_difficulty_blocks
//@ fn limit
//@|    ensures r == self.limit
//@ fn target_timespan
//@|    ensures r == dur(14 * 24 * 60 * 60 * second())
//@ fn target_spacing
//@|    ensures r == dur(600 * second())
//@ fn max_retarget_factor
//@|    ensures r == 4
//@ endimpl
//@ struct P PoW
//@ impl P impl PoW
//@ fn difficulty_limit
//@|    ensures r == self.0.limit
//@ fn no_retargeting
//@|    ensures r == self.0.no_retargeting
//@ fn allow_min_difficulty_blocks
//@|    ensures r == self.0.allow_min_difficulty_blocks
//@ fn target_spacing
//@|    ensures r == dur(600 * second())
//@ fn max_retarget_factor
//@|    ensures r == 4
//@ fn target_timespan_in_secs
//@|    ensures r.val() == 1209600
//@ . proof start
//@|    broadcast use dur_ns;
//@ fn max_target_timespan_in_secs
//@|    ensures r == 4838400
//@ fn min_target_timespan_in_secs
//@|    ensures r == 302400
//@ fn difficulty_adjustment_interval
//@|    ensures r == 2016
//@ . proof start
//@|    broadcast use dur_ns;
//@|    assert forall|x: int| x == 600 implies #[trigger] (1209600int / x) == 2016 by { }
//@ endimpl
/// what the new block must have as its target
pub open spec fn span(last: u64, first: u64) -> int { clamped(last - first, 302400, 4838400) }
//@ impl K impl PoW
//@ fn actual_timespan
//@|    ensures r == span(prev_block_blocktime, retarget_blocktime)
//@ fn next_work_required
//@|    ensures match decoded(prev_block_bits) { Some(o) => r matches Ok(c) && c == encoded(pow_next(o, span(prev_block_index.time(), retarget_block_time.timestamp), 1209600, self.0.limit.num())), None => r is Err }
//@ fn next_work_required_for_min_difficulty
//@|    requires prev_block_index.time() + 1200 <= u64::MAX
//@|    ensures r == (if new_block_time > prev_block_index.time() + 1200 { encoded(self.0.limit.num()) } else { prev_block_bits })
//@ . proof start
//@|    broadcast use dur_ns;
//@ fn get_work_required
//@|    requires prev_block_index.ht().0 < u64::MAX, prev_block_index.time() + 1200 <= u64::MAX, prev_block_index.head().data() is PoW, forall|b: &BlockIndex, h: BlockHeight| get_ancestor.requires((b, h))
//@|    ensures ({ let old = prev_block_index.head().data()->PoW_0.tgt(); let h = prev_block_index.ht().0 + 1;
//@|        if self.0.no_retargeting { r == Ok::<_, ConsensusPoWError>(old) }
//@|        else if h % 2016 != 0 { r == Ok::<_, ConsensusPoWError>(if self.0.allow_min_difficulty_blocks && new_block_time.timestamp > prev_block_index.time() + 1200 { encoded(self.0.limit.num()) } else { old }) }
//@|        else { r matches Ok(c) ==> exists|a: GenBlockIndex| #[trigger] get_ancestor.ensures((prev_block_index, BlockHeight((h - 2016) as u64)), Ok(a)) && decoded(old) is Some && c == encoded(pow_next(decoded(old)->0, span(prev_block_index.time(), a.time()), 1209600, self.0.limit.num())) } })
//@ endimpl
#[verifier::external_body] #[derive(Clone, Copy)] pub struct H256 { h: u64 }
impl H256 { pub uninterp spec fn num(&self) -> Uint256; }
impl vstd::std_specs::convert::FromSpecImpl<H256> for Uint256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: H256) -> Uint256 { x.num() } }
impl core::convert::From<H256> for Uint256 { #[verifier::external_body] fn from(x: H256) -> (r: Uint256) { unimplemented!() } }
//@ fn K check_proof_of_work
//@ . opt result
//@ . replace Uint256::try_from =>> Uint256::vf_of_compact
//@|    ensures match decoded(block_bits) { Some(t) => r == Ok::<_, ConsensusPoWError>(block_hash.num().num() <= t), None => r is Err }
}
fn main() {}
