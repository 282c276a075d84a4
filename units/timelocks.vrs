// Time locks: a locked output is not spent before the height or the time its lock says.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::ops::{Add, Sub};
//@ source S mintscript/src/checker/timelock.rs
//@ source V chainstate/tx-verifier/src/transaction_verifier/timelock_check.rs
//@ source K common/src/chain/transaction/output/timelock.rs
//@ path mintscript::checker::StandardTimelockChecker => StandardTimelockChecker
//@ path mintscript::checker::TimelockContext => TimelockContext
//@ path std::convert::Infallible => Infallible
//@ path i64::try_from => vf_i64
verus! {
//@ include height.vrs
//@ include stamp.vrs
impl PartialOrdSpecImpl for BlockCount { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &BlockCount) -> Option<core::cmp::Ordering> { Some(ordered(self.0 as int, o.0 as int)) } }
impl core::cmp::PartialOrd for BlockCount { #[verifier::external_body] fn partial_cmp(&self, o: &BlockCount) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
//@ enum K OutputTimeLock derive Clone,Copy
//@ enum S TimelockError
// (thiserror's `#[from]`)
impl<CE> core::convert::From<CE> for TimelockError<CE> { #[verifier::external_body] fn from(e: CE) -> (r: TimelockError<CE>) { TimelockError::Context(e) } }
#[verifier::external_body]
pub struct Infallible { never: core::convert::Infallible }
// (`i64::try_from`)
pub fn vf_i64(x: u64) -> (r: core::result::Result<i64, ()>) ensures r == (if x <= i64::MAX { Ok::<i64, ()>(x as i64) } else { Err(()) }) { if x <= 0x7fff_ffff_ffff_ffff { Ok(x as i64) } else { Err(()) } }
/// What is known where an output is spent (each part is asked for as often as one likes and stays the same)
pub trait TimelockContext {
    type Error;
    spec fn now_height(&self) -> BlockHeight;
    spec fn now_time(&self) -> BlockTimestamp;
    spec fn made_height(&self) -> core::result::Result<BlockHeight, Self::Error>;
    spec fn made_time(&self) -> core::result::Result<BlockTimestamp, Self::Error>;
    fn spending_height(&self) -> (r: BlockHeight) ensures r == self.now_height();
    fn spending_time(&self) -> (r: BlockTimestamp) ensures r == self.now_time();
    fn source_height(&self) -> (r: core::result::Result<BlockHeight, Self::Error>) ensures r == self.made_height();
    fn source_time(&self) -> (r: core::result::Result<BlockTimestamp, Self::Error>) ensures r == self.made_time();
}
pub struct StandardTimelockChecker;
//@ inline S check_at_least
/// The verdict on a lock: made at (height, time) or not known, looked at from (height, time)
pub open spec fn verdict<CE>(lock: OutputTimeLock, at: (BlockHeight, BlockTimestamp), mh: core::result::Result<BlockHeight, CE>, mt: core::result::Result<BlockTimestamp, CE>) -> core::result::Result<(), TimelockError<CE>> {
    match lock {
        OutputTimeLock::UntilHeight(h) => if at.0.0 >= h.0 { Ok(()) } else { Err(TimelockError::HeightLocked(at.0, h)) },
        OutputTimeLock::UntilTime(t) => if at.1.timestamp >= t.timestamp { Ok(()) } else { Err(TimelockError::TimestampLocked(at.1, t)) },
        OutputTimeLock::ForBlockCount(d) => if d > i64::MAX { Err(TimelockError::HeightArith) } else { match mh { Err(e) => Err(TimelockError::Context(e)), Ok(h) =>
            if h.0 + d > u64::MAX { Err(TimelockError::HeightArith) } else if at.0.0 >= h.0 + d { Ok(()) } else { Err(TimelockError::HeightLocked(at.0, BlockHeight((h.0 + d) as u64))) } } },
        OutputTimeLock::ForSeconds(s) => match mt { Err(e) => Err(TimelockError::Context(e)), Ok(t) =>
            if t.timestamp + s > u64::MAX { Err(TimelockError::TimestampArith) } else if at.1.timestamp >= t.timestamp + s { Ok(()) } else { Err(TimelockError::TimestampLocked(at.1, BlockTimestamp { timestamp: (t.timestamp + s) as u64 })) } },
    }
}
/// What is locked opens at its end and stays open; before that it does not open; without the place it counts from it never opens
proof fn locked<CE>(lock: OutputTimeLock, at: (BlockHeight, BlockTimestamp), later: (BlockHeight, BlockTimestamp), mh: core::result::Result<BlockHeight, CE>, mt: core::result::Result<BlockTimestamp, CE>)
    requires at.0.0 <= later.0.0, at.1.timestamp <= later.1.timestamp
    ensures verdict(lock, at, mh, mt) is Ok ==> verdict(lock, later, mh, mt) is Ok,
        verdict(lock, at, mh, mt) is Ok ==> match lock { OutputTimeLock::UntilHeight(h) => h.0 <= at.0.0, OutputTimeLock::UntilTime(t) => t.timestamp <= at.1.timestamp,
            OutputTimeLock::ForBlockCount(d) => mh is Ok && mh->Ok_0.0 + d <= at.0.0, OutputTimeLock::ForSeconds(d) => mt is Ok && mt->Ok_0.timestamp + d <= at.1.timestamp },
        // a lock of nothing is no lock
        lock == OutputTimeLock::ForBlockCount(0) && mh is Ok && mh->Ok_0.0 <= at.0.0 ==> verdict(lock, at, mh, mt) is Ok,
{ }
/// A checker of time locks gives its verdict and changes nothing
pub trait TimelockChecker<C>: Sized {
    type Error;
    spec fn opens(&self, ctx: C, lock: OutputTimeLock) -> bool;
    fn check_timelock(&mut self, ctx: &mut C, lock: &OutputTimeLock) -> (r: core::result::Result<(), Self::Error>)
        ensures (r is Ok) == old(self).opens(*old(ctx), *lock), *final(self) == *old(self), *final(ctx) == *old(ctx);
}
pub open spec fn seen<C: TimelockContext>(lock: OutputTimeLock, ctx: C) -> core::result::Result<(), TimelockError<C::Error>> { verdict(lock, (ctx.now_height(), ctx.now_time()), ctx.made_height(), ctx.made_time()) }
//@ impl S impl<C: TimelockContext> TimelockChecker<C> for StandardTimelockChecker
    open spec fn opens(&self, ctx: C, lock: OutputTimeLock) -> bool { seen(lock, ctx) is Ok }
//@ fn check_timelock
//@|    ensures !(seen(*lock, *old(ctx)) matches Err(TimelockError::Context(_))) ==> r == seen(*lock, *old(ctx))
//@ . retype core::result::Result<(), TimelockError<C::Error>>
//@ endimpl
pub struct NoOpTimelockChecker;
//@ impl S impl<C> TimelockChecker<C> for NoOpTimelockChecker
    open spec fn opens(&self, ctx: C, lock: OutputTimeLock) -> bool { true }
//@ fn check_timelock
//@ endimpl
//@ enum V OutputMaturityError
//@ include outpoint.vrs
//@ struct V TimelockData
//@ impl V impl mintscript::checker::TimelockContext for TimelockData
    open spec fn now_height(&self) -> BlockHeight { self.spending_height }
    open spec fn now_time(&self) -> BlockTimestamp { self.spending_time }
    open spec fn made_height(&self) -> core::result::Result<BlockHeight, Infallible> { Ok(self.source_height) }
    open spec fn made_time(&self) -> core::result::Result<BlockTimestamp, Infallible> { Ok(self.source_time) }
//@ fn spending_height
//@ fn spending_time
//@ fn source_height
//@ fn source_time
//@ endimpl
//@ fn V check_timelock
//@|    ensures r == verdict(*timelock, (*spend_height, *spending_time), core::result::Result::<BlockHeight, Infallible>::Ok(*source_block_height), Ok(*source_block_time))
//@ . retype core::result::Result<(), TimelockError<Infallible>>
//@ fn V check_output_maturity_setting
//@|    ensures r == (match *timelock { OutputTimeLock::ForBlockCount(c) => if c >= required.0 { Ok(()) } else { Err(OutputMaturityError::InvalidOutputMaturityDistance(outpoint, BlockCount(c), required)) }, _ => Err(OutputMaturityError::InvalidOutputMaturitySettingType(outpoint)) })
} // verus!
fn main() {}
