//! C28: what is locked is not spent before its time.
use common::chain::{block::timestamp::BlockTimestamp, timelock::OutputTimeLock, OutPointSourceId, Transaction, UtxoOutPoint};
use common::primitives::{BlockCount, BlockHeight, Id, H256};
use mintscript::checker::{StandardTimelockChecker, TimelockChecker, TimelockContext, TimelockError as Refused};
use tx_verifier::timelock_check::{check_output_maturity_setting, check_timelock, OutputMaturityError, TimelockError};
use vsrc::{cases, inputs, Src};

const HALF: u64 = i64::MAX as u64;
fn point() -> UtxoOutPoint { UtxoOutPoint::new(OutPointSourceId::Transaction(Id::<Transaction>::new(H256::zero())), 7) }
fn num(s: &mut impl Src) -> u64 { match s.below(5) { 0 => s.below(12) as u64, 1 => HALF - 3 + s.below(7) as u64, 2 => u64::MAX - s.below(4) as u64, _ => s.u64() >> s.below(64) } }
fn lock(k: usize, x: u64) -> OutputTimeLock { match k { 0 => OutputTimeLock::UntilHeight(BlockHeight::new(x)), 1 => OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(x)), 2 => OutputTimeLock::ForBlockCount(x), _ => OutputTimeLock::ForSeconds(x) } }
/// Where the lock ends, if that can be said at all, and what is compared to it
fn ends(k: usize, x: u64, src: (u64, u64), at: (u64, u64)) -> (Option<u64>, u64) {
    match k { 0 => (Some(x), at.0), 1 => (Some(x), at.1), 2 => (if x > HALF { None } else { src.0.checked_add(x) }, at.0), _ => (src.1.checked_add(x), at.1) }
}
struct Data { at: (u64, u64), src: Result<(u64, u64), Lost> }
#[derive(Debug, Clone, PartialEq, Eq)]
struct Lost;
impl std::fmt::Display for Lost { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("lost") } }
impl std::error::Error for Lost {}
impl TimelockContext for Data {
    type Error = Lost;
    fn spending_height(&self) -> BlockHeight { BlockHeight::new(self.at.0) }
    fn spending_time(&self) -> BlockTimestamp { BlockTimestamp::from_int_seconds(self.at.1) }
    fn source_height(&self) -> Result<BlockHeight, Lost> { self.src.clone().map(|x| BlockHeight::new(x.0)) }
    fn source_time(&self) -> Result<BlockTimestamp, Lost> { self.src.clone().map(|x| BlockTimestamp::from_int_seconds(x.1)) }
}

cases! {
    c28_locks(s) {
        let (k, x, src) = (s.below(4), num(s), (num(s), num(s)));
        let mut at = (num(s), num(s));
        // close to the end of the lock, most of the time
        let base = ends(k, x, src, at).0.unwrap_or(u64::MAX);
        match s.below(4) { 0 => at = (base, base), 1 => at = (base.saturating_sub(1), base.saturating_sub(1)), 2 => at = (base.saturating_add(1), base.saturating_add(1)), _ => {} }
        inputs!(s, k, x, src, at);
        let (end, now) = ends(k, x, src, at);
        let (h, t) = (BlockHeight::new, BlockTimestamp::from_int_seconds);
        let r = check_timelock(&h(src.0), &t(src.1), &lock(k, x), &h(at.0), &t(at.1), &point());
        let want = match end {
            None => Err(if k == 2 { TimelockError::HeightArith } else { TimelockError::TimestampArith }),
            Some(e) if now >= e => Ok(()),
            Some(e) => Err(if k % 2 == 0 { TimelockError::HeightLocked(h(now), h(e)) } else { TimelockError::TimestampLocked(t(now), t(e)) }),
        };
        assert_eq!(r, want);
        // the same through a context of one's own
        let r = StandardTimelockChecker.check_timelock(&mut Data { at, src: Ok(src) }, &lock(k, x));
        assert_eq!(r.is_ok(), want.is_ok());
        // where the source is not known, a lock that counts from it never opens
        let r = StandardTimelockChecker.check_timelock(&mut Data { at, src: Err(Lost) }, &lock(k, x));
        match k { 0 | 1 => assert_eq!(r.is_ok(), want.is_ok()), 2 if x > HALF => assert!(r.is_err()), _ => assert_eq!(r, Err(Refused::Context(Lost))) }
    }
    c28_maturity(s) {
        let (k, x) = (s.below(4), num(s));
        let need = match s.below(4) { 0 => x, 1 => x.saturating_add(1), 2 => x.saturating_sub(1), _ => num(s) };
        inputs!(s, k, x, need);
        let r = check_output_maturity_setting(&lock(k, x), BlockCount::new(need), point());
        let want = if k != 2 { Err(OutputMaturityError::InvalidOutputMaturitySettingType(point())) } else if x < need { Err(OutputMaturityError::InvalidOutputMaturityDistance(point(), BlockCount::new(x), BlockCount::new(need))) } else { Ok(()) };
        assert_eq!(r, want);
    }
}
