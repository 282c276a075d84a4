// Times and their arithmetic, over std's Duration.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
//@ source T common/src/primitives/time.rs
//@ path std::num::TryFromIntError => TryFromIntError
verus! {
//@ include word.vrs
//@ include conv.vrs
pub struct TryFromIntError;
//@ include duration.vrs
//@ struct T Time derive Clone,Copy
pub trait VfMs { spec fn ms(&self) -> int; fn vf_into_u64(self) -> (r: core::result::Result<u64, TryFromIntError>) ensures match r { Ok(x) => x == self.ms(), Err(_) => self.ms() > u64::MAX }; }
impl VfMs for u128 { open spec fn ms(&self) -> int { *self as int } #[verifier::external_body] fn vf_into_u64(self) -> (r: core::result::Result<u64, TryFromIntError>) { unimplemented!() } }
//@ fn T duration_to_int
//@ . method try_into => vf_into_u64
//@|    ensures match r { Ok(x) => x == d.ns() / 1_000_000, Err(_) => d.ns() / 1_000_000 > u64::MAX }
//@ fn T duration_from_int
//@|    ensures r.ns() == v * 1_000_000
//@ . proof start
//@|    broadcast use dur_ns, dur_range;

pub open spec fn time(x: int) -> Option<Time> { match dur_opt(x) { Some(d) => Some(Time { time: d }), None => None } }
//@ impl T impl Time
//@ fn as_duration_since_epoch
//@|    ensures r == self.time
//@ fn as_secs_since_epoch
//@|    ensures r == self.time.ns() / second()
//@ fn from_duration_since_epoch
//@|    ensures r.time == duration
//@ fn from_secs_since_epoch
//@|    ensures r.time.ns() == seconds * second()
//@ . proof start
//@|    broadcast use dur_ns, dur_range;
//@ fn saturating_duration_add
//@|    ensures r.time == dur(cut(self.time.ns() + duration.ns()))
//@ fn saturating_duration_sub
//@|    ensures r.time == dur(cut(self.time.ns() - t.ns()))
//@ fn saturating_sub
//@|    ensures r == dur(cut(self.time.ns() - t.time.ns()))
//@ endimpl
impl AddSpecImpl<Duration> for Time {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Duration) -> bool { true }
    open spec fn add_spec(self, o: Duration) -> Option<Time> { time(self.time.ns() + o.ns()) }
}
//@ impl T impl std::ops::Add<Duration> for Time
//@ fn add
//@ endimpl
impl SubSpecImpl<Duration> for Time {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Duration) -> bool { true }
    open spec fn sub_spec(self, o: Duration) -> Option<Time> { time(self.time.ns() - o.ns()) }
}
//@ impl T impl std::ops::Sub<Duration> for Time
//@ fn sub
//@ endimpl
} // verus!
fn main() {}
