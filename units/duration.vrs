/// core's Duration: a number of nanoseconds less than 2^64 seconds
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Duration { d: u64 }
pub uninterp spec fn dur(x: int) -> Duration;
pub open spec fn second() -> int { 1_000_000_000 }
pub open spec fn most() -> int { (u64::MAX + 1) * second() - 1 }
pub open spec fn dur_opt(x: int) -> Option<Duration> { if 0 <= x <= most() { Some(dur(x)) } else { None } }
pub open spec fn cut(x: int) -> int { if x < 0 { 0 } else if x > most() { most() } else { x } }
#[verifier::external_body]
pub broadcast proof fn dur_ns(x: int) requires 0 <= x <= most() ensures (#[trigger] dur(x)).ns() == x { }
#[verifier::external_body]
pub broadcast proof fn dur_range(x: Duration) ensures 0 <= #[trigger] x.ns() <= most(), dur(x.ns()) == x { }
impl Duration {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body] pub const fn new(secs: u64, nanos: u32) -> (r: Duration) requires nanos < 1_000_000_000 ensures r == dur(secs * second() + nanos) { unimplemented!() }
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r == self.ns() / second() { unimplemented!() }
    #[verifier::external_body] pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.ns() % second() { unimplemented!() }
    #[verifier::external_body] pub fn as_millis(&self) -> (r: u128) ensures r == self.ns() / 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_millis(v: u64) -> (r: Duration) ensures r == dur(v * 1_000_000) { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(v: u64) -> (r: Duration) ensures r == dur(v * second()) { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: Duration) -> (r: Option<Duration>) ensures r == dur_opt(self.ns() + o.ns()) { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: Duration) -> (r: Option<Duration>) ensures r == dur_opt(self.ns() - o.ns()) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_add(self, o: Duration) -> (r: Duration) ensures r == dur(cut(self.ns() + o.ns())) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_sub(self, o: Duration) -> (r: Duration) ensures r == dur(cut(self.ns() - o.ns())) { unimplemented!() }
}
