// Contracts of @T@: those proved of the code in the units uint256 and uint512 (C03, C04).
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct @T@ { w: u64 }
pub uninterp spec fn @OF@(x: int) -> @T@;
#[verifier::external_body]
pub broadcast proof fn @OF@_num(x: int) requires 0 <= x < @MAX@() ensures (#[trigger] @OF@(x)).num() == x { }
#[verifier::external_body]
pub broadcast proof fn @OF@_range(x: @T@) ensures 0 <= #[trigger] x.num() < @MAX@(), @OF@(x.num()) == x { }
pub open spec fn @OF@_opt(x: int) -> Option<@T@> { if 0 <= x < @MAX@() { Some(@OF@(x)) } else { None } }
impl @T@ {
    pub uninterp spec fn num(&self) -> int;
    #[verifier::external_body]
    pub fn from_u64(x: u64) -> (r: @T@) ensures r == @OF@(x as int), r.num() == x { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u128(x: u128) -> (r: @T@) ensures r == @OF@(x as int), r.num() == x { unimplemented!() }
    #[verifier::external_body]
    pub const fn vf_max() -> (r: @T@) ensures r.num() == @MAX@() - 1 { @T@ { w: 0 } }
    #[verifier::external_body]
    pub const fn vf_one() -> (r: @T@) ensures r.num() == 1 { @T@ { w: 0 } }
    #[verifier::external_body]
    pub const fn vf_zero() -> (r: @T@) ensures r.num() == 0 { @T@ { w: 0 } }
    pub exec const MAX: @T@ ensures @T@::MAX.num() == @MAX@() - 1 { @T@::vf_max() }
    pub exec const ONE: @T@ ensures @T@::ONE.num() == 1 { @T@::vf_one() }
    pub exec const ZERO: @T@ ensures @T@::ZERO.num() == 0 { @T@::vf_zero() }
    #[verifier::external_body]
    pub fn checked_add(&self, o: &@T@) -> (r: Option<@T@>) ensures r == @OF@_opt(self.num() + o.num()) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(&self, o: &@T@) -> (r: Option<@T@>) ensures r == @OF@_opt(self.num() - o.num()) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(&self, o: &@T@) -> (r: Option<@T@>) ensures r == @OF@_opt(self.num() * o.num()) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div(&self, o: &@T@) -> (r: Option<@T@>) ensures r == (if o.num() == 0 { None } else { @OF@_opt(self.num() / o.num()) }) { unimplemented!() }
}
impl core::ops::Add<@T@> for @T@ { type Output = Option<@T@>; #[verifier::external_body] fn add(self, o: @T@) -> (r: Option<@T@>) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<@T@> for @T@ { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: @T@) -> bool { true } open spec fn add_spec(self, o: @T@) -> Option<@T@> { @OF@_opt(self.num() + o.num()) } }
impl core::ops::Sub<@T@> for @T@ { type Output = Option<@T@>; #[verifier::external_body] fn sub(self, o: @T@) -> (r: Option<@T@>) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<@T@> for @T@ { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: @T@) -> bool { true } open spec fn sub_spec(self, o: @T@) -> Option<@T@> { @OF@_opt(self.num() - o.num()) } }
impl core::ops::Mul<@T@> for @T@ { type Output = Option<@T@>; #[verifier::external_body] fn mul(self, o: @T@) -> (r: Option<@T@>) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<@T@> for @T@ { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: @T@) -> bool { true } open spec fn mul_spec(self, o: @T@) -> Option<@T@> { @OF@_opt(self.num() * o.num()) } }
impl core::ops::Div<@T@> for @T@ { type Output = Option<@T@>; #[verifier::external_body] fn div(self, o: @T@) -> (r: Option<@T@>) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<@T@> for @T@ { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: @T@) -> bool { true } open spec fn div_spec(self, o: @T@) -> Option<@T@> { if o.num() == 0 { None } else { @OF@_opt(self.num() / o.num()) } } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for @T@ { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &@T@) -> bool { self.num() == o.num() } }
impl core::cmp::PartialEq for @T@ { #[verifier::external_body] fn eq(&self, o: &@T@) -> (r: bool) { unimplemented!() } }
impl core::cmp::Eq for @T@ {}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for @T@ { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &@T@) -> Option<Ordering> { Some(if self.num() < o.num() { Ordering::Less } else if self.num() > o.num() { Ordering::Greater } else { Ordering::Equal }) } }
impl core::cmp::PartialOrd for @T@ { #[verifier::external_body] fn partial_cmp(&self, o: &@T@) -> (r: Option<Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::OrdSpecImpl for @T@ { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &@T@) -> Ordering { if self.num() < o.num() { Ordering::Less } else if self.num() > o.num() { Ordering::Greater } else { Ordering::Equal } } }
impl core::cmp::Ord for @T@ { #[verifier::external_body] fn cmp(&self, o: &@T@) -> (r: Ordering) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u64> for @T@ { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u64) -> @T@ { @OF@(x as int) } }
impl core::convert::From<u64> for @T@ { #[verifier::external_body] fn from(x: u64) -> (r: @T@) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u128> for @T@ { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u128) -> @T@ { @OF@(x as int) } }
impl core::convert::From<u128> for @T@ { #[verifier::external_body] fn from(x: u128) -> (r: @T@) { unimplemented!() } }
impl VfTryInto<u128> for @T@ {
    open spec fn vf_into(self) -> Option<u128> { if self.num() <= u128::MAX { Some(self.num() as u128) } else { None } }
    #[verifier::external_body] fn vf_try_into(self) -> (r: core::result::Result<u128, ()>) { unimplemented!() }
}
