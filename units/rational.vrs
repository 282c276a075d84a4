// The order of fractions, over the contracts of Uint512 (proved in the unit uint512).
use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
//@ source R common/src/primitives/rational.rs
//@ mono T Num
verus! {
pub open spec fn order(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// A number of one of the supported widths: at most 256 bits (the compiled constructor asserts it)
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Num { w: u64 }
impl Num { pub uninterp spec fn num(&self) -> int; }
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Uint512 { w: u64 }
pub uninterp spec fn max512() -> int;
impl Uint512 { pub uninterp spec fn num(&self) -> int; }
/// the value of a supported width, and (for the product) of half the width of Uint512
#[verifier::external_body]
pub proof fn supported(a: Num) ensures 0 <= a.num() < half(), half() * half() == max512(), half() > 0 { }
pub uninterp spec fn half() -> int;
pub uninterp spec fn of512(x: int) -> Uint512;
#[verifier::external_body]
pub broadcast proof fn of512_num(x: int) requires 0 <= x < max512() ensures (#[trigger] of512(x)).num() == x { }
impl PartialEqSpecImpl for Num { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Num) -> bool { self.num() == o.num() } }
impl PartialEq for Num { #[verifier::external_body] fn eq(&self, o: &Num) -> (r: bool) { self.w == o.w } }
pub trait VfOrd: Sized { spec fn key(&self) -> int; fn vf_cmp(&self, o: &Self) -> (r: Ordering) ensures r == order(self.key(), o.key()); }
impl VfOrd for Num {
    open spec fn key(&self) -> int { self.num() }
    #[verifier::external_body] fn vf_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() }
}
impl VfOrd for Option<Uint512> {
    open spec fn key(&self) -> int { match self { Some(x) => x.num(), None => -1 } }
    #[verifier::external_body] fn vf_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() }
}
impl Num { #[verifier::external_body] pub fn into(self) -> (r: Uint512) ensures r.num() == self.num() { unimplemented!() } }
impl core::ops::Mul<Uint512> for Uint512 { type Output = Option<Uint512>;
    #[verifier::external_body] fn mul(self, o: Uint512) -> (r: Option<Uint512>) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Uint512> for Uint512 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Uint512) -> bool { true }
    open spec fn mul_spec(self, o: Uint512) -> Option<Uint512> { if self.num() * o.num() < max512() { Some(of512(self.num() * o.num())) } else { None } }
}
/// a fraction with a denominator is below another when the cross products are
pub open spec fn frac_order(a: Rational<Num>, b: Rational<Num>) -> Ordering { order(a.numer.num() * b.denom.num(), b.numer.num() * a.denom.num()) }
pub proof fn cross(a: int, b: int, d: int) requires d > 0 ensures order(a * d, b * d) == order(a, b) {
    if a < b { assert(a * d < b * d) by (nonlinear_arith) requires a < b, d > 0; }
    if a > b { assert(a * d > b * d) by (nonlinear_arith) requires a > b, d > 0; }
}
pub proof fn product(a: int, b: int, h: int) requires 0 <= a < h, 0 <= b < h ensures 0 <= a * b < h * h { assert(0 <= a * b < h * h) by (nonlinear_arith) requires 0 <= a < h, 0 <= b < h; }
//@ struct R Rational
//@ impl R impl<T> Rational<T>
//@ fn numer
//@|    ensures *r == self.numer
//@ fn denom
//@|    ensures *r == self.denom
//@ endimpl
//@ inherent R impl<T: Into<Uint512> + ComparableType + Ord + Copy> Ord for Rational<T>
//@ fn cmp
//@ . method cmp => vf_cmp
//@|    requires self.denom.num() > 0, other.denom.num() > 0
//@|    ensures r == frac_order(*self, *other)
//@ . proof start
//@|    proof {
//@|        broadcast use of512_num;
//@|        let (a, b, c, d) = (self.numer, self.denom, other.numer, other.denom);
//@|        supported(a); supported(b); supported(c); supported(d);
//@|        product(a.num(), d.num(), half()); product(c.num(), b.num(), half());
//@|        cross(a.num(), c.num(), b.num());
//@|    }
//@ endimpl
//@ inherent R impl<T: Into<Uint512> + ComparableType + Ord + Copy> PartialOrd for Rational<T>
//@ fn partial_cmp
//@|    requires self.denom.num() > 0, other.denom.num() > 0
//@|    ensures r == Some(frac_order(*self, *other))
//@ endimpl
/// the order is that of the rational numbers: it is total, and it is transitive
pub proof fn antisymmetric(a: Rational<Num>, b: Rational<Num>) ensures frac_order(a, b) == Ordering::Less <==> frac_order(b, a) == Ordering::Greater, frac_order(a, b) == Ordering::Equal <==> frac_order(b, a) == Ordering::Equal { }
pub proof fn transitive(a: Rational<Num>, b: Rational<Num>, c: Rational<Num>)
    requires a.denom.num() > 0, b.denom.num() > 0, c.denom.num() > 0, frac_order(a, b) != Ordering::Greater, frac_order(b, c) != Ordering::Greater
    ensures frac_order(a, c) != Ordering::Greater, frac_order(a, c) == Ordering::Equal ==> frac_order(a, b) == Ordering::Equal && frac_order(b, c) == Ordering::Equal
{
    let (an, ad, bn, bd, cn, cd) = (a.numer.num(), a.denom.num(), b.numer.num(), b.denom.num(), c.numer.num(), c.denom.num());
    // an*bd <= bn*ad and bn*cd <= cn*bd, so an*bd*cd <= bn*ad*cd <= cn*bd*ad
    assert((an * bd) * cd <= (bn * ad) * cd) by (nonlinear_arith) requires an * bd <= bn * ad, cd > 0;
    assert((bn * cd) * ad <= (cn * bd) * ad) by (nonlinear_arith) requires bn * cd <= cn * bd, ad > 0;
    assert((an * bd) * cd == (an * cd) * bd && (bn * ad) * cd == (bn * cd) * ad && (cn * bd) * ad == (cn * ad) * bd) by (nonlinear_arith);
    if an * cd > cn * ad { assert((an * cd) * bd > (cn * ad) * bd) by (nonlinear_arith) requires an * cd > cn * ad, bd > 0; }
    if an * cd == cn * ad {
        if an * bd < bn * ad { assert((an * bd) * cd < (bn * ad) * cd) by (nonlinear_arith) requires an * bd < bn * ad, cd > 0; }
        if bn * cd < cn * bd { assert((bn * cd) * ad < (cn * bd) * ad) by (nonlinear_arith) requires bn * cd < cn * bd, ad > 0; }
    }
}
}
fn main() {}
