// The wide integers, fractions, minimum and clamping, as the consensus rules use them.
//@ source R common/src/primitives/rational.rs
//@ path std::cmp::min => vf_min
//@ path num::clamp => vf_clamp
//@ path Rational::<u128>::new => Rational::new
verus! {
//@ include amount.vrs
//@ include wide.vrs T=Uint256 OF=of256 MAX=max256
//@ include wide.vrs T=Uint512 OF=of512 MAX=max512
pub open spec fn max256() -> int { (u128::MAX + 1) * (u128::MAX + 1) }
pub open spec fn max512() -> int { max256() * max256() }
proof fn product(a: int, b: int) requires 0 <= a <= u128::MAX, 0 <= b <= u128::MAX ensures 0 <= a * b < max256() { assert(0 <= a * b <= u128::MAX * u128::MAX) by (nonlinear_arith) requires 0 <= a <= u128::MAX, 0 <= b <= u128::MAX; }
proof fn product512(a: int, b: int) requires 0 <= a < max256(), 0 <= b < max256() ensures 0 <= a * b < max512() { assert(0 <= a * b < max512()) by (nonlinear_arith) requires 0 <= a < max256(), 0 <= b < max256(), max512() == max256() * max256(); }
proof fn bounds() ensures max256() > u128::MAX, max512() > 4 * max256() { assert(max256() > u128::MAX) by (nonlinear_arith) requires max256() == (u128::MAX + 1) * (u128::MAX + 1); assert(max512() > 4 * max256()) by (nonlinear_arith) requires max512() == max256() * max256(), max256() > 4; }
impl vstd::std_specs::convert::FromSpecImpl<Uint256> for Uint512 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Uint256) -> Uint512 { of512(x.num()) } }
impl core::convert::From<Uint256> for Uint512 { #[verifier::external_body] fn from(x: Uint256) -> (r: Uint512) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Amount> for Uint512 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Amount) -> Uint512 { of512(x.atoms as int) } }
impl core::convert::From<Amount> for Uint512 { #[verifier::external_body] fn from(x: Amount) -> (r: Uint512) { unimplemented!() } }
impl Uint256 { #[verifier::external_body] pub fn vf_of512(x: Uint512) -> (r: core::result::Result<Uint256, ()>) ensures match r { Ok(y) => y.num() == x.num(), Err(_) => x.num() >= max256() } { unimplemented!() } }
pub trait VfKey { spec fn key(&self) -> int; }
impl VfKey for u128 { open spec fn key(&self) -> int { *self as int } }
impl VfKey for u64 { open spec fn key(&self) -> int { *self as int } }
impl VfKey for Uint256 { open spec fn key(&self) -> int { self.num() } }
impl VfKey for Uint512 { open spec fn key(&self) -> int { self.num() } }
#[verifier::external_body]
pub fn vf_min<T: VfKey + Ord>(a: T, b: T) -> (r: T) ensures r == (if b.key() < a.key() { b } else { a }) { core::cmp::min(a, b) }
#[verifier::external_body]
pub fn vf_clamp<T: VfKey + Ord>(x: T, lo: T, hi: T) -> (r: T) requires lo.key() <= hi.key() ensures r == (if x.key() < lo.key() { lo } else if x.key() > hi.key() { hi } else { x }) { unimplemented!() }
//@ struct R Rational
//@ impl R impl<T> Rational<T>
//@ fn new
//@ . opt const
//@ . replace assert!(std::mem::size_of::<T>() * 2 <= std::mem::size_of::<Uint512>()) =>> ()
//@|    ensures r.numer == numer, r.denom == denom
//@ fn numer
//@|    ensures *r == self.numer
//@ fn denom
//@|    ensures *r == self.denom
//@ endimpl
} // verus!
