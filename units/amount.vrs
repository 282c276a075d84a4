// Amount and SignedAmount: every operation returns the exact mathematical result, or None when that is not representable.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
//@ source A common/src/primitives/amount/mod.rs
//@ source S common/src/primitives/amount/signed.rs
//@ path signed::SignedIntType => SignedIntType
verus! {
fn vf_assert(b: bool) requires b { }
//@ type A UnsignedIntType
//@ type S SignedIntType
//@ struct A Amount derive Copy,Clone,PartialEq,Eq,Structural
//@ struct S SignedAmount derive Copy,Clone,PartialEq,Eq,Structural

pub assume_specification[i128::checked_neg](x: i128) -> (r: Option<i128>)
    ensures r == (if x == i128::MIN { None::<i128> } else { Some((-x) as i128) });

/// division truncated towards zero
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b >= 0 { a / b } else { -(a / -b) } } else { if b >= 0 { -(-a / b) } else { -a / -b } } }

// core's signed checked_div and checked_rem (truncating)
pub trait VfSignedDiv: Sized {
    spec fn vf_div(self, y: Self) -> Option<Self>;
    spec fn vf_rem(self, y: Self) -> Option<Self>;
    fn vf_checked_div(self, y: Self) -> (r: Option<Self>) ensures r == self.vf_div(y);
    fn vf_checked_rem(self, y: Self) -> (r: Option<Self>) ensures r == self.vf_rem(y);
}
impl VfSignedDiv for i128 {
    open spec fn vf_div(self, y: i128) -> Option<i128> { if y == 0 || (self == i128::MIN && y == -1) { None } else { Some(tdiv(self as int, y as int) as i128) } }
    open spec fn vf_rem(self, y: i128) -> Option<i128> { if y == 0 || (self == i128::MIN && y == -1) { None } else { Some((self - tdiv(self as int, y as int) * y) as i128) } }
    #[verifier::external_body]
    fn vf_checked_div(self, y: i128) -> (r: Option<i128>) { self.checked_div(y) }
    #[verifier::external_body]
    fn vf_checked_rem(self, y: i128) -> (r: Option<i128>) { self.checked_rem(y) }
}
proof fn lemma_tdiv(a: int, b: int)
    requires b != 0, i128::MIN <= a <= i128::MAX, i128::MIN <= b <= i128::MAX
    ensures (a == i128::MIN && b == -1) == !(i128::MIN <= tdiv(a, b) <= i128::MAX),
        !(a == i128::MIN && b == -1) ==> i128::MIN <= a - tdiv(a, b) * b <= i128::MAX
{
    let (p, q) = (if a >= 0 { a } else { -a }, if b >= 0 { b } else { -b });
    assert(p == q * (p / q) + p % q && 0 <= p % q < q && 0 <= p / q) by (nonlinear_arith) requires p >= 0, q > 0;
    assert(p / q <= p) by (nonlinear_arith) requires p >= 0, q > 0, p == q * (p / q) + p % q, 0 <= p % q, 0 <= p / q;
    if q > 1 { assert(2 * (p / q) <= p) by (nonlinear_arith) requires p >= 0, q >= 2, p == q * (p / q) + p % q, 0 <= p % q, 0 <= p / q; }
    if q == 1 { assert(p / q == p) by (nonlinear_arith) requires q == 1; }
    let t = p / q;
    if a >= 0 && b >= 0 { assert(a - t * b == p % q) by (nonlinear_arith) requires a == p, b == q, p == q * t + p % q; }
    if a >= 0 && b < 0 { assert(a - (-t) * b == p % q) by (nonlinear_arith) requires a == p, b == -q, p == q * t + p % q; }
    if a < 0 && b >= 0 { assert(a - (-t) * b == -(p % q)) by (nonlinear_arith) requires a == -p, b == q, p == q * t + p % q; }
    if a < 0 && b < 0 { assert(a - t * b == -(p % q)) by (nonlinear_arith) requires a == -p, b == -q, p == q * t + p % q; }
}

//@ include conv.vrs

pub open spec fn fit_u(x: int) -> Option<Amount> { if 0 <= x <= u128::MAX { Some(Amount { atoms: x as u128 }) } else { None } }
pub open spec fn fit_i(x: int) -> Option<SignedAmount> { if i128::MIN <= x <= i128::MAX { Some(SignedAmount { val: x as i128 }) } else { None } }

// derive(PartialOrd) on a struct of one field compares that field
impl PartialOrdSpecImpl for Amount {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Amount) -> Option<Ordering> { if self.atoms < o.atoms { Some(Ordering::Less) } else if self.atoms > o.atoms { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
}
impl PartialOrd for Amount { fn partial_cmp(&self, o: &Amount) -> Option<Ordering> { self.atoms.partial_cmp(&o.atoms) } }

impl AddSpecImpl<Amount> for Amount {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Amount) -> bool { true }
    open spec fn add_spec(self, o: Amount) -> Option<Amount> { fit_u(self.atoms + o.atoms) }
}
impl SubSpecImpl<Amount> for Amount {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Amount) -> bool { true }
    open spec fn sub_spec(self, o: Amount) -> Option<Amount> { fit_u(self.atoms - o.atoms) }
}
impl MulSpecImpl<u128> for Amount {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u128) -> bool { true }
    open spec fn mul_spec(self, o: u128) -> Option<Amount> { fit_u(self.atoms * o) }
}
impl DivSpecImpl<u128> for Amount {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: u128) -> bool { true }
    open spec fn div_spec(self, o: u128) -> Option<Amount> { if o == 0 { None } else { fit_u(self.atoms as int / o as int) } }
}
impl RemSpecImpl<u128> for Amount {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: u128) -> bool { true }
    open spec fn rem_spec(self, o: u128) -> Option<Amount> { if o == 0 { None } else { fit_u(self.atoms as int % o as int) } }
}
impl AddSpecImpl<SignedAmount> for SignedAmount {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: SignedAmount) -> bool { true }
    open spec fn add_spec(self, o: SignedAmount) -> Option<SignedAmount> { fit_i(self.val + o.val) }
}
impl SubSpecImpl<SignedAmount> for SignedAmount {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: SignedAmount) -> bool { true }
    open spec fn sub_spec(self, o: SignedAmount) -> Option<SignedAmount> { fit_i(self.val - o.val) }
}
impl MulSpecImpl<i128> for SignedAmount {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: i128) -> bool { true }
    open spec fn mul_spec(self, o: i128) -> Option<SignedAmount> { fit_i(self.val * o) }
}
impl DivSpecImpl<i128> for SignedAmount {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: i128) -> bool { true }
    open spec fn div_spec(self, o: i128) -> Option<SignedAmount> { if o == 0 { None } else { fit_i(tdiv(self.val as int, o as int)) } }
}
impl RemSpecImpl<i128> for SignedAmount {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: i128) -> bool { true }
    // as in core, the remainder does not exist where the quotient does not
    open spec fn rem_spec(self, o: i128) -> Option<SignedAmount> { if o == 0 || (self.val == i128::MIN && o == -1) { None } else { fit_i(self.val - tdiv(self.val as int, o as int) * o) } }
}
impl NegSpecImpl for SignedAmount {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Option<SignedAmount> { fit_i(-self.val) }
}

//@ impl A impl Amount
//@ fn from_atoms
//@ . opt const
//@|    ensures r.atoms == v
//@ fn into_atoms
//@|    ensures r == self.atoms
//@ fn from_signed
//@ . method try_into => vf_try_into
//@|    ensures r == fit_u(amount.val as int)
//@ fn into_signed
//@ . method try_into => vf_try_into
//@|    ensures r == fit_i(self.atoms as int)
//@ fn abs_diff
//@|    ensures r.atoms as int == (if self.atoms >= other.atoms { self.atoms - other.atoms } else { other.atoms - self.atoms })
//@ fn as_non_zero
//@|    ensures r == (if self.atoms == 0 { None } else { Some(self) })
//@ endimpl
impl Amount { pub const ZERO: Self = Amount { atoms: 0 }; }
//@ impl A impl std::ops::Add for Amount
//@ fn add
//@ endimpl
//@ impl A impl std::ops::Sub for Amount
//@ fn sub
//@ endimpl
//@ impl A impl std::ops::Mul<UnsignedIntType> for Amount
//@ fn mul
//@ endimpl
//@ impl A impl std::ops::Div<UnsignedIntType> for Amount
//@ fn div
//@ endimpl
//@ impl A impl std::ops::Rem<UnsignedIntType> for Amount
//@ fn rem
//@ endimpl
//@ impl S impl SignedAmount
//@ fn from_atoms
//@ . opt const
//@|    ensures r.val == v
//@ fn into_atoms
//@|    ensures r == self.val
//@ fn from_unsigned
//@ . method try_into => vf_try_into
//@|    ensures r == fit_i(amount.atoms as int)
//@ fn into_unsigned
//@ . method try_into => vf_try_into
//@|    ensures r == fit_u(self.val as int)
//@ endimpl
//@ impl S impl std::ops::Add for SignedAmount
//@ fn add
//@ endimpl
//@ impl S impl std::ops::Sub for SignedAmount
//@ fn sub
//@ endimpl
//@ impl S impl std::ops::Mul<SignedIntType> for SignedAmount
//@ fn mul
//@ endimpl
//@ impl S impl std::ops::Div<SignedIntType> for SignedAmount
//@ fn div
//@ . method checked_div => vf_checked_div
//@ . proof start
//@| proof { if other != 0 { lemma_tdiv(self.val as int, other as int); } }
//@ endimpl
//@ impl S impl std::ops::Rem<SignedIntType> for SignedAmount
//@ fn rem
//@ . method checked_rem => vf_checked_rem
//@ . proof start
//@| proof { if other != 0 { lemma_tdiv(self.val as int, other as int); } }
//@ endimpl
//@ impl S impl std::ops::Neg for SignedAmount
//@ fn neg
//@ endimpl
} // verus!
fn main() {}
