// DecimalAmount: changing the number of decimals never changes the number that is meant.
use vstd::prelude::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
//@ source A common/src/primitives/amount/mod.rs
//@ source D common/src/primitives/amount/decimal.rs
//@ path std::cmp::max => vf_max
verus! {
fn vf_assert(b: bool) requires b { }
//@ type A UnsignedIntType
//@ struct A Amount derive Copy,Clone,PartialEq,Eq
//@ struct D DecimalAmount derive Clone,Copy
//@ const D TEN

// core: max, checked_pow
#[verifier::external_body]
fn vf_max(a: u8, b: u8) -> (r: u8) ensures r == (if a >= b { a } else { b }) { a.max(b) }
pub trait VfPow: Sized {
    spec fn vf_pow(self, e: u32) -> Option<Self>;
    fn vf_checked_pow(self, e: u32) -> (r: Option<Self>) ensures r == self.vf_pow(e);
}
impl VfPow for u128 {
    open spec fn vf_pow(self, e: u32) -> Option<u128> { if 0 <= pow(self as int, e as nat) <= u128::MAX { Some(pow(self as int, e as nat) as u128) } else { None } }
    #[verifier::external_body]
    fn vf_checked_pow(self, e: u32) -> (r: Option<u128>) { self.checked_pow(e) }
}

pub open spec fn p10(n: int) -> int { pow(10, n as nat) }
/// The numbers are equal: a / 10^da == b / 10^db
pub open spec fn same_number(a: DecimalAmount, b: DecimalAmount) -> bool { a.mantissa * p10(b.decimals as int) == b.mantissa * p10(a.decimals as int) }
pub open spec fn minimal(a: DecimalAmount) -> bool { a.decimals == 0 || a.mantissa % 10 != 0 }

proof fn cancel(m: int, x: int, y: int) requires m > 0, x * m == y * m ensures x == y { assert(x == y) by (nonlinear_arith) requires m > 0, x * m == y * m; }
proof fn p10_pos(n: int) requires n >= 0 ensures p10(n) >= 1 { lemma_pow_positive(10, n as nat); }
proof fn p10_add(a: int, b: int) requires a >= 0, b >= 0 ensures p10(a + b) == p10(a) * p10(b) { lemma_pow_adds(10, a as nat, b as nat); }
proof fn p10_step(a: int) requires a >= 1 ensures p10(a) == 10 * p10(a - 1) { p10_add(1, a - 1); lemma_pow1(10); }
/// x / 10^a == y / 10^b and y / 10^b == z / 10^c give x / 10^a == z / 10^c
proof fn same_trans(x: int, a: int, y: int, b: int, z: int, c: int)
    requires a >= 0, b >= 0, c >= 0, x * p10(b) == y * p10(a), y * p10(c) == z * p10(b)
    ensures x * p10(c) == z * p10(a)
{
    p10_pos(b);
    assert((x * p10(c)) * p10(b) == (z * p10(a)) * p10(b)) by (nonlinear_arith) requires x * p10(b) == y * p10(a), y * p10(c) == z * p10(b);
    cancel(p10(b), x * p10(c), z * p10(a));
}

/// x can be written with d decimals
pub open spec fn fits(x: DecimalAmount, d: u8) -> bool { d >= x.decimals && x.mantissa * p10(d - x.decimals) <= u128::MAX }
/// What a refusal of the last step of to_amount means for the number before
pub open spec fn to_amount_ok(x: DecimalAmount, y: DecimalAmount, to: u8) -> bool {
    !fits(y, to) ==> forall|a: u128| x.mantissa * p10(to as int) != #[trigger] (a * p10(x.decimals as int))
}
proof fn lemma_to_amount(x: DecimalAmount, m: u128, d: u8, to: u8)
    requires same_number(x, DecimalAmount { mantissa: m, decimals: d }), minimal(DecimalAmount { mantissa: m, decimals: d })
    ensures to_amount_ok(x, DecimalAmount { mantissa: m, decimals: d }, to)
{
    if to < d || m * p10(to - d) > u128::MAX {
        assert forall|a: u128| x.mantissa * p10(to as int) != #[trigger] (a * p10(x.decimals as int)) by {
            if x.mantissa * p10(to as int) == a * p10(x.decimals as int) {
                // then m / 10^d == a / 10^to
                same_trans(m as int, d as int, x.mantissa as int, x.decimals as int, a as int, to as int);
                assert(m * p10(to as int) == a * p10(d as int));
                p10_pos(to as int); p10_pos(d as int);
                if to < d {
                    let e = d - to;
                    p10_add(to as int, e);
                    assert(m * p10(to as int) == (a * p10(e)) * p10(to as int)) by (nonlinear_arith) requires m * p10(to as int) == a * p10(d as int), p10(d as int) == p10(to as int) * p10(e);
                    cancel(p10(to as int), m as int, a * p10(e));
                    p10_step(e);
                    assert(m == 10 * (a * p10(e - 1))) by (nonlinear_arith) requires m == a * p10(e), p10(e) == 10 * p10(e - 1);
                    assert(m % 10 == 0);
                } else {
                    let e = to - d;
                    p10_add(d as int, e);
                    assert((m * p10(e)) * p10(d as int) == a * p10(d as int)) by (nonlinear_arith) requires m * p10(to as int) == a * p10(d as int), p10(to as int) == p10(d as int) * p10(e);
                    cancel(p10(d as int), m * p10(e), a as int);
                }
            }
        }
    }
}
/// The numbers equal to one that is equal to x
proof fn lemma_same(x: DecimalAmount)
    ensures same_number(x, x), forall|y: DecimalAmount, z: DecimalAmount| #[trigger] same_number(x, y) && #[trigger] same_number(y, z) ==> same_number(x, z)
{
    assert forall|y: DecimalAmount, z: DecimalAmount| #[trigger] same_number(x, y) && #[trigger] same_number(y, z) implies same_number(x, z) by {
        same_trans(x.mantissa as int, x.decimals as int, y.mantissa as int, y.decimals as int, z.mantissa as int, z.decimals as int);
    }
}
proof fn lemma_sub(l: DecimalAmount, r0: DecimalAmount, r: DecimalAmount, m: int, l2: int, r2: int, x: DecimalAmount)
    requires same_number(r0, r), l2 - r2 >= 0, m >= 0, l.mantissa * p10(m) == l2 * p10(l.decimals as int), r.mantissa * p10(m) == r2 * p10(r.decimals as int), (l2 - r2) * p10(x.decimals as int) == x.mantissa * p10(m)
    ensures sub_result(l, r0, x)
{
    let (a, b, c) = (p10(l.decimals as int), p10(r0.decimals as int), p10(x.decimals as int));
    same_trans(r0.mantissa as int, r0.decimals as int, r.mantissa as int, r.decimals as int, r2, m);
    p10_pos(m);
    // multiply everything by 10^m
    assert((l.mantissa * b * c) * p10(m) == (l2 * a) * b * c) by (nonlinear_arith) requires l.mantissa * p10(m) == l2 * a;
    assert((r0.mantissa * a * c) * p10(m) == (r2 * b) * a * c) by (nonlinear_arith) requires r0.mantissa * p10(m) == r2 * b;
    assert((x.mantissa * a * b) * p10(m) == ((l2 - r2) * c) * a * b) by (nonlinear_arith) requires (l2 - r2) * c == x.mantissa * p10(m);
    assert((l2 * a) * b * c == (r2 * b) * a * c + ((l2 - r2) * c) * a * b) by (nonlinear_arith);
    assert((r0.mantissa * a * c + x.mantissa * a * b) * p10(m) == (l.mantissa * b * c) * p10(m)) by (nonlinear_arith)
        requires (l.mantissa * b * c) * p10(m) == (r0.mantissa * a * c) * p10(m) + (x.mantissa * a * b) * p10(m);
    cancel(p10(m), r0.mantissa * a * c + x.mantissa * a * b, l.mantissa * b * c);
}
/// l - r == x as numbers
pub open spec fn sub_result(l: DecimalAmount, r: DecimalAmount, x: DecimalAmount) -> bool {
    l.mantissa * p10(r.decimals as int) * p10(x.decimals as int) == r.mantissa * p10(l.decimals as int) * p10(x.decimals as int) + x.mantissa * p10(l.decimals as int) * p10(r.decimals as int)
}
pub open spec fn num_lt(l: DecimalAmount, r: DecimalAmount) -> bool { l.mantissa * p10(r.decimals as int) < r.mantissa * p10(l.decimals as int) }

//@ impl A impl Amount
//@ fn from_atoms
//@|    ensures r.atoms == v
//@ fn into_atoms
//@|    ensures r == self.atoms
//@ endimpl

//@ impl D impl DecimalAmount
//@ fn from_uint_decimal
//@|    ensures r.mantissa == mantissa && r.decimals == decimals
//@ fn from_uint_integral
//@|    ensures r.mantissa == number && r.decimals == 0
//@ fn from_amount_full_padding
//@|    ensures r.mantissa == amount.atoms && r.decimals == decimals
//@ fn from_amount_no_padding
//@|    ensures r.mantissa * p10(decimals as int) == amount.atoms * p10(r.decimals as int), minimal(r), r.decimals <= decimals
//@ fn without_padding
//@|    ensures same_number(self, r), minimal(r), r.decimals <= self.decimals, r.mantissa <= self.mantissa
//@ . loops while
//@ . proof start
//@| let ghost orig = self;
//@ . loop 0
//@|    invariant same_number(orig, vf_self), vf_self.decimals <= orig.decimals, vf_self.mantissa <= orig.mantissa
//@|    decreases vf_self.decimals
//@ . proof loop 0 start
//@| let ghost was = vf_self;
//@ . proof loop 0 end
//@| proof {
//@|     assert(was.mantissa == 10 * vf_self.mantissa);
//@|     p10_step(was.decimals as int);
//@|     assert(was.mantissa * p10(vf_self.decimals as int) == vf_self.mantissa * p10(was.decimals as int)) by (nonlinear_arith)
//@|         requires was.mantissa == 10 * vf_self.mantissa, p10(was.decimals as int) == 10 * p10(vf_self.decimals as int);
//@|     same_trans(orig.mantissa as int, orig.decimals as int, was.mantissa as int, was.decimals as int, vf_self.mantissa as int, vf_self.decimals as int);
//@| }
//@ fn with_decimals
//@ . method checked_pow => vf_checked_pow
//@|    ensures match r { Some(x) => x.decimals == decimals && self.decimals <= decimals && same_number(self, x), None => !fits(self, decimals) }
//@ . proof start
//@| proof {
//@|     if decimals >= self.decimals {
//@|         let e = decimals - self.decimals;
//@|         p10_add(self.decimals as int, e);
//@|         p10_pos(e);
//@|         assert((self.mantissa * p10(e)) * p10(self.decimals as int) == self.mantissa * p10(decimals as int)) by (nonlinear_arith) requires p10(decimals as int) == p10(self.decimals as int) * p10(e);
//@|         assert(self.mantissa == 0 ==> self.mantissa * p10(e) == 0 && self.mantissa * p10(decimals as int) == 0) by (nonlinear_arith);
//@|         if self.mantissa >= 1 && p10(e) > u128::MAX { assert(self.mantissa * p10(e) > u128::MAX) by (nonlinear_arith) requires self.mantissa >= 1, p10(e) > u128::MAX; }
//@|     }
//@| }
//@ fn to_amount
//@|    ensures match r { Some(x) => self.mantissa * p10(decimals as int) == x.atoms * p10(self.decimals as int),
//@|        // refused only where the amount is not a whole number of atoms or does not fit
//@|        None => forall|a: u128| self.mantissa * p10(decimals as int) != #[trigger] (a * p10(self.decimals as int)) }
//@ . proof start
//@| proof {
//@|     assert forall|y: DecimalAmount| #[trigger] same_number(self, y) && minimal(y) implies to_amount_ok(self, y, decimals) by { lemma_to_amount(self, y.mantissa, y.decimals, decimals); }
//@|     lemma_same(self);
//@| }
//@ fn is_same
//@|    ensures r == (self.mantissa == other.mantissa && self.decimals == other.decimals)
//@ fn mantissa
//@|    ensures r == self.mantissa
//@ fn decimals
//@|    ensures r == self.decimals
//@ endimpl
proof fn lemma_lt(l: DecimalAmount, r: DecimalAmount, l2: DecimalAmount, r2: DecimalAmount)
    requires same_number(l, l2), same_number(r, r2), num_lt(l2, r2)
    ensures num_lt(l, r)
{
    let (a, b, c, d) = (p10(l.decimals as int), p10(r.decimals as int), p10(l2.decimals as int), p10(r2.decimals as int));
    p10_pos(l.decimals as int); p10_pos(r.decimals as int); p10_pos(l2.decimals as int); p10_pos(r2.decimals as int);
    assert((l.mantissa * b) * (c * d) == (l2.mantissa * d) * (a * b)) by (nonlinear_arith) requires l.mantissa * c == l2.mantissa * a;
    assert((r.mantissa * a) * (c * d) == (r2.mantissa * c) * (a * b)) by (nonlinear_arith) requires r.mantissa * d == r2.mantissa * b;
    assert(a * b > 0) by (nonlinear_arith) requires a >= 1, b >= 1;
    assert(c * d > 0) by (nonlinear_arith) requires c >= 1, d >= 1;
    assert((l2.mantissa * d) * (a * b) < (r2.mantissa * c) * (a * b)) by (nonlinear_arith) requires l2.mantissa * d < r2.mantissa * c, a * b > 0;
    assert(l.mantissa * b < r.mantissa * a) by (nonlinear_arith) requires (l.mantissa * b) * (c * d) < (r.mantissa * a) * (c * d), c * d > 0;
}
proof fn lemma_sub_all(l: DecimalAmount, r: DecimalAmount)
    ensures
        forall|y: DecimalAmount, l2: DecimalAmount, r2: DecimalAmount, d: DecimalAmount, x: DecimalAmount| #[trigger] same_number(r, y) && #[trigger] same_number(l, l2) && #[trigger] same_number(y, r2) && l2.decimals == r2.decimals
            && d.decimals == l2.decimals && d.mantissa == l2.mantissa - r2.mantissa && #[trigger] same_number(d, x) ==> sub_result(l, r, x),
        forall|k: u8| l.decimals <= k && (k == l.decimals || k <= r.decimals) && !#[trigger] fits(l, k) ==> l.mantissa * p10(r.decimals as int) > u128::MAX,
        forall|y: DecimalAmount, k: u8| #[trigger] same_number(r, y) && y.decimals <= k && (k == y.decimals || k == l.decimals) && !#[trigger] fits(y, k) ==> num_lt(l, r),
        forall|y: DecimalAmount, l2: DecimalAmount, r2: DecimalAmount| #[trigger] same_number(r, y) && #[trigger] same_number(l, l2) && #[trigger] same_number(y, r2) && l2.decimals == r2.decimals && l2.mantissa < r2.mantissa ==> num_lt(l, r),
{
    lemma_pow0(10);
    lemma_same(r);
    assert forall|y: DecimalAmount, l2: DecimalAmount, r2: DecimalAmount, d: DecimalAmount, x: DecimalAmount| #[trigger] same_number(r, y) && #[trigger] same_number(l, l2) && #[trigger] same_number(y, r2) && l2.decimals == r2.decimals
        && d.decimals == l2.decimals && d.mantissa == l2.mantissa - r2.mantissa && #[trigger] same_number(d, x) implies sub_result(l, r, x) by {
        lemma_sub(l, r, y, l2.decimals as int, l2.mantissa as int, r2.mantissa as int, x);
    }
    assert forall|k: u8| l.decimals <= k && (k == l.decimals || k <= r.decimals) && !#[trigger] fits(l, k) implies l.mantissa * p10(r.decimals as int) > u128::MAX by {
        assert(l.mantissa * p10(0) == l.mantissa) by (nonlinear_arith) requires p10(0) == 1;
        if k > l.decimals {
            let e = k - l.decimals;
            p10_add(e, r.decimals - e);
            p10_pos(e); p10_pos(r.decimals - e);
            assert(l.mantissa * p10(r.decimals as int) >= l.mantissa * p10(e)) by (nonlinear_arith) requires p10(r.decimals as int) == p10(e) * p10(r.decimals - e), p10(e) >= 1, p10(r.decimals - e) >= 1, l.mantissa >= 0;
        }
    }
    assert forall|y: DecimalAmount, k: u8| #[trigger] same_number(r, y) && y.decimals <= k && (k == y.decimals || k == l.decimals) && !#[trigger] fits(y, k) implies num_lt(l, r) by {
        assert(y.mantissa * p10(0) == y.mantissa) by (nonlinear_arith) requires p10(0) == 1;
        let e = k - y.decimals;
        if e > 0 {
            p10_add(y.decimals as int, e);
            p10_pos(y.decimals as int);
            assert(l.mantissa * p10(y.decimals as int) < y.mantissa * p10(l.decimals as int)) by (nonlinear_arith) requires p10(l.decimals as int) == p10(y.decimals as int) * p10(e), p10(y.decimals as int) >= 1, y.mantissa * p10(e) > l.mantissa;
            assert(same_number(l, l));
            lemma_lt(l, r, l, y);
        }
    }
    assert forall|y: DecimalAmount, l2: DecimalAmount, r2: DecimalAmount| #[trigger] same_number(r, y) && #[trigger] same_number(l, l2) && #[trigger] same_number(y, r2) && l2.decimals == r2.decimals && l2.mantissa < r2.mantissa implies num_lt(l, r) by {
        p10_pos(l2.decimals as int);
        assert(l2.mantissa * p10(r2.decimals as int) < r2.mantissa * p10(l2.decimals as int)) by (nonlinear_arith) requires l2.mantissa < r2.mantissa, p10(l2.decimals as int) == p10(r2.decimals as int), p10(l2.decimals as int) >= 1;
        lemma_lt(l, r, l2, r2);
    }
}
//@ fn D subtract_decimal_amounts_of_same_currency
//@|    ensures match r { Some(x) => minimal(x) && sub_result(*lhs, *rhs, x),
//@|        // refused only where the result is negative, or lhs itself cannot be written with the decimals of rhs
//@|        None => num_lt(*lhs, *rhs) || lhs.mantissa * p10(rhs.decimals as int) > u128::MAX }
//@ . proof start
//@| proof { lemma_sub_all(*lhs, *rhs); }
} // verus!
fn main() {}
