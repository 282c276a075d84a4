//@ struct I @T@ derive Copy,Clone,PartialEq,Eq
impl @T@ { pub open spec fn num(self) -> int { val(self.0@, @N@) } }
/// an option of a number
pub open spec fn is@N@(r: Option<@T@>, x: Option<int>) -> bool { match r { Some(v) => x == Some(v.num()), None => x is None } }
pub open spec fn fit@N@(x: int) -> Option<int> { if 0 <= x < base(@N@) { Some(x) } else { None } }
pub broadcast proof fn num_bound@N@(a: @T@) ensures 0 <= #[trigger] a.num() < base(@N@) { val_bound(a.0@, @N@); }
pub proof fn eq_num@N@(a: @T@, b: @T@) ensures a.num() == b.num() <==> a == b { if a.num() == b.num() { val_injective(a.0@, b.0@, @N@); assert(a.0 =~= b.0); } }
/// the one value of a number
pub open spec fn of@N@(x: int) -> @T@ { choose|v: @T@| v.num() == x }
pub proof fn of_num@N@(a: @T@) ensures of@N@(a.num()) == a { let b = of@N@(a.num()); assert(b.num() == a.num()); eq_num@N@(a, b); }
pub proof fn of_is@N@(x: int) requires 0 <= x < base(@N@) ensures of@N@(x).num() == x {
    let v = @T@(@LIT@);
    assert forall|j: int| 0 <= j < @N@ implies #[trigger] v.0@[j] == digit(x, j as nat) by { }
    digits_val(v.0@, x, @N@); lemma_small_mod(x as nat, base(@N@) as nat);
    assert(v.num() == x);
}
impl PartialOrdSpecImpl for @T@ {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &@T@) -> Option<Ordering> { Some(order(self.num(), o.num())) }
}
impl OrdSpecImpl for @T@ {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &@T@) -> Ordering { order(self.num(), o.num()) }
}
impl PartialEqSpecImpl for @T@ {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &@T@) -> bool { *self == *o }
}
impl ShlSpecImpl<usize> for @T@ {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, s: usize) -> bool { true }
    open spec fn shl_spec(self, s: usize) -> @T@ { of@N@((self.num() * pow2(s as nat)) % base(@N@)) }
}
impl ShrSpecImpl<usize> for @T@ {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, s: usize) -> bool { true }
    open spec fn shr_spec(self, s: usize) -> @T@ { of@N@(self.num() / pow2(s as nat) as int) }
}
impl NotSpecImpl for @T@ {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> @T@ { of@N@(base(@N@) - 1 - self.num()) }
}
pub open spec fn opt@N@(x: int) -> Option<@T@> { if 0 <= x < base(@N@) { Some(of@N@(x)) } else { None } }
impl AddSpecImpl<@T@> for @T@ {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: @T@) -> bool { true }
    open spec fn add_spec(self, o: @T@) -> Option<@T@> { opt@N@(self.num() + o.num()) }
}
impl SubSpecImpl<@T@> for @T@ {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: @T@) -> bool { true }
    open spec fn sub_spec(self, o: @T@) -> Option<@T@> { opt@N@(self.num() - o.num()) }
}
impl MulSpecImpl<@T@> for @T@ {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: @T@) -> bool { true }
    open spec fn mul_spec(self, o: @T@) -> Option<@T@> { opt@N@(self.num() * o.num()) }
}
impl DivSpecImpl<@T@> for @T@ {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: @T@) -> bool { true }
    open spec fn div_spec(self, o: @T@) -> Option<@T@> { if o.num() == 0 { None } else { opt@N@(self.num() / o.num()) } }
}
impl RemSpecImpl<@T@> for @T@ {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: @T@) -> bool { true }
    open spec fn rem_spec(self, o: @T@) -> Option<@T@> { if o.num() == 0 { None } else { opt@N@(self.num() % o.num()) } }
}
pub proof fn full@N@() ensures forall|s: Seq<u64>| (forall|j: int| 0 <= j < @N@ ==> s[j] == u64::MAX) && s.len() == @N@ ==> #[trigger] val(s, @N@) == base(@N@) - 1 { assert forall|s: Seq<u64>| (forall|j: int| 0 <= j < @N@ ==> s[j] == u64::MAX) && s.len() == @N@ implies #[trigger] val(s, @N@) == base(@N@) - 1 by { val_full(s, @N@); } }
proof fn result@N@(r: Option<@T@>, x: int) requires is@N@(r, fit@N@(x)) ensures r == opt@N@(x) { if let Some(v) = r { of_num@N@(v); } }
//@ impl I impl @T@
//@ implconst ZERO ensures Self::ZERO.num() == 0
//@ implconst ONE ensures Self::ONE.num() == 1
//@ implconst MAX ensures Self::MAX.num() == base(@N@) - 1 ;; proof { full@N@(); }
//@ fn low_u32
//@|    ensures r == self.0[0] as u32
//@ fn low_u64
//@|    ensures r == self.0[0], r as int == self.num() % b64()
//@ . proof start
//@|    proof { low_word(self.0@, @N@); }
//@ fn bits
//@|    ensures r <= 64 * @N@, self.num() < pow2(r as nat), r > 0 ==> pow2((r - 1) as nat) <= self.num(), r == 0 <==> self.num() == 0
//@ . proof start
//@|    proof { bits_exact(self.0@, @N@); }
//@ . loop 0
//@|    invariant *arr == self.0, forall|j: int| @N@ - i < j < @N@ ==> self.0[j] == 0, bits_known(self.0@, @N@), forall|j: nat| #[trigger] pow2(j) > 0, pow2(0) == 1, u64_leading_zeros(0) == 64
//@ fn mul_u32
//@|    ensures r.num() == (self.num() * other) % base(@N@)
//@ . proof start
//@|    proof { assert forall|m: @T@, c: u64| #![trigger val(m.0@, @N@) + c * base(@N@)] val(m.0@, @N@) + c * base(@N@) == self.num() * (other as u64) implies m.num() == (self.num() * other) % base(@N@) by { num_bound@N@(m); lemma_fundamental_div_mod_converse(self.num() * other, base(@N@), c as int, m.num()); } }
//@ fn widening_mul_u64
//@|    ensures val(r.0.0@, @N@) + r.1 * base(@N@) == self.num() * rhs, r.1 < u64::MAX
//@ . loop 0
//@|    invariant lhs == self.0, U64_MAX == u64::MAX, val(res@, i as nat) + carry * base(i as nat) == val(self.0@, i as nat) * rhs, carry < u64::MAX
//@ . proof loop 0 start
//@|    let ghost (r0, c0) = (res@, carry);
//@|    proof {
//@|        let (x, y) = (lhs[i as int] as int, rhs as int);
//@|        assert(0 <= x * y <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by (nonlinear_arith) requires 0 <= x <= 0xffff_ffff_ffff_ffff, 0 <= y <= 0xffff_ffff_ffff_ffff;
//@|        assert forall|p: u128| p as int == x * y + c0 implies (#[trigger] (p as u64)) as int + ((p >> 64) as u64) as int * b64() == p && ((p >> 64) as u64) < u64::MAX by { split_u128(p); }
//@|    }
//@ . proof loop 0 end
//@|    proof {
//@|        val_push(r0, res@, i as nat); val_push(self.0@, self.0@, i as nat);
//@|        let (x, y, b, v, w) = (lhs[i as int] as int, rhs as int, base(i as nat), val(r0, i as nat), val(self.0@, i as nat));
//@|        let (d, c) = (res[i as int] as int, carry as int);
//@|        assert(d + c * b64() == x * y + c0);
//@|        assert((v + d * b) + c * (b64() * b) == (w + x * b) * y) by (nonlinear_arith) requires d + c * b64() == x * y + c0, v + c0 * b == w * y;
//@|    }
//@ . proof start
//@|    assert(0 * base(0) == 0 && 0 * rhs == 0);
//@ fn from_u64
//@ . opt const
//@|    ensures r.num() == init
//@ . proof end
//@|    proof { words1(vf_ret.0@, @N@); }
//@ fn from_u128
//@|    ensures r.num() == init
//@ . proof end
//@|    proof { split_u128(init); words2(vf_ret.0@, @N@); }
//@ fn from_amount
//@|    ensures r.num() == init.atoms
//@ fn div_rem
//@|    requires other.num() != 0
//@|    ensures self.num() == r.0.num() * other.num() + r.1.num(), r.1.num() < other.num()
//@ . proof start
//@|    proof { num_bound@N@(self); num_bound@N@(other); }
//@ . proof after let your_bits
//@|    proof { val_zero(ret@, @N@); assert(0 * other.num() == 0); lemma_pow2_pos(your_bits as nat); if your_bits == 0 { lemma2_to64(); } if my_bits < your_bits && my_bits + 1 < your_bits { lemma_pow2_strictly_increases(my_bits as nat, (your_bits - 1) as nat); } }
//@ . proof after let shift
//@|    let ghost (n, d) = (self.num(), other.num());
//@|    proof {
//@|        val_zero(ret@, @N@);
//@|        base_pow2(@N@);
//@|        fits_shifted(n, d, my_bits as nat, your_bits as nat, base(@N@), @N@);
//@|        lemma_small_mod((d * pow2(shift as nat)) as nat, base(@N@) as nat);
//@|        of_is@N@(d * pow2(shift as nat));
//@|        assert forall|s: u64| #[trigger] (0u64 << s) == 0u64 || s >= 64 by { if s < 64 { assert(0u64 << s == 0u64) by (bit_vector) requires s < 64u64; } }
//@|    }
//@ . loop 0
//@|    invariant_except_break
//@|        shift_copy.num() == d * pow2(shift as nat), 0 <= sub_copy.num() < d * pow2((shift + 1) as nat),
//@|        n == lin(val(ret@, @N@), d, sub_copy.num()), clear_below(ret@, shift as nat),
//@|    invariant n == self.num(), d == other.num(), d > 0, shift < 64 * @N@,
//@|    ensures n == lin(val(ret@, @N@), d, sub_copy.num()), sub_copy.num() < d
//@|    decreases shift
//@ . proof loop 0 start
//@|    let ghost (s0, r0) = (sub_copy.num(), ret@);
//@|    proof { set_bit(ret@, shift as nat, @N@); num_bound@N@(shift_copy); num_bound@N@(sub_copy); halves(d, shift as nat); base_pos(@N@); lemma_div_pos_is_pos(shift_copy.num(), 2); of_is@N@(shift_copy.num() / 2); div_step(val(r0, @N@), pow2(shift as nat) as int, d, s0); if s0 >= shift_copy.num() { lemma_small_mod((s0 - shift_copy.num()) as nat, base(@N@) as nat); } }
//@ fn overflowing_add_with_carry
//@ . replace ab_c | abc_c =>> vf_or(ab_c, abc_c)
//@|    ensures r.0.num() + (if r.1 { base(@N@) } else { 0 }) == self.num() + other.num() + (if carry { 1int } else { 0 })
//@ . proof start
//@|    let ghost c1 = carry;
//@ . loop 0
//@|    invariant lhs == self.0, rhs == other.0, val(ret@, i as nat) + (if carry { base(i as nat) } else { 0 }) == val(self.0@, i as nat) + val(other.0@, i as nat) + (if c1 { 1int } else { 0 })
//@ . proof loop 0 start
//@|    let ghost (r0, c0) = (ret@, carry);
//@ . proof loop 0 end
//@|    proof {
//@|        val_push(r0, ret@, i as nat); val_push(self.0@, self.0@, i as nat); val_push(other.0@, other.0@, i as nat);
//@|        let (x, y, b, z, c) = (lhs[i as int] as int, rhs[i as int] as int, base(i as nat), ret[i as int] as int, if carry { 1int } else { 0 });
//@|        let d = if c0 { 1int } else { 0 };
//@|        assert(z + c * b64() == x + y + d);
//@|        assert(z * b + c * (b64() * b) == x * b + y * b + d * b) by (nonlinear_arith) requires z + c * b64() == x + y + d;
//@|        assert(0 * b == 0 && 1 * b == b && 0 * (b64() * b) == 0 && 1 * (b64() * b) == b64() * b);
//@|    }
//@ fn overflowing_add
//@|    ensures r.0.num() + (if r.1 { base(@N@) } else { 0 }) == self.num() + other.num()
//@ fn unchecked_sub
//@|    ensures r.num() == (self.num() - other.num()) % base(@N@)
//@ . proof start
//@|    proof {
//@|        num_bound@N@(*self); num_bound@N@(*other);
//@|        of_is@N@(base(@N@) - 1 - other.num());
//@|        assert forall|x: @T@| 0 <= #[trigger] x.num() < base(@N@) by { num_bound@N@(x); }
//@|    }
//@ . proof end
//@|    proof { sub_mod(self.num(), other.num(), base(@N@), vf_ret.num()); }
//@ fn unchecked_div
//@|    requires other.num() != 0
//@|    ensures r.num() == self.num() / other.num()
//@ . proof start
//@|    proof { num_bound@N@(*self); num_bound@N@(*other); assert forall|q: @T@, m: @T@| self.num() == q.num() * other.num() + m.num() && m.num() < other.num() implies #[trigger] q.num() == self.num() / other.num() && #[trigger] m.num() == self.num() % other.num() by { num_bound@N@(m); lemma_fundamental_div_mod_converse(self.num(), other.num(), q.num(), m.num()); } }
//@ fn unchecked_rem
//@|    requires other.num() != 0
//@|    ensures r.num() == self.num() % other.num()
//@ . proof start
//@|    proof { num_bound@N@(*self); num_bound@N@(*other); assert forall|q: @T@, m: @T@| self.num() == q.num() * other.num() + m.num() && m.num() < other.num() implies #[trigger] q.num() == self.num() / other.num() && #[trigger] m.num() == self.num() % other.num() by { num_bound@N@(m); lemma_fundamental_div_mod_converse(self.num(), other.num(), q.num(), m.num()); } }
//@ fn checked_add
//@|    ensures is@N@(r, fit@N@(self.num() + other.num()))
//@ . proof start
//@|    proof { num_bound@N@(*self); num_bound@N@(*other); assert forall|x: @T@| 0 <= #[trigger] x.num() < base(@N@) by { num_bound@N@(x); } }
//@ fn checked_sub
//@|    ensures is@N@(r, fit@N@(self.num() - other.num()))
//@ . proof start
//@|    proof { num_bound@N@(*self); num_bound@N@(*other); if self.num() >= other.num() { lemma_small_mod((self.num() - other.num()) as nat, base(@N@) as nat); } }
//@ fn widening_mul
//@ . opt foriter
//@|    ensures r.0.num() + r.1.num() * base(@N@) == self.num() * other.num()
//@ . proof start
//@|    proof { num_bound@N@(*self); assert(self.num() * 0 == 0 && 0 * base(@N@) == 0); }
//@ . proof after let res_hi
//@|    proof { val_zero(res_lo.0@, @N@); val_zero(res_hi.0@, @N@); }
//@ . loop 0
//@|    invariant res_lo.num() + res_hi.num() * base(@N@) == self.num() * val(other.0@, i as nat), res_hi.num() < base(i as nat)
//@ . proof loop 0 start
//@|    let ghost (l0, h0) = (res_lo, res_hi);
//@ . proof before let carry0
//@|    proof { mul_parts(res_i.0@, lo.0@, hi.0@, carry_mul, i as nat, @N@); num_bound@N@(res_lo); num_bound@N@(res_hi); num_bound@N@(lo); num_bound@N@(hi); }
//@ . proof after let carry1
//@|    proof {
//@|        num_bound@N@(res_lo_new); num_bound@N@(*self); num_bound@N@(res_hi_new);
//@|        val_push(other.0@, other.0@, i as nat); val_bound(other.0@, i as nat);
//@|        base_mono((i + 1) as nat, @N@); base_pos(i as nat);
//@|        mul_step(self.num(), val(other.0@, i as nat), *rhs_i as int, val(other.0@, (i + 1) as nat), base(i as nat), base(@N@), l0.num(), h0.num(), lo.num(), hi.num(), val(res_i.0@, @N@), carry_mul as int, res_lo_new.num(), carry0, res_hi_new.num(), carry1);
//@|    }
//@ fn shr_words
//@|    requires n <= @N@
//@|    ensures forall|j: int| 0 <= j < @N@ ==> #[trigger] r.0[j] == (if j + n < @N@ { self.0[j + n] } else { 0 })
//@ fn shl_words
//@|    requires n <= @N@
//@|    ensures forall|j: int| 0 <= j < @N@ ==> #[trigger] r.0[j] == (if j >= n { self.0[j - n] } else { 0 })
//@ fn checked_mul
//@|    ensures is@N@(r, fit@N@(self.num() * other.num()))
//@ . proof start
//@|    proof { num_bound@N@(*self); num_bound@N@(*other); mul_fits(self.num(), other.num(), base(@N@)); assert forall|x: @T@| 0 <= #[trigger] x.num() < base(@N@) by { num_bound@N@(x); } assert forall|x: @T@, y: @T@| (#[trigger] x.num()) == 0 && (#[trigger] y.num()) == 0 implies x == y by { eq_num@N@(x, y); } }
//@ fn checked_div
//@|    ensures is@N@(r, if other.num() == 0 { None } else { Some(self.num() / other.num()) })
//@ . proof start
//@|    proof { assert forall|x: @T@, y: @T@| (#[trigger] x.num()) == 0 && (#[trigger] y.num()) == 0 implies x == y by { eq_num@N@(x, y); } }
//@ fn checked_rem
//@|    ensures is@N@(r, if other.num() == 0 { None } else { Some(self.num() % other.num()) })
//@ . proof start
//@|    proof { assert forall|x: @T@, y: @T@| (#[trigger] x.num()) == 0 && (#[trigger] y.num()) == 0 implies x == y by { eq_num@N@(x, y); } }
//@ endimpl
//@ inherent I impl crate::uint::BitArray for @T@
//@ fn one
//@|    ensures r.num() == 1
//@ . proof end
//@|    proof { words1(vf_ret.0@, @N@); }
//@ endimpl
//@ impl I impl PartialOrd for @T@
//@ fn partial_cmp
//@ endimpl
//@ impl I impl Ord for @T@
//@ fn cmp
//@ . index self other
//@ . loop 0
//@|    invariant forall|j: int| @N@ - i <= j < @N@ ==> self.0[j] == other.0[j]
//@ . proof loop 0 start
//@|    proof { if self.0[@N@ - 1 - i] < other.0[@N@ - 1 - i] { val_order(self.0@, other.0@, (@N@ - 1 - i) as nat, @N@); } if self.0[@N@ - 1 - i] > other.0[@N@ - 1 - i] { val_order(other.0@, self.0@, (@N@ - 1 - i) as nat, @N@); } }
//@ . proof loop 0 after
//@|    proof { val_ext(self.0@, other.0@, @N@); }
//@ endimpl
//@ impl I impl ::core::ops::Add<@T@> for @T@
//@ fn add
//@ . proof end
//@|    proof { result@N@(vf_ret, self.num() + other.num()); }
//@ endimpl
//@ impl I impl ::core::ops::Sub<@T@> for @T@
//@ fn sub
//@ . proof end
//@|    proof { result@N@(vf_ret, self.num() - other.num()); }
//@ endimpl
//@ impl I impl ::core::ops::Mul<@T@> for @T@
//@ fn mul
//@ . proof end
//@|    proof { result@N@(vf_ret, self.num() * other.num()); }
//@ endimpl
//@ impl I impl ::core::ops::Div<@T@> for @T@
//@ fn div
//@ . proof end
//@|    proof { num_bound@N@(self); num_bound@N@(other); if other.num() != 0 { div_fits(self.num(), other.num()); result@N@(vf_ret, self.num() / other.num()); } }
//@ endimpl
//@ impl I impl ::core::ops::Rem<@T@> for @T@
//@ fn rem
//@ . proof end
//@|    proof { num_bound@N@(self); num_bound@N@(other); if other.num() != 0 { div_fits(self.num(), other.num()); result@N@(vf_ret, self.num() % other.num()); } }
//@ endimpl
//@ impl I impl ::core::ops::Not for @T@
//@ fn not
//@ . loop 0
//@|    invariant *arr == self.0, val(ret@, i as nat) == base(i as nat) - 1 - val(self.0@, i as nat)
//@ . proof loop 0 start
//@|    let ghost r0 = ret@;
//@ . proof loop 0 end
//@|    proof {
//@|        val_push(r0, ret@, i as nat); val_push(self.0@, self.0@, i as nat);
//@|        let x = self.0[i as int];
//@|        assert(!x == sub(0xffff_ffff_ffff_ffff, x)) by (bit_vector);
//@|        let (b, w) = (base(i as nat), x as int);
//@|        assert((b64() - 1 - w) * b == b64() * b - b - w * b) by (nonlinear_arith);
//@|    }
//@ . proof end
//@|    proof { of_num@N@(vf_ret); }
//@ endimpl
//@ impl I impl ::core::ops::Shl<usize> for @T@
//@ fn shl
//@ . loop 0
//@|    invariant *original == self.0, word_shift == shift / 64, bit_shift == shift % 64, forall|j: int| 0 <= j < @N@ ==> #[trigger] ret[j] == shl_part(self.0@, word_shift as int, bit_shift as nat, j, i as int)
//@ . proof loop 0 start
//@|    proof {
//@|        let x = self.0[i as int];
//@|        if bit_shift > 0 { shift_word(x, bit_shift as u64); if i > 0 { halves_fit(x, self.0[i - 1], bit_shift as u64); shift_word(self.0[i - 1], bit_shift as u64); } } else { shift_zero(x); if i > 0 { shift_zero(self.0[i - 1]); } }
//@|        assert(forall|s: usize| s < 64 ==> #[trigger] (x << s) == x << (s as u64)) by { assert forall|s: usize| s < 64 implies #[trigger] (x << s) == x << (s as u64) by { } }
//@|    }
//@ . proof end
//@|    proof { shl_mod(self.0@, vf_ret.0@, word_shift as nat, bit_shift as nat, @N@); of_num@N@(vf_ret); assert(64 * (shift / 64) + shift % 64 == shift); }
//@ endimpl
//@ impl I impl ::core::ops::Shr<usize> for @T@
//@ fn shr
//@ . opt forwhile
//@ . loop 0
//@|    invariant i >= word_shift, *original == self.0, word_shift == shift / 64, bit_shift == shift % 64, forall|j: int| 0 <= j < @N@ ==> #[trigger] ret[j] == (if j + word_shift < i { shr_word(self.0@, word_shift as int, bit_shift as nat, j) } else { 0 }), i <= @N@ || i == word_shift
//@|    decreases @N@ - i
//@ . proof loop 0 start
//@|    proof {
//@|        shr_none(self.0@, word_shift as nat, bit_shift as nat); lemma_pow2_pos(bit_shift as nat);
//@|        let x = self.0[i as int];
//@|        if bit_shift > 0 { shift_right_word(x, bit_shift as u64); if i + 1 < @N@ { let y = self.0[i + 1]; shift_right_word(y, bit_shift as u64); halves_fit(y, x, (64 - bit_shift) as u64); } else { lemma_small_mod(0, pow2(bit_shift as nat)); } } else { shift_zero(x); shr_zero(x); if i + 1 < @N@ { shr_zero(self.0[i + 1]); } else { shr_zero(0); } }
//@|    }
//@ . proof end
//@|    proof {
//@|        shr_none(self.0@, word_shift as nat, bit_shift as nat);
//@|        shr_div(self.0@, vf_ret.0@, word_shift as nat, bit_shift as nat, @N@); of_num@N@(vf_ret); assert(64 * (shift / 64) + shift % 64 == shift);
//@|    }
//@ endimpl
