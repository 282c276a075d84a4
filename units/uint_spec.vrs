// The number that little-endian words denote, and the facts about it that the wide integers need.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
fn vf_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub assume_specification[u64::overflowing_add](a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 as int + (if r.1 { 0x1_0000_0000_0000_0000int } else { 0 }) == a as int + b as int;
fn vf_assert(b: bool) requires b { }
pub open spec fn b64() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn base(n: nat) -> int decreases n { if n == 0 { 1 } else { b64() * base((n - 1) as nat) } }
pub open spec fn val(s: Seq<u64>, n: nat) -> int decreases n { if n == 0 { 0 } else { val(s, (n - 1) as nat) + s[n - 1] * base((n - 1) as nat) } }
pub open spec fn is_pow(p: int, n: nat) -> bool { p == pow2(n) }

pub proof fn base_pos(n: nat) ensures base(n) > 0 decreases n { if n > 0 { base_pos((n - 1) as nat); assert(b64() * base((n - 1) as nat) > 0) by (nonlinear_arith) requires base((n - 1) as nat) > 0, b64() > 0; } }
pub proof fn base_add(a: nat, b: nat) ensures base(a + b) == base(a) * base(b) decreases b {
    if b == 0 { assert(base(a) * 1 == base(a)); }
    else { base_add(a, (b - 1) as nat); assert(b64() * (base(a) * base((b - 1) as nat)) == base(a) * (b64() * base((b - 1) as nat))) by (nonlinear_arith); assert(a + b - 1 == a + (b - 1)); }
}
pub proof fn base_pow2(n: nat) ensures base(n) == pow2(64 * n) decreases n {
    lemma2_to64();
    if n > 0 { base_pow2((n - 1) as nat); lemma_pow2_adds(64, (64 * (n - 1)) as nat); assert(64 + 64 * (n - 1) == 64 * n); }
}
pub proof fn val_bound(s: Seq<u64>, n: nat) requires n <= s.len() ensures 0 <= val(s, n) < base(n) decreases n {
    base_pos(n);
    if n > 0 {
        val_bound(s, (n - 1) as nat); base_pos((n - 1) as nat);
        let (w, p) = (s[n - 1] as int, base((n - 1) as nat));
        assert(0 <= w * p <= (b64() - 1) * p) by (nonlinear_arith) requires 0 <= w <= b64() - 1, p > 0;
        assert((b64() - 1) * p == b64() * p - p) by (nonlinear_arith);
    }
}
pub proof fn val_ext(a: Seq<u64>, b: Seq<u64>, n: nat) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures val(a, n) == val(b, n) decreases n { if n > 0 { val_ext(a, b, (n - 1) as nat); } }
pub proof fn val_full(a: Seq<u64>, n: nat) requires n <= a.len(), forall|i: int| 0 <= i < n ==> a[i] == u64::MAX ensures val(a, n) == base(n) - 1 decreases n {
    if n > 0 { val_full(a, (n - 1) as nat); let p = base((n - 1) as nat); assert((b64() - 1) * p == b64() * p - p) by (nonlinear_arith); }
}
pub proof fn val_zero(a: Seq<u64>, n: nat) requires n <= a.len(), forall|i: int| 0 <= i < n ==> a[i] == 0 ensures val(a, n) == 0 decreases n { if n > 0 { val_zero(a, (n - 1) as nat); assert(0 * base((n - 1) as nat) == 0); } }
/// n words, then the rest
pub proof fn val_split(a: Seq<u64>, k: nat, n: nat) requires k <= n <= a.len() ensures val(a, n) == val(a, k) + base(k) * val(a.skip(k as int), (n - k) as nat) decreases n {
    if n == k { assert(base(k) * 0 == 0); }
    else {
        val_split(a, k, (n - 1) as nat);
        let t = a.skip(k as int);
        assert(t[n - 1 - k] == a[n - 1]);
        base_add(k, (n - 1 - k) as nat);
        let (x, y, p, w) = (base(k), val(t, (n - 1 - k) as nat), base((n - 1 - k) as nat), a[n - 1] as int);
        assert(x * y + w * (x * p) == x * (y + w * p)) by (nonlinear_arith);
        assert((n - k) as nat - 1 == n - 1 - k);
    }
}
/// numbers that agree in their words above k are ordered as these words are
pub proof fn val_order(a: Seq<u64>, b: Seq<u64>, k: nat, n: nat) requires k < n, n <= a.len(), n <= b.len(), a[k as int] < b[k as int], forall|j: int| k < j < n ==> a[j] == b[j] ensures val(a, n) < val(b, n) decreases n {
    let m = (n - 1) as nat;
    if k == m {
        val_bound(a, m); val_bound(b, m);
        let (x, y, p) = (a[k as int] as int, b[k as int] as int, base(m));
        assert(x * p + p <= y * p) by (nonlinear_arith) requires x + 1 <= y, p > 0;
    } else { val_order(a, b, k, m); }
}
pub proof fn val_injective(a: Seq<u64>, b: Seq<u64>, n: nat) requires n == a.len(), n == b.len(), val(a, n) == val(b, n) ensures a =~= b {
    if !(a =~= b) { last_difference(a, b, n); let k = choose|k: int| 0 <= k < n && a[k] != b[k] && forall|j: int| k < j < n ==> a[j] == b[j]; if a[k] < b[k] { val_order(a, b, k as nat, n); } else { val_order(b, a, k as nat, n); } }
}
pub proof fn last_difference(a: Seq<u64>, b: Seq<u64>, n: nat) requires n <= a.len(), n <= b.len(), exists|k: int| 0 <= k < n && a[k] != b[k]
    ensures exists|k: int| 0 <= k < n && a[k] != b[k] && forall|j: int| k < j < n ==> a[j] == b[j] decreases n {
    if a[n - 1] != b[n - 1] {} else {
        last_difference(a, b, (n - 1) as nat);
        let k = choose|k: int| 0 <= k < n - 1 && a[k] != b[k] && forall|j: int| k < j < n - 1 ==> a[j] == b[j];
        assert(forall|j: int| k < j < n ==> a[j] == b[j]);
    }
}
/// A word shifted left by less than 64: what stays and what falls off
pub open spec fn stays(x: u64, b: nat) -> int { (x as int * pow2(b)) % b64() }
pub open spec fn falls(x: u64, b: nat) -> int { (x as int * pow2(b)) / b64() }
pub proof fn shift_word(x: u64, b: u64) requires 0 < b < 64
    ensures (x << b) as int + ((x >> ((64 - b) as u64)) as int) * b64() == x as int * pow2(b as nat), (x << b) as int == stays(x, b as nat), (x >> ((64 - b) as u64)) as int == falls(x, b as nat), falls(x, b as nat) < pow2(b as nat)
{
    let c = (64 - b) as u64;
    let h = x >> c;
    let y = (x - (h << c)) as u64;
    assert(h << c <= x) by (bit_vector) requires h == x >> c, c < 64u64;
    assert(x << b == y << b) by (bit_vector) requires y == sub(x, h << c), h == x >> c, c == 64 - b, 0u64 < b, b < 64u64;
    lemma_u64_shr_is_div(x, c);
    let (pb, pc) = (pow2(b as nat) as int, pow2(c as nat) as int);
    lemma_pow2_pos(b as nat); lemma_pow2_pos(c as nat);
    lemma_pow2_adds(b as nat, c as nat); lemma2_to64();
    assert(pb * pc == b64());
    lemma_fundamental_div_mod(x as int, pc);
    assert(h as int * pc <= x as int) by (nonlinear_arith) requires h as int == x as int / pc, x as int == pc * (x as int / pc) + x as int % pc, 0 <= x as int % pc, pc > 0;
    lemma_u64_shl_is_mul(h, c);
    lemma_mod_bound(x as int, pc);
    assert(y as int == x as int % pc) by (nonlinear_arith) requires y as int == x as int - h as int * pc, h as int == x as int / pc, x as int == pc * (x as int / pc) + x as int % pc;
    assert(y as int * pb < b64()) by (nonlinear_arith) requires (y as int) < pc, pb * pc == b64(), pb > 0;
    lemma_u64_shl_is_mul(y, b);
    assert(y as int * pb + h as int * b64() == x as int * pb) by (nonlinear_arith) requires y as int == x as int - h as int * pc, pb * pc == b64();
    assert(0 <= y as int * pb) by (nonlinear_arith) requires y as int >= 0, pb > 0;
    lemma_fundamental_div_mod_converse(x as int * pb, b64(), h as int, y as int * pb);
    assert((h as int) < pb) by (nonlinear_arith) requires h as int * pc <= x as int, (x as int) < pb * pc, pc > 0;
}
pub proof fn shift_zero(x: u64) ensures x << 0u64 == x, x >> 0u64 == x, stays(x, 0) == x, falls(x, 0) == 0 { assert(x << 0u64 == x) by (bit_vector); assert(x >> 0u64 == x) by (bit_vector); lemma2_to64(); lemma_small_mod(x as nat, b64() as nat); lemma_basic_div(x as int, b64()); }
/// the two halves that meet in a word do not overflow
pub proof fn halves_fit(x: u64, y: u64, b: u64) requires 0 < b < 64 ensures (x << b) + (y >> ((64 - b) as u64)) <= u64::MAX {
    let c = (64 - b) as u64;
    assert((x << b) <= sub(u64::MAX, y >> c)) by (bit_vector) requires c == 64 - b, 0u64 < b, b < 64u64;
}
/// the words of a number shifted left by ws words and b bits
pub open spec fn shl_word(a: Seq<u64>, ws: int, b: nat, j: int) -> int { (if j >= ws { stays(a[j - ws], b) } else { 0 }) + (if j >= ws + 1 { falls(a[j - ws - 1], b) } else { 0 }) }
pub proof fn shl_val(a: Seq<u64>, r: Seq<u64>, ws: nat, b: nat, n: nat)
    requires n <= a.len(), n <= r.len(), b < 64, forall|j: int| 0 <= j < n ==> #[trigger] r[j] == shl_word(a, ws as int, b, j)
    ensures n <= ws ==> val(r, n) == 0,
        n > ws ==> val(r, n) + falls(a[n - ws - 1], b) * base(n) == val(a, (n - ws) as nat) * (pow2(b) * base(ws))
    decreases n
{
    let m = (n - 1) as nat;
    if n > 0 {
        shl_val(a, r, ws, b, m);
        if n <= ws { assert(r[n - 1] == 0); assert(0 * base(m) == 0); }
        else {
            let x = a[n - 1 - ws];
            let (st, fa, p, pb, bw) = (stays(x, b), falls(x, b), base(m), pow2(b) as int, base(ws));
            lemma_fundamental_div_mod(x as int * pb, b64());
            base_add((m - ws) as nat, ws);
            let q = base((m - ws) as nat);
            let va = val(a, (m - ws) as nat);
            assert((n - ws) as nat - 1 == m - ws);
            let prev = if m > ws { falls(a[m - ws - 1], b) } else { 0int };
            assert(r[n - 1] as int == st + prev);
            assert(val(r, m) + prev * p == va * (pb * bw)) by { if m == ws { assert(va == 0); assert(0 * (pb * bw) == 0); assert(0 * p == 0); } }
            let w = x as int;
            assert((st + prev) * p + fa * (b64() * p) == prev * p + (w * pb) * p) by (nonlinear_arith) requires w * pb == b64() * fa + st;
            assert((va + w * q) * (pb * bw) == va * (pb * bw) + (w * pb) * p) by (nonlinear_arith) requires p == q * bw;
        }
    }
}
/// shifting by ws words and b bits multiplies
pub proof fn shl_mul(ws: nat, b: nat) ensures pow2(b) * base(ws) == pow2(64 * ws + b) { base_pow2(ws); lemma_pow2_adds(b, 64 * ws); }
/// the number shifted left, modulo the width
pub proof fn shl_mod(a: Seq<u64>, r: Seq<u64>, ws: nat, b: nat, n: nat)
    requires n == a.len(), n == r.len(), n > 0, b < 64, forall|j: int| 0 <= j < n ==> #[trigger] r[j] == shl_word(a, ws as int, b, j)
    ensures val(r, n) == (val(a, n) * pow2(64 * ws + b)) % base(n)
{
    shl_val(a, r, ws, b, n); shl_mul(ws, b); val_bound(r, n); base_pos(n);
    let (p, bn) = (pow2(64 * ws + b) as int, base(n));
    if n > ws {
        let k = (n - ws) as nat;
        val_split(a, k, n);
        base_add(k, ws);
        let (hi, lo, f, pb) = (val(a.skip(k as int), ws), val(a, k), falls(a[n - ws - 1], b), pow2(b) as int);
        assert((n - k) as nat == ws);
        assert((lo + base(k) * hi) * p == lo * p + (hi * pb) * bn) by (nonlinear_arith) requires p == pb * base(ws), bn == base(k) * base(ws);
        assert(val(a, n) * p == (f + hi * pb) * bn + val(r, n)) by (nonlinear_arith) requires val(a, n) == lo + base(k) * hi, (lo + base(k) * hi) * p == lo * p + (hi * pb) * bn, val(r, n) + f * bn == lo * p;
        lemma_fundamental_div_mod_converse(val(a, n) * p, bn, f + hi * pb, val(r, n));
    } else {
        base_add(n, (ws - n) as nat);
        let k = base((ws - n) as nat);
        let q = val(a, n) * (pow2(b) * k);
        assert(val(a, n) * p == q * bn) by (nonlinear_arith) requires p == pow2(b) * base(ws), base(ws) == bn * k, q == val(a, n) * (pow2(b) * k);
        assert(q * bn == bn * q) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(val(a, n) * p, bn, q, 0);
    }
}
/// the words of a number shifted right
pub open spec fn keeps(x: u64, b: nat) -> int { x as int / pow2(b) as int }
pub open spec fn drops(x: u64, b: nat) -> int { x as int % pow2(b) as int }
pub open spec fn at(a: Seq<u64>, j: int) -> u64 { if 0 <= j < a.len() { a[j] } else { 0 } }
pub open spec fn shr_word(a: Seq<u64>, ws: int, b: nat, j: int) -> int { keeps(at(a, j + ws), b) + drops(at(a, j + ws + 1), b) * pow2((64 - b) as nat) }
pub proof fn shift_right_word(x: u64, b: u64) requires 0 < b < 64
    ensures (x >> b) as int == keeps(x, b as nat), (x << ((64 - b) as u64)) as int == drops(x, b as nat) * pow2((64 - b) as nat)
{
    let c = (64 - b) as u64;
    lemma_u64_shr_is_div(x, b);
    shift_word(x, c);
    assert((64 - c) as u64 == b);
    let (pb, pc) = (pow2(b as nat) as int, pow2(c as nat) as int);
    lemma_pow2_pos(b as nat); lemma_pow2_pos(c as nat);
    lemma_pow2_adds(b as nat, c as nat); lemma2_to64();
    lemma_fundamental_div_mod(x as int, pb);
    let (h, l) = (x as int / pb, x as int % pb);
    assert((pb * h + l) * pc == l * pc + h * b64()) by (nonlinear_arith) requires pb * pc == b64();
}
pub proof fn shr_zero(x: u64) ensures keeps(x, 0) == x, drops(x, 0) == 0 { lemma2_to64(); }
pub proof fn shr_none(a: Seq<u64>, ws: nat, b: nat) requires b < 64 ensures drops(0, b) == 0, drops(0, b) * pow2((64 - b) as nat) == 0, forall|j: int| j + ws >= a.len() ==> #[trigger] shr_word(a, ws as int, b, j) == 0 {
    lemma_pow2_pos(b); lemma_small_mod(0, pow2(b)); lemma_basic_div(0, pow2(b) as int); assert(0 * pow2((64 - b) as nat) == 0);
}
pub proof fn shr_val(a: Seq<u64>, r: Seq<u64>, ws: nat, b: nat, n: nat)
    requires n <= r.len(), b < 64, forall|j: int| 0 <= j < n ==> #[trigger] r[j] == shr_word(a, ws as int, b, j)
    ensures val(r, n) * pow2(b) == shifted(a, ws, n) - drops(at(a, ws as int), b) + drops(at(a, (n + ws) as int), b) * base(n)
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        shr_val(a, r, ws, b, m);
        let (x, p, pb, pc) = (at(a, (m + ws) as int), base(m), pow2(b) as int, pow2((64 - b) as nat) as int);
        lemma_pow2_pos(b);
        lemma_fundamental_div_mod(x as int, pb);
        lemma_pow2_adds(b, (64 - b) as nat); lemma2_to64();
        let (h, l, l1) = (keeps(x, b), drops(x, b), drops(at(a, (n + ws) as int), b));
        assert(r[n - 1] as int == h + l1 * pc);
        let v = val(r, m);
        assert((v + (h + l1 * pc) * p) * pb == v * pb + (x as int - l) * p + l1 * (b64() * p)) by (nonlinear_arith) requires x as int == pb * h + l, pb * pc == b64();
        assert((x as int - l) * p == x as int * p - l * p) by (nonlinear_arith);
    } else { assert(0 * pow2(b) == 0); assert(drops(at(a, ws as int), b) * 1 == drops(at(a, ws as int), b)); }
}
pub open spec fn shifted(a: Seq<u64>, ws: nat, n: nat) -> int decreases n { if n == 0 { 0 } else { shifted(a, ws, (n - 1) as nat) + at(a, n - 1 + ws) * base((n - 1) as nat) } }
pub proof fn shifted_is(a: Seq<u64>, ws: nat, n: nat) ensures shifted(a, ws, n) == (if ws >= a.len() { 0 } else if n + ws <= a.len() { val(a.skip(ws as int), n) } else { val(a.skip(ws as int), (a.len() - ws) as nat) }) decreases n {
    if n > 0 { shifted_is(a, ws, (n - 1) as nat); assert(0 * base((n - 1) as nat) == 0); }
}
pub proof fn shr_div(a: Seq<u64>, r: Seq<u64>, ws: nat, b: nat, n: nat)
    requires n == a.len(), n == r.len(), n > 0, b < 64, forall|j: int| 0 <= j < n ==> #[trigger] r[j] == shr_word(a, ws as int, b, j)
    ensures val(r, n) == val(a, n) / pow2(64 * ws + b) as int
{
    shr_val(a, r, ws, b, n); shifted_is(a, ws, n); shl_mul(ws, b); val_bound(r, n); val_bound(a, n); base_pos(ws);
    let (p, pb, bw) = (pow2(64 * ws + b) as int, pow2(b) as int, base(ws));
    lemma_pow2_pos(b); lemma_pow2_pos(64 * ws + b);
    lemma_small_mod(0, pb as nat);
    assert(drops(0, b) == 0);
    assert(0 * base(n) == 0);
    assert(at(a, (n + ws) as int) == 0);
    let l = drops(at(a, ws as int), b);
    lemma_mod_bound(at(a, ws as int) as int, pb);
    if ws < n {
        val_split(a, ws, n); val_bound(a, ws);
        let (lo, hi, v) = (val(a, ws), shifted(a, ws, n), val(r, n));
        assert(v * pb == hi - l);
        assert(lo + bw * (v * pb + l) == v * p + (bw * l + lo)) by (nonlinear_arith) requires p == pb * bw;
        assert(0 <= bw * l + lo < p) by (nonlinear_arith) requires p == pb * bw, 0 <= lo < bw, 0 <= l <= pb - 1;
        assert(v * p == p * v) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(val(a, n), p, v, bw * l + lo);
    } else {
        assert(val(r, n) * pb == 0 - l) ;
        assert(val(r, n) == 0) by (nonlinear_arith) requires val(r, n) * pb == 0 - l, l >= 0, pb > 0, val(r, n) >= 0;
        base_add(n, (ws - n) as nat); base_pos((ws - n) as nat);
        assert(val(a, n) < p) by (nonlinear_arith) requires val(a, n) < base(n), p == pb * bw, bw == base(n) * base((ws - n) as nat), pb >= 1, base((ws - n) as nat) >= 1, base(n) > 0;
        lemma_basic_div(val(a, n), p);
    }
}
pub proof fn split_u128(p: u128) ensures p as u64 == p % 0x1_0000_0000_0000_0000, p >> 64 == p / 0x1_0000_0000_0000_0000, (p as u64) as int + ((p >> 64) as u64) as int * b64() == p as int
{
    assert(p as u64 == p % 0x1_0000_0000_0000_0000) by (bit_vector);
    assert(p >> 64 == p / 0x1_0000_0000_0000_0000) by (bit_vector);
    assert((p >> 64) <= 0xffff_ffff_ffff_ffff) by (bit_vector);
}
/// one word more
pub proof fn val_push(a: Seq<u64>, b: Seq<u64>, i: nat) requires i < a.len(), i < b.len(), forall|j: int| 0 <= j < i ==> a[j] == b[j] ensures val(b, (i + 1) as nat) == val(a, i) + b[i as int] * base(i), base((i + 1) as nat) == b64() * base(i) { val_ext(a, b, i); }
/// the lowest word
pub proof fn low_word(a: Seq<u64>, n: nat) requires 1 <= n <= a.len() ensures val(a, n) % b64() == a[0] decreases n {
    if n == 1 { assert(val(a, 0) == 0 && base(0) == 1); assert(a[0] * base(0) == a[0]) by (nonlinear_arith) requires base(0) == 1; lemma_small_mod(a[0] as nat, b64() as nat); }
    else {
        low_word(a, (n - 1) as nat);
        let (v, w, p, b) = (val(a, (n - 1) as nat), a[n - 1] as int, base((n - 2) as nat), b64());
        assert(w * (b * p) == b * (w * p)) by (nonlinear_arith);
        lemma_mod_multiples_vanish(w * p, v, b);
        assert(b * (w * p) + v == val(a, n));
    }
}
/// the number of bits
pub proof fn top_word(a: Seq<u64>, k: nat, n: nat) requires k < n <= a.len(), a[k as int] > 0, forall|j: int| k < j < n ==> a[j] == 0
    ensures a[k as int] * base(k) <= val(a, n) < (a[k as int] + 1) * base(k) decreases n
{
    if n - 1 == k { val_bound(a, k); let (x, p) = (a[k as int] as int, base(k)); assert((x + 1) * p == x * p + p) by (nonlinear_arith); }
    else { top_word(a, k, (n - 1) as nat); assert(0 * base((n - 1) as nat) == 0); }
}
pub proof fn bits_of_word(x: u64, lz: int) requires x > 0, lz == u64_leading_zeros(x) ensures lz < 64, pow2((63 - lz) as nat) <= x < pow2((64 - lz) as nat) {
    axiom_u64_leading_zeros(x);
    let s = (63 - lz) as u64;
    lemma_pow2_pos(s as nat); lemma2_to64();
    assert(lz < 64);
    assert((x >> s) & 1u64 != 0u64);
    assert(x >> s != 0) by (bit_vector) requires (x >> s) & 1u64 != 0u64;
    lemma_u64_shr_is_div(x, s);
    let p = pow2(s as nat) as int;
    lemma_fundamental_div_mod(x as int, p); lemma_mod_bound(x as int, p);
    assert(x as int >= p) by (nonlinear_arith) requires x as int / p >= 1, x as int == p * (x as int / p) + x as int % p, 0 <= x as int % p, p > 0;
    if lz > 0 {
        let t = (64 - lz) as u64;
        assert(x >> t == 0);
        lemma_u64_shr_is_div(x, t);
        let q = pow2(t as nat) as int;
        lemma_pow2_pos(t as nat);
        lemma_fundamental_div_mod(x as int, q); lemma_mod_bound(x as int, q);
        assert((x as int) < q) by (nonlinear_arith) requires x as int / q == 0, x as int == q * (x as int / q) + x as int % q, x as int % q < q;
    }
}
pub open spec fn order(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// what the words shifted left are after i words of the source
pub open spec fn shl_part(a: Seq<u64>, ws: int, b: nat, j: int, i: int) -> int { (if j >= ws && j - ws < i { stays(a[j - ws], b) } else { 0 }) + (if j >= ws + 1 && j - ws - 1 < i { falls(a[j - ws - 1], b) } else { 0 }) }
pub proof fn words1(s: Seq<u64>, n: nat) requires 1 <= n <= s.len(), forall|j: int| 1 <= j < n ==> s[j] == 0 ensures val(s, n) == s[0] { val_split(s, 1, n); val_zero(s.skip(1), (n - 1) as nat); reveal_with_fuel(val, 2); reveal_with_fuel(base, 2); assert(base(1) * 0 == 0); }
pub proof fn words2(s: Seq<u64>, n: nat) requires 2 <= n <= s.len(), forall|j: int| 2 <= j < n ==> s[j] == 0 ensures val(s, n) == s[0] + s[1] * b64() { val_split(s, 2, n); val_zero(s.skip(2), (n - 2) as nat); assert(base(0) == 1); assert(base(1) == b64()); assert(val(s, 0) == 0); assert(s[0] * base(0) == s[0]) by (nonlinear_arith) requires base(0) == 1; assert(val(s, 1) == s[0]); assert(val(s, 2) == val(s, 1) + s[1] * base(1)); assert(base(2) * 0 == 0); }
/// the bit length by the topmost word that is not zero
pub open spec fn bits_at(a: Seq<u64>, k: int) -> int { 64 * (k + 1) - u64_leading_zeros(a[k]) }
pub open spec fn bits_known(a: Seq<u64>, n: nat) -> bool {
    &&& forall|k: int| 0 <= k < n && #[trigger] a[k] > 0 && (forall|j: int| k < j < n ==> a[j] == 0) ==> 0 < bits_at(a, k) <= 64 * n && pow2((bits_at(a, k) - 1) as nat) <= val(a, n) < pow2(bits_at(a, k) as nat) && u64_leading_zeros(a[k]) < 64
    &&& (forall|j: int| 0 <= j < n ==> a[j] == 0) ==> val(a, n) == 0
}
pub proof fn bits_exact(a: Seq<u64>, n: nat) requires n <= a.len() ensures bits_known(a, n), u64_leading_zeros(0) == 64, pow2(0) == 1, forall|j: nat| #[trigger] pow2(j) > 0 {
    axiom_u64_leading_zeros(0); lemma2_to64();
    assert forall|j: nat| #[trigger] pow2(j) > 0 by { lemma_pow2_pos(j); }
    assert forall|k: int| 0 <= k < n && #[trigger] a[k] > 0 && (forall|j: int| k < j < n ==> a[j] == 0) implies 0 < bits_at(a, k) <= 64 * n && pow2((bits_at(a, k) - 1) as nat) <= val(a, n) < pow2(bits_at(a, k) as nat) && u64_leading_zeros(a[k]) < 64 by {
        let lz = u64_leading_zeros(a[k]);
        bits_of_word(a[k], lz); top_word(a, k as nat, n); base_pow2(k as nat);
        lemma_pow2_adds((63 - lz) as nat, (64 * k) as nat); lemma_pow2_adds((64 - lz) as nat, (64 * k) as nat);
        let (x, p, lo, hi) = (a[k] as int, base(k as nat), pow2((63 - lz) as nat) as int, pow2((64 - lz) as nat) as int);
        base_pos(k as nat);
        assert(lo * p <= x * p && (x + 1) * p <= hi * p) by (nonlinear_arith) requires lo <= x, x + 1 <= hi, p > 0;
        assert((63 - lz) + 64 * k == bits_at(a, k) - 1);
        assert((64 - lz) + 64 * k == bits_at(a, k));
    }
    if forall|j: int| 0 <= j < n ==> a[j] == 0 { val_zero(a, n); }
}
/// long division
pub proof fn fits_shifted(n: int, d: int, nb: nat, db: nat, b: int, w: nat)
    requires 0 <= n < pow2(nb), 0 < d < pow2(db), db > 0, db <= nb, pow2((db - 1) as nat) <= d, nb > 0 ==> pow2((nb - 1) as nat) <= n, b == pow2(64 * w), nb <= 64 * w
    ensures 0 <= d * pow2((nb - db) as nat) < b, n < d * pow2((nb - db + 1) as nat)
{
    let s = (nb - db) as nat;
    lemma_pow2_adds(db, s); lemma_pow2_adds((db - 1) as nat, s + 1); lemma_pow2_pos(s); lemma_pow2_pos(s + 1);
    assert(d * pow2(s) < pow2(db) * pow2(s)) by (nonlinear_arith) requires d < pow2(db), pow2(s) > 0;
    assert(d * pow2(s) >= 0) by (nonlinear_arith) requires d > 0, pow2(s) > 0;
    assert(d * pow2(s + 1) >= pow2((db - 1) as nat) * pow2(s + 1)) by (nonlinear_arith) requires d >= pow2((db - 1) as nat), pow2(s + 1) > 0;
    if nb < 64 * w { lemma_pow2_strictly_increases(nb, 64 * w); }
}
/// bits up to (and with) k are clear
pub open spec fn clear_below(r: Seq<u64>, k: nat) -> bool { (forall|j: int| 0 <= j < k / 64 && j < r.len() ==> r[j] == 0) && (k / 64 < r.len() ==> r[k as int / 64] << ((63 - k % 64) as u64) == 0) }
/// setting the bit k of a number whose bits up to k are clear
pub proof fn set_bit(r: Seq<u64>, k: nat, n: nat) requires clear_below(r, k), k < 64 * n, n == r.len()
    ensures ({ let q = r.update(k as int / 64, r[k as int / 64] | (1u64 << ((k % 64) as u64))); val(q, n) == val(r, n) + pow2(k) && (k > 0 ==> clear_below(q, (k - 1) as nat)) }), k > 0 ==> clear_below(r, (k - 1) as nat)
{
    let (w, b) = (k / 64, (k % 64) as u64);
    let x = r[w as int];
    let y = x | (1u64 << b);
    let q = r.update(w as int, y);
    assert(y == add(x, 1u64 << b) && (x as u128) + ((1u64 << b) as u128) <= 0xffff_ffff_ffff_ffff) by (bit_vector) requires x << sub(63, b) == 0, b < 64, y == x | (1u64 << b);
    lemma_pow2_pos(b as nat); lemma2_to64();
    lemma_pow2_strictly_increases(b as nat, 64);
    lemma_u64_shl_is_mul(1, b);
    val_update(r, w, y, n);
    base_pow2(w); lemma_pow2_adds(b as nat, 64 * w);
    assert(b as nat + 64 * w == k);
    let p = base(w);
    assert((y as int - x as int) * p == pow2(k));
    if k > 0 {
        let k1 = (k - 1) as nat;
        if b > 0 {
            assert(k1 / 64 == w && k1 % 64 == b - 1);
            assert(y << sub(63, sub(b, 1)) == 0 && x << sub(63, sub(b, 1)) == 0) by (bit_vector) requires x << sub(63, b) == 0, 0 < b < 64, y == x | (1u64 << b);
        } else {
            assert(k1 / 64 == w - 1 && k1 % 64 == 63);
            assert(0u64 << 0u64 == 0) by (bit_vector);
        }
    }
}
pub proof fn val_update(r: Seq<u64>, w: nat, y: u64, n: nat) requires w < n <= r.len() ensures val(r.update(w as int, y), n) == val(r, n) + (y as int - r[w as int] as int) * base(w) decreases n {
    let q = r.update(w as int, y);
    if n - 1 == w { val_ext(r, q, w); let (a, b, p) = (y as int, r[w as int] as int, base(w)); assert(a * p == b * p + (a - b) * p) by (nonlinear_arith); } else { val_update(r, w, y, (n - 1) as nat); }
}
pub proof fn halves(d: int, s: nat) ensures s > 0 ==> (d * pow2(s)) / 2 == d * pow2((s - 1) as nat), d * pow2((s + 1) as nat) == 2 * (d * pow2(s)), pow2(1) == 2, pow2(0) == 1, d * 1 == d {
    lemma2_to64();
    lemma_pow2_unfold((s + 1) as nat);
    let p = pow2(s) as int;
    assert(d * (2 * p) == 2 * (d * p)) by (nonlinear_arith);
    if s > 0 { lemma_pow2_unfold(s); let q = pow2((s - 1) as nat) as int; assert(d * (2 * q) == (d * q) * 2) by (nonlinear_arith); }
}
/// quotient, divisor and remainder
pub open spec fn lin(v: int, d: int, s: int) -> int { v * d + s }
pub proof fn div_step(v: int, p: int, d: int, s: int) ensures forall|v1: int, s1: int| v1 == v + p && s1 == s - d * p ==> #[trigger] lin(v1, d, s1) == lin(v, d, s) { assert forall|v1: int, s1: int| v1 == v + p && s1 == s - d * p implies #[trigger] lin(v1, d, s1) == lin(v, d, s) by { assert((v + p) * d + (s - d * p) == v * d + s) by (nonlinear_arith); assert(v1 * d == (v + p) * d) by (nonlinear_arith) requires v1 == v + p; } }
pub proof fn sub_mod(a: int, b: int, m: int, r: int) requires 0 <= a < m, 0 <= b < m, 0 <= r < m, r == a - b || r == a - b + m ensures r == (a - b) % m {
    if r == a - b { lemma_small_mod(r as nat, m as nat); } else { lemma_fundamental_div_mod_converse(a - b, m, -1, r); }
}
pub proof fn base_mono(a: nat, b: nat) requires a <= b ensures base(a) <= base(b) decreases b { if a < b { base_mono(a, (b - 1) as nat); base_pos((b - 1) as nat); } }
/// the parts of a product with one word: what fits the width, and what is above it
pub proof fn mul_parts(p: Seq<u64>, lo: Seq<u64>, hi: Seq<u64>, c: u64, i: nat, n: nat)
    requires n == p.len(), n == lo.len(), n == hi.len(), i < n, forall|j: int| 0 <= j < n ==> #[trigger] lo[j] == (if j >= i { p[j - i] } else { 0 }), forall|j: int| 0 <= j < n ==> #[trigger] hi[j] == (if j == i { c } else if j + (n - i) < n { p[j + n - i] } else { 0 })
    ensures val(lo, n) + val(hi, n) * base(n) == (val(p, n) + c * base(n)) * base(i)
{
    // lo = i zero words, then the first n - i words of p
    let k = (n - i) as nat;
    val_split(lo, i, n); val_zero(lo, i); val_ext(lo.skip(i as int), p, k);
    assert((n - i) as nat == k);
    // hi = the last i words of p, then c
    val_split(p, k, n); assert((n - k) as nat == i); val_ext(hi, p.skip(k as int), i);
    let h = hi.skip(i as int);
    val_split(hi, i, n); words1(h, k);
    base_add(k, i);
    let (a, t, bi, bk, cc) = (val(p, k), val(p.skip(k as int), i), base(i), base(k), c as int);
    assert(bi * a + (t + bi * cc) * (bk * bi) == ((a + bk * t) + cc * (bk * bi)) * bi) by (nonlinear_arith);
}
pub proof fn mul_step(s: int, o: int, w: int, x: int, bi: int, bn: int, l0: int, h0: int, lo: int, hi: int, p: int, c: int, l1: int, cy: bool, h1: int, ch: bool)
    requires l0 + h0 * bn == s * o, 0 <= h0 < bi, lo + hi * bn == (p + c * bn) * bi, p + c * bn == s * w, l1 + (if cy { bn } else { 0 }) == l0 + lo, 0 <= s < bn, 0 <= o < bi, 0 <= w < b64(), 0 <= l1 < bn, bi > 0, bn > 0,
        x == o + w * bi, 0 <= h1, h1 + (if ch { bn } else { 0 }) == h0 + hi + (if cy { 1int } else { 0 }), b64() * bi <= bn
    ensures l1 + h1 * bn == s * x, h1 < b64() * bi, !ch
{
    let c1 = if cy { 1int } else { 0 };
    let h2 = h0 + hi + c1;
    assert(c1 * bn == (if cy { bn } else { 0 }));
    assert(l1 + h2 * bn == s * (o + w * bi)) by (nonlinear_arith) requires l0 + h0 * bn == s * o, lo + hi * bn == (p + c * bn) * bi, p + c * bn == s * w, l1 + c1 * bn == l0 + lo, h2 == h0 + hi + c1;
    assert(x < b64() * bi) by (nonlinear_arith) requires o < bi, w <= b64() - 1, bi > 0, x == o + w * bi;
    assert(s * x <= bn * (b64() * bi - 1)) by (nonlinear_arith) requires 0 <= s < bn, 0 <= x, x <= b64() * bi - 1, x == o + w * bi, o >= 0, w >= 0, bi > 0;
    assert(h2 < b64() * bi) by (nonlinear_arith) requires l1 + h2 * bn <= bn * (b64() * bi - 1), l1 >= 0, bn > 0;
}
pub proof fn mul_fits(a: int, b: int, m: int) requires 0 <= a < m, 0 <= b < m ensures forall|lo: int, hi: int| #![trigger lo + hi * m] 0 <= lo < m && 0 <= hi && lo + hi * m == a * b ==> (hi == 0 <==> a * b < m), a * b >= 0 {
    assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0;
    assert forall|lo: int, hi: int| #![trigger lo + hi * m] 0 <= lo < m && 0 <= hi && lo + hi * m == a * b implies (hi == 0 <==> a * b < m) by { if hi > 0 { assert(hi * m >= m) by (nonlinear_arith) requires hi >= 1, m > 0; } else { assert(0 * m == 0); } }
}
pub proof fn div_fits(a: int, b: int) requires a >= 0, b > 0 ensures 0 <= a / b <= a, 0 <= a % b, a % b <= a { lemma_div_pos_is_pos(a, b); lemma_div_is_ordered_by_denominator(a, 1, b); lemma_mod_bound(a, b); lemma_fundamental_div_mod(a, b); let q = a / b; assert(b * q >= 0) by (nonlinear_arith) requires b > 0, q >= 0; lemma_div_basics(a); }
/// the words of a number
pub open spec fn digit(x: int, i: nat) -> u64 { ((x / base(i)) % b64()) as u64 }
pub proof fn digits_val(s: Seq<u64>, x: int, n: nat) requires n <= s.len(), x >= 0, forall|j: int| 0 <= j < n ==> #[trigger] s[j] == digit(x, j as nat) ensures val(s, n) == x % base(n) decreases n {
    base_pos(n);
    if n == 0 { } else {
        let m = (n - 1) as nat;
        digits_val(s, x, m); base_pos(m);
        let (p, q) = (base(m), x / base(m));
        lemma_fundamental_div_mod(x, p); lemma_mod_bound(x, p); lemma_fundamental_div_mod(q, b64()); lemma_mod_bound(q, b64()); lemma_div_pos_is_pos(x, p);
        let (r, d, k) = (x % p, q % b64(), q / b64());
        assert(s[n - 1] == digit(x, m));
        assert(x == k * (b64() * p) + (d * p + r)) by (nonlinear_arith) requires x == p * q + r, q == b64() * k + d;
        assert(0 <= d * p + r < b64() * p) by (nonlinear_arith) requires 0 <= d <= b64() - 1, 0 <= r < p;
        assert(k * (b64() * p) == (b64() * p) * k) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(x, b64() * p, k, d * p + r);
    }
}
/// a range of an array copied from a range of a slice
#[verifier::external_body]
pub fn vf_copy<const N: usize>(dst: &mut [u64; N], a: usize, b: usize, src: &[u64], c: usize, d: usize)
    requires a <= b <= N, c <= d <= src@.len(), b - a == d - c
    ensures final(dst)@.len() == N, forall|i: int| 0 <= i < N ==> #[trigger] final(dst)@[i] == (if a <= i < b { src@[c + i - a] } else { old(dst)@[i] })
{ dst[a..b].copy_from_slice(&src[c..d]) }
} // verus!
