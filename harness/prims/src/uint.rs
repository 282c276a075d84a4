//! C03: Uint128, Uint256 and Uint512 are the naturals below 2^BITS. C04: their bits, shifts and byte strings.
use common::uint::{BitArray, Uint128, Uint256, Uint512};
#[cfg(not(kani))]
use num_bigint::BigUint;
use std::cmp::Ordering;
use vsrc::*;

/// Sum of word vectors with its carry, in 128-bit arithmetic
fn add<const N: usize>(a: [u64; N], b: [u64; N]) -> ([u64; N], bool) {
    let (mut r, mut c) = ([0u64; N], 0u128);
    for i in 0..N { let t = a[i] as u128 + b[i] as u128 + c; r[i] = t as u64; c = t >> 64; }
    (r, c != 0)
}
/// Difference modulo 2^BITS and whether it borrowed
fn sub<const N: usize>(a: [u64; N], b: [u64; N]) -> ([u64; N], bool) {
    let (mut r, mut c) = ([0u64; N], 0i128);
    for i in 0..N { let t = a[i] as i128 - b[i] as i128 + c; r[i] = t as u64; c = t >> 64; }
    (r, c != 0)
}
/// The bit of the number, from the words
fn bit<const N: usize>(a: &[u64; N], i: usize) -> bool { i < 64 * N && (a[i / 64] >> (i % 64)) % 2 == 1 }
#[cfg(not(kani))]
fn big(w: &[u64]) -> BigUint { w.iter().rev().fold(BigUint::from(0u8), |a, x| (a << 64) + *x) }
#[cfg(not(kani))]
fn words<const N: usize>(b: &BigUint) -> Option<[u64; N]> { let d = b.to_u64_digits(); if d.len() > N { return None; } let mut r = [0; N]; r[..d.len()].copy_from_slice(&d); Some(r) }

macro_rules! linear { ($s:ident, $t:ident, $n:literal) => {{
    let (a, b) = ($s.words::<$n>(), $s.words::<$n>());
    inputs!($s, a, b);
    let (x, y) = ($t(a), $t(b));
    let (sum, carry) = add(a, b);
    let (dif, borrow) = sub(a, b);
    assert_eq!(x.checked_add(&y), if carry { None } else { Some($t(sum)) });
    assert_eq!(x + y, x.checked_add(&y));
    assert_eq!(x.checked_sub(&y), if borrow { None } else { Some($t(dif)) });
    assert_eq!(x - y, x.checked_sub(&y));
    assert_eq!(x.cmp(&y), if borrow { Ordering::Less } else if dif == [0; $n] { Ordering::Equal } else { Ordering::Greater });
    assert_eq!(x.partial_cmp(&y), Some(x.cmp(&y)));
    assert_eq!(x == y, a == b);
}}}
macro_rules! consts { ($s:ident, $t:ident, $n:literal) => {{
    let (a, u, v) = ($s.words::<$n>(), $s.u64(), $s.u128());
    inputs!($s, a, u, v);
    let x = $t(a);
    let mut w = [0u64; $n];
    assert!($t::ZERO == $t(w) && <$t as BitArray>::zero() == $t(w) && $t::BITS == 64 * $n && $t::MAX == $t([u64::MAX; $n]));
    w[0] = 1;
    assert!($t::ONE == $t(w) && <$t as BitArray>::one() == $t(w));
    w[0] = u;
    assert!($t::from_u64(u) == $t(w) && $t::from(u) == $t(w));
    w[0] = v as u64; w[1] = (v >> 64) as u64;
    assert!($t::from_u128(v) == $t(w) && $t::from(v) == $t(w) && $t::from_amount(common::primitives::Amount::from_atoms(v)) == $t(w) && $t::from(common::primitives::Amount::from_atoms(v)) == $t(w));
    assert!(x.low_u64() == a[0] && x.low_u32() == (a[0] % (1 << 32)) as u32);
    assert!(x.inner() == a && x.into_inner() == a && *x.as_inner() == a && x.len() == $n && !x.is_empty() && $t::from(&a[..]) == x);
}}}
macro_rules! bitwise { ($s:ident, $t:ident, $n:literal) => {{
    let (a, b, i) = ($s.words::<$n>(), $s.words::<$n>(), $s.below(64 * $n));
    inputs!($s, a, b, i);
    let (x, y) = ($t(a), $t(b));
    assert_eq!(x.bit(i), bit(&a, i));
    assert_eq!((x & y).bit(i), bit(&a, i) && bit(&b, i));
    assert_eq!((x | y).bit(i), bit(&a, i) || bit(&b, i));
    assert_eq!((x ^ y).bit(i), bit(&a, i) != bit(&b, i));
    assert_eq!((!x).bit(i), !bit(&a, i));
    // the position of the highest and of the lowest bit
    let (n, z) = (x.bits(), x.trailing_zeros());
    assert!(n <= 64 * $n && (n == 0) == (a == [0; $n]) && (n == 0 || bit(&a, n - 1)) && !(i >= n && bit(&a, i)));
    assert!(z <= 64 * $n && (z == 64 * $n) == (a == [0; $n]) && (a == [0; $n] || bit(&a, z)) && !(i < z && bit(&a, i)));
}}}
macro_rules! shifts { ($s:ident, $t:ident, $n:literal) => {{
    let (a, i, k) = ($s.words::<$n>(), $s.below(64 * $n), $s.below(64 * $n + 70));
    inputs!($s, a, i, k);
    let x = $t(a);
    // a shift by BITS or more leaves nothing
    assert_eq!(bit(&(x << k).0, i), i >= k && bit(&a, i.wrapping_sub(k)));
    assert_eq!(bit(&(x >> k).0, i), bit(&a, i + k));
    if k <= 64 * $n { assert_eq!(bit(&x.mask(k).0, i), i < k && bit(&a, i)); }
}}}
macro_rules! slices { ($s:ident, $t:ident, $n:literal) => {{
    let (a, i, p, q) = ($s.words::<$n>(), $s.below(64 * $n), $s.below(64 * $n), $s.below(64 * $n + 1));
    assume!($s, p <= q);
    inputs!($s, a, i, p, q);
    assert_eq!(bit(&$t(a).bit_slice(p, q).0, i), i < q - p && bit(&a, p + i));
}}}
macro_rules! bytes { ($s:ident, $t:ident, $n:literal) => {{
    let (a, i) = ($s.words::<$n>(), $s.below(8 * $n));
    inputs!($s, a, i);
    let (mut le, mut be) = ([0u8; 8 * $n], [0u8; 8 * $n]);
    for k in 0..8 * $n { le[k] = (a[k / 8] >> (8 * (k % 8))) as u8; be[8 * $n - 1 - k] = le[k]; }
    let x = $t(a);
    assert!($t::from_bytes(le) == x && $t::from_be_bytes(be) == x);
    assert!(x.to_bytes() == le && x.to_be_bytes() == be);
    assert!($t::from(le) == x && $t::from(&le) == x);
    assert!($t::from_slice(&le) == Ok(x) && $t::from_be_slice(&be) == Ok(x));
    let short = &le[..if $s.symbolic() { 8 * $n - 1 } else { i }];
    assert!($t::from_slice(short).is_err() && $t::from_be_slice(short).is_err());
}}}
#[cfg(not(kani))]
macro_rules! against_integers { ($s:ident, $t:ident, $n:literal) => {{
    let (a, mut b, k, m) = ($s.words::<$n>(), $s.words::<$n>(), $s.below(64 * $n + 70), $s.u32());
    // a divisor of any length
    let cut = $s.below(64 * $n);
    if $s.bool() { b = words(&(big(&b) >> cut)).unwrap(); }
    let a: [u64; $n] = if $s.bool() { let c = $s.below(64 * $n); words(&(big(&a) >> c)).unwrap() } else { a };
    inputs!($s, a, b, k, m);
    let (x, y, p, q) = ($t(a), $t(b), big(&a), big(&b));
    let (lo, hi) = x.widening_mul(&y);
    assert_eq!(big(&lo.0) + (big(&hi.0) << (64 * $n)), &p * &q, "widening product");
    let fit = |v: BigUint| words::<$n>(&v).map($t);
    assert_eq!(x.checked_mul(&y), fit(&p * &q));
    assert_eq!(x * y, fit(&p * &q));
    assert_eq!(Some(x.mul_u32(m)), fit((&p * m) % (BigUint::from(1u8) << (64 * $n))));
    let zero = b == [0; $n];
    assert_eq!(x.checked_div(&y), if zero { None } else { fit(&p / &q) });
    assert_eq!(x.checked_rem(&y), if zero { None } else { fit(&p % &q) });
    assert!(x / y == x.checked_div(&y) && x % y == x.checked_rem(&y));
    assert_eq!(big(&(x >> k).0), &p >> k);
    assert_eq!(Some(x << k), fit((&p << k) % (BigUint::from(1u8) << (64 * $n))));
    assert_eq!(x.bits() as u64, p.bits());
    assert_eq!(x.cmp(&y), p.cmp(&q));
    assert_eq!(format!("{x:?}"), format!("0x{p:0>width$x}", width = 16 * $n));
    assert_eq!(format!("{x:x}"), format!("{p:0>width$x}", width = 16 * $n));
    assert_eq!(format!("{x:#X}"), format!("0X{p:0>width$X}", width = 16 * $n));
}}}

cases! {
    c03_linear_128(s) [unwind 18] { linear!(s, Uint128, 2) }
    c03_linear_256(s) [unwind 34] { linear!(s, Uint256, 4) }
    c03_linear_512(s) [unwind 66] { linear!(s, Uint512, 8) }
    c03_constants_128(s) [unwind 18] { consts!(s, Uint128, 2) }
    c03_constants_256(s) [unwind 34] { consts!(s, Uint256, 4) }
    c03_constants_512(s) [unwind 66] { consts!(s, Uint512, 8) }
    c03_widths(s) [unwind 66] {
        let (a, b, c, v) = (s.words::<2>(), s.words::<4>(), s.words::<8>(), s.u128());
        inputs!(s, a, b, c, v);
        assert_eq!(u128::from(Uint128(a)), a[0] as u128 | (a[1] as u128) << 64);
        assert_eq!(Uint128::from(v), Uint128([v as u64, (v >> 64) as u64]));
        assert_eq!(Uint256::from(Uint128(a)), Uint256([a[0], a[1], 0, 0]));
        assert_eq!(Uint512::from(Uint256(b)), Uint512([b[0], b[1], b[2], b[3], 0, 0, 0, 0]));
        assert_eq!(Uint256(b).low_128(), Uint128([b[0], b[1]]));
        // narrowing keeps the number or refuses
        assert_eq!(u128::try_from(Uint256(b)).ok(), if b[2] == 0 && b[3] == 0 { Some(b[0] as u128 | (b[1] as u128) << 64) } else { None });
        assert_eq!(Uint256::try_from(Uint512(c)).ok(), if c[4] == 0 && c[5] == 0 && c[6] == 0 && c[7] == 0 { Some(Uint256([c[0], c[1], c[2], c[3]])) } else { None });
    }
    c03_integers_128(s) {
        #[cfg(not(kani))] { against_integers!(s, Uint128, 2) }
        let _ = s;
    }
    c03_integers_256(s) {
        #[cfg(not(kani))] { against_integers!(s, Uint256, 4) }
        let _ = s;
    }
    c03_integers_512(s) {
        #[cfg(not(kani))] { against_integers!(s, Uint512, 8) }
        let _ = s;
    }
    c04_bitwise_128(s) [unwind 18] { bitwise!(s, Uint128, 2) }
    c04_bitwise_256(s) [unwind 34] { bitwise!(s, Uint256, 4) }
    c04_bitwise_512(s) [unwind 66] { bitwise!(s, Uint512, 8) }
    c04_shifts_128(s) [unwind 18] { shifts!(s, Uint128, 2) }
    c04_shifts_256(s) [unwind 34] { shifts!(s, Uint256, 4) }
    c04_shifts_512(s) [unwind 66] { shifts!(s, Uint512, 8) }
    c04_slices_128(s) [unwind 18] { slices!(s, Uint128, 2) }
    c04_slices_256(s) [unwind 34] { slices!(s, Uint256, 4) }
    c04_slices_512(s) [unwind 66] { slices!(s, Uint512, 8) }
    c04_bytes_128(s) [unwind 18] { bytes!(s, Uint128, 2) }
    c04_bytes_256(s) [unwind 34] { bytes!(s, Uint256, 4) }
    c04_bytes_512(s) [unwind 66] { bytes!(s, Uint512, 8) }
}
