//! C01: Amount and SignedAmount arithmetic is exact or None.
use common::amount_sum;
use common::primitives::amount::SignedAmount;
use common::primitives::Amount;
#[cfg(not(kani))]
use num_bigint::BigInt;
use std::cmp::Ordering;
use vsrc::*;

fn u(x: u128) -> Amount { Amount::from_atoms(x) }
fn i(x: i128) -> SignedAmount { SignedAmount::from_atoms(x) }
#[cfg(not(kani))]
fn fit_u(x: BigInt) -> Option<Amount> { u128::try_from(x).ok().map(u) }
#[cfg(not(kani))]
fn fit_i(x: BigInt) -> Option<SignedAmount> { i128::try_from(x).ok().map(i) }

cases! {
    c01_unsigned_add_sub(s) [unwind 2] {
        let (x, y) = (s.u128(), s.u128());
        inputs!(s, x, y);
        let (sum, carry) = x.overflowing_add(y);
        assert_eq!(u(x) + u(y), if carry { None } else { Some(u(sum)) });
        assert_eq!(u(x) - u(y), if y > x { None } else { Some(u(x.wrapping_sub(y))) });
        assert_eq!(u(x).abs_diff(u(y)).into_atoms(), if x > y { x.wrapping_sub(y) } else { y.wrapping_sub(x) });
        assert_eq!(u(x).as_non_zero(), if x == 0 { None } else { Some(u(x)) });
        assert_eq!(u(x).cmp(&u(y)), x.cmp(&y));
        assert_eq!(u(x).partial_cmp(&u(y)), Some(x.cmp(&y)));
        assert_eq!(u(x) == u(y), x == y);
    }
    c01_unsigned_sum_of_sum(s) [unwind 2] {
        let (x, y, z) = (s.u128(), s.u128(), s.u128());
        inputs!(s, x, y, z);
        let (a, c1) = x.overflowing_add(y);
        let (t, c2) = a.overflowing_add(z);
        assert_eq!(amount_sum!(u(x), u(y), u(z)), if c1 || c2 { None } else { Some(u(t)) });
    }
    c01_unsigned_sum_of_iterator(s) [unwind 5] {
        let (x, y, z) = (s.u128(), s.u128(), s.u128());
        inputs!(s, x, y, z);
        let (a, c1) = x.overflowing_add(y);
        let (t, c2) = a.overflowing_add(z);
        assert_eq!([u(x), u(y), u(z)].into_iter().sum::<Option<Amount>>(), if c1 || c2 { None } else { Some(u(t)) });
        assert_eq!([u(x)].into_iter().sum::<Option<Amount>>(), Some(u(x)));
        assert_eq!([].into_iter().sum::<Option<Amount>>(), Some(Amount::ZERO));
    }
    c01_signed_sum_of_iterator(s) [unwind 5] {
        let (x, y, z) = (s.i128(), s.i128(), s.i128());
        inputs!(s, x, y, z);
        // None as soon as a prefix overflows
        let (a, c1) = x.overflowing_add(y);
        let (t, c2) = a.overflowing_add(z);
        assert_eq!([i(x), i(y), i(z)].into_iter().sum::<Option<SignedAmount>>(), if c1 || c2 { None } else { Some(i(t)) });
        assert_eq!([].into_iter().sum::<Option<SignedAmount>>(), Some(SignedAmount::ZERO));
    }
    c01_unsigned_bits(s) [unwind 2] {
        let (x, y, n) = (s.u128(), s.u128(), s.u32());
        let n = if n > 260 { n % 130 } else { n };
        inputs!(s, x, y, n);
        assert_eq!((u(x) & u(y)).into_atoms(), x & y);
        assert_eq!((u(x) | u(y)).into_atoms(), x | y);
        assert_eq!((u(x) ^ u(y)).into_atoms(), x ^ y);
        assert_eq!((!u(x)).into_atoms(), u128::MAX - x);
        let (mut a, mut o, mut e) = (u(x), u(x), u(x));
        a &= u(y); o |= u(y); e ^= u(y);
        assert!(a == (u(x) & u(y)) && o == (u(x) | u(y)) && e == (u(x) ^ u(y)));
        assert_eq!(u(x) << n, if n < 128 { Some(u(x << n)) } else { None });
        assert_eq!(u(x) >> n, if n < 128 { Some(u(x >> n)) } else { None });
    }
    c01_signed_add_sub_neg(s) [unwind 2] {
        let (x, y) = (s.i128(), s.i128());
        inputs!(s, x, y);
        let (t, c) = x.overflowing_add(y);
        let (d, k) = x.overflowing_sub(y);
        assert_eq!(i(x) + i(y), if c { None } else { Some(i(t)) });
        assert_eq!(i(x) - i(y), if k { None } else { Some(i(d)) });
        assert_eq!(-i(x), if x == i128::MIN { None } else { Some(i(0i128.wrapping_sub(x))) });
        assert_eq!(i(x).cmp(&i(y)), x.cmp(&y));
        assert_eq!(i(x).partial_cmp(&i(y)), Some(x.cmp(&y)));
    }
    c01_conversions(s) [unwind 2] {
        let (x, y) = (s.u128(), s.i128());
        inputs!(s, x, y);
        let su = if x <= i128::MAX as u128 { Some(i(x as i128)) } else { None };
        let us = if y >= 0 { Some(u(y as u128)) } else { None };
        assert!(u(x).into_signed() == su && SignedAmount::from_unsigned(u(x)) == su);
        assert!(i(y).into_unsigned() == us && Amount::from_signed(i(y)) == us);
        assert!(u(x).into_atoms() == x && i(y).into_atoms() == y);
        assert!(Amount::MAX.into_atoms() == u128::MAX && Amount::ZERO.into_atoms() == 0);
        assert!(SignedAmount::MAX.into_atoms() == i128::MAX && SignedAmount::MIN.into_atoms() == i128::MIN && SignedAmount::ZERO.into_atoms() == 0);
        assert_eq!(Amount::ZERO.cmp(&u(x)), if x == 0 { Ordering::Equal } else { Ordering::Less });
    }
    c01_div_by_zero_is_none(s) [unwind 2] {
        let (x, y) = (s.u128(), s.i128());
        inputs!(s, x, y);
        assert!((u(x) / 0).is_none() && (u(x) % 0).is_none());
        assert!((i(y) / 0).is_none() && (i(y) % 0).is_none());
        assert!((i(i128::MIN) / -1).is_none());
        assert!(u(x) / 1 == Some(u(x)) && u(x) % 1 == Some(u(0)) && i(y) / 1 == Some(i(y)) && u(x) * 0 == Some(u(0)) && u(x) * 1 == Some(u(x)) && i(y) * 1 == Some(i(y)));
    }
    c01_muldiv_against_integers(s) {
        #[cfg(not(kani))] {
            let (x, y, p, q) = (s.u128(), s.u128(), s.i128(), s.i128());
            inputs!(s, x, y, p, q);
            let big = |v: u128| BigInt::from(v);
            let bi = |v: i128| BigInt::from(v);
            assert_eq!(u(x) * y, fit_u(big(x) * big(y)), "unsigned product");
            assert_eq!(i(p) * q, fit_i(bi(p) * bi(q)), "signed product");
            assert_eq!(u(x) / y, if y == 0 { None } else { fit_u(big(x) / big(y)) });
            assert_eq!(u(x) % y, if y == 0 { None } else { fit_u(big(x) % big(y)) });
            assert_eq!(i(p) / q, if q == 0 { None } else { fit_i(bi(p) / bi(q)) });
            // i128::MIN % -1 is None too: checked_rem
            assert_eq!(i(p) % q, if q == 0 || (p == i128::MIN && q == -1) { None } else { fit_i(bi(p) % bi(q)) });
        }
        let _ = s;
    }
    c01_sum_of_many(s) {
        #[cfg(not(kani))] {
            let n = s.below(6);
            let v: Vec<u128> = (0..n).map(|_| s.u128()).collect();
            let w: Vec<i128> = v.iter().map(|x| *x as i128).collect();
            inputs!(s, v);
            assert_eq!(v.iter().map(|x| u(*x)).sum::<Option<Amount>>(), fit_u(v.iter().map(|x| BigInt::from(*x)).sum()));
            let mut acc = Some(BigInt::from(0));
            for x in &w { acc = acc.map(|a| a + *x).filter(|a| i128::try_from(a.clone()).is_ok()); }
            assert_eq!(w.iter().map(|x| i(*x)).sum::<Option<SignedAmount>>(), acc.and_then(fit_i));
        }
        let _ = s;
    }
}
