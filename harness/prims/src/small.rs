//! C06: rationals. C07: heights, distances, counts and times. C08: per-thousand values and versions.
use common::primitives::per_thousand::PerThousand;
use common::primitives::rational::Rational;
use common::primitives::semver::SemVer;
use common::primitives::time::Time;
use common::primitives::{BlockCount, BlockDistance, BlockHeight};
use common::uint::Uint256;
use std::cmp::Ordering;
use std::str::FromStr;
use std::time::Duration;
use vsrc::*;
#[cfg(not(kani))]
use num_bigint::BigUint;

fn secs(t: Option<Duration>) -> Option<(u64, u32)> { t.map(|d| (d.as_secs(), d.subsec_nanos())) }

cases! {
    c06_order_of_u64_rationals(s) {
        let (a, b, c, d) = (s.u64(), s.u64(), s.u64(), s.u64());
        assume!(s, b != 0 && d != 0);
        inputs!(s, a, b, c, d);
        let (x, y) = (Rational::new(a, b), Rational::new(c, d));
        let want = (a as u128 * d as u128).cmp(&(c as u128 * b as u128));
        assert_eq!(x.cmp(&y), want);
        assert_eq!(x.partial_cmp(&y), Some(want));
        assert_eq!(y.cmp(&x), want.reverse());
        assert!(*x.numer() == a && *x.denom() == b);
    }
    c06_order_of_small_rationals(s) [unwind 66] {
        // denominators and numerators below 16, with a common shift: every case of the comparison
        let (a, b, c, d) = (s.u64(), s.u64(), s.u64(), s.u64());
        assume!(s, a < 8 && b < 8 && c < 8 && d < 8 && b != 0 && d != 0);
        inputs!(s, a, b, c, d);
        assert_eq!(Rational::new(a, b).cmp(&Rational::new(c, d)), (a * d).cmp(&(c * b)));
    }
    c06_order_of_wide_rationals(s) {
        #[cfg(not(kani))] {
            let (a, b, c, d) = (s.u128(), s.u128(), s.u128(), s.u128());
            let (e, f, g, h) = (s.words::<4>(), s.words::<4>(), s.words::<4>(), s.words::<4>());
            let same = s.below(4);
            let (c, g) = if same == 1 { (a, e) } else { (c, g) };
            let (d, h) = if same == 2 { (b, f) } else { (d, h) };
            assume!(s, b != 0 && d != 0 && f != [0; 4] && h != [0; 4]);
            inputs!(s, a, b, c, d, e, f, g, h);
            let u = |x: u128| BigUint::from(x);
            let (x, y) = (Rational::new(a, b), Rational::new(c, d));
            let want = (u(a) * u(d)).cmp(&(u(c) * u(b)));
            assert_eq!(x.cmp(&y), want);
            assert_eq!(Rational::<Uint256>::from(x).cmp(&Rational::<Uint256>::from(y)), want);
            let w = |x: &[u64; 4]| x.iter().rev().fold(BigUint::from(0u8), |a, v| (a << 64) + *v);
            let (p, q) = (Rational::new(Uint256(e), Uint256(f)), Rational::new(Uint256(g), Uint256(h)));
            assert_eq!(p.cmp(&q), (w(&e) * w(&h)).cmp(&(w(&g) * w(&f))));
            // multiples of the same number are equal in the order
            let k = s.u32() as u128 + 1;
            let (m, n) = (a >> 33, (b >> 33) + 1);
            assert_eq!(Rational::new(m, n).cmp(&Rational::new(m * k, n * k)), Ordering::Equal);
        }
        let _ = s;
    }
    c07_height_and_distance(s) [unwind 2] {
        let (h, g, d) = (s.u64(), s.u64(), s.i64());
        // a sum beyond i64::MAX panics, by design (the existing tests demand it)
        assume!(s, h > i64::MAX as u64 || h as i128 + d as i128 <= i64::MAX as i128);
        inputs!(s, h, g, d);
        // heights are used up to i64::MAX; the arithmetic is exact there, and None outside
        let fit = |x: i128, from: u64| if from <= i64::MAX as u64 && x >= 0 && x <= i64::MAX as i128 { Some(BlockHeight::new(x as u64)) } else { None };
        assert_eq!(BlockHeight::new(h) + BlockDistance::new(d), fit(h as i128 + d as i128, h));
        assert_eq!(BlockHeight::new(h) - BlockDistance::new(d), fit(h as i128 - d as i128, h));
        let both = h <= i64::MAX as u64 && g <= i64::MAX as u64;
        assert_eq!(BlockHeight::new(h) - BlockHeight::new(g), if both { Some(BlockDistance::new((h as i128 - g as i128) as i64)) } else { None });
        assert_eq!(BlockHeight::new(h).checked_add(g).map(|x| x.into_int() as u128), if h as u128 + g as u128 <= u64::MAX as u128 { Some(h as u128 + g as u128) } else { None });
        assert_eq!(BlockHeight::new(h).prev_height(), if h == 0 { None } else { Some(BlockHeight::new(h - 1)) });
        if h != u64::MAX { assert_eq!(BlockHeight::new(h).next_height(), BlockHeight::new(h + 1)); }
        assert_eq!(BlockHeight::new(h).cmp(&BlockHeight::new(g)), h.cmp(&g));
        assert!(BlockHeight::zero().into_int() == 0 && BlockHeight::one().into_int() == 1 && BlockHeight::max().into_int() == u64::MAX);
        assert!(u64::from(BlockHeight::from(h)) == h && i64::from(BlockDistance::from(d)) == d && BlockDistance::new(d).to_int() == d);
    }
    c07_distance_and_count(s) [unwind 2] {
        let (d, e, m, n) = (s.i64(), s.i64(), s.u64(), s.u64());
        inputs!(s, d, e, m, n);
        let fit = |x: i128| if x >= i64::MIN as i128 && x <= i64::MAX as i128 { Some(BlockDistance::new(x as i64)) } else { None };
        assert_eq!(BlockDistance::new(d) + BlockDistance::new(e), fit(d as i128 + e as i128));
        assert_eq!(BlockDistance::new(d) - BlockDistance::new(e), fit(d as i128 - e as i128));
        let fit = |x: i128| if x >= 0 && x <= u64::MAX as i128 { Some(BlockCount::new(x as u64)) } else { None };
        assert_eq!(BlockCount::new(m) + BlockCount::new(n), fit(m as i128 + n as i128));
        assert_eq!(BlockCount::new(m) - BlockCount::new(n), fit(m as i128 - n as i128));
        assert!(BlockCount::new(m).to_int() == m && BlockCount::new(m).cmp(&BlockCount::new(n)) == m.cmp(&n) && BlockDistance::new(d).cmp(&BlockDistance::new(e)) == d.cmp(&e));
    }
    c07_iteration(s) [unwind 6] {
        let (h, k) = (s.u64(), s.below(4) as u64);
        assume!(s, h <= u64::MAX - k);
        inputs!(s, h, k);
        let (a, b) = (BlockHeight::new(h), BlockHeight::new(h + k));
        let mut n = 0;
        for x in a.iter_up_to(b) { assert!(n < k); assert_eq!(x.into_int(), h + n); n += 1; }
        assert_eq!(n, k);
        let mut n = 0;
        for x in a.iter_up_to_including(b) { assert!(n <= k); assert_eq!(x.into_int(), h + n); n += 1; }
        assert_eq!(n, k + 1);
        if h < u64::MAX { assert!(BlockHeight::new(h + 1).iter_up_to(a).next().is_none() && BlockHeight::new(h + 1).iter_up_to_including(a).next().is_none()) }
    }
    c07_time(s) [unwind 2] {
        let (a, b, m, n) = (s.u64(), s.u64(), s.u32() % 1_000_000_000, s.u32() % 1_000_000_000);
        inputs!(s, a, b, m, n);
        let (p, q) = (Duration::new(a, m), Duration::new(b, n));
        let (x, y) = (Time::from_duration_since_epoch(p), Time::from_duration_since_epoch(q));
        let ns = 1_000_000_000u32;
        let carry = (m + n >= ns) as u64;
        let total = a as u128 + b as u128 + carry as u128;
        let add = if total <= u64::MAX as u128 { Some((total as u64, if carry == 1 { m + n - ns } else { m + n })) } else { None };
        assert_eq!(secs((x + q).map(|t| t.as_duration_since_epoch())), add);
        let less = (a, m) < (b, n);
        let borrow = m < n;
        let sub = if less { None } else { Some((a - b - borrow as u64, if borrow { m + ns - n } else { m - n })) };
        assert_eq!(secs((x - q).map(|t| t.as_duration_since_epoch())), sub);
        assert_eq!(secs(x - y), sub);
        assert_eq!(secs(Some(x.saturating_sub(y))), Some(sub.unwrap_or((0, 0))));
        assert_eq!(secs(Some(x.saturating_duration_sub(q).as_duration_since_epoch())), Some(sub.unwrap_or((0, 0))));
        assert_eq!(secs(Some(x.saturating_duration_add(q).as_duration_since_epoch())), Some(add.unwrap_or((u64::MAX, ns - 1))));
        assert_eq!(x.cmp(&y), (a, m).cmp(&(b, n)));
        assert!(x.as_secs_since_epoch() == a && Time::from_secs_since_epoch(a).as_duration_since_epoch() == Duration::from_secs(a));
    }
    c07_time_and_calendar(s) {
        #[cfg(not(kani))] {
            let (a, k) = (s.u64(), s.u64());
            let a = if s.bool() { a % (1 << 42) } else { a };
            inputs!(s, a, k);
            let t = Time::from_secs_since_epoch(a);
            match t.as_absolute_time() {
                Some(d) => { assert_eq!(d.timestamp() as i128, a as i128); assert_eq!(Time::from_absolute_time(&d), Some(t)); }
                None => assert!(a > 8_000_000_000_000),
            }
            let d = Duration::from_millis(k);
            assert_eq!(common::primitives::time::duration_to_int(&d), Ok(k));
            assert_eq!(common::primitives::time::duration_from_int(k), d);
            if let Some(h) = Time::from_duration_since_epoch(Duration::new(a % (1 << 40), 1 + (k % 999_999_999) as u32)).as_absolute_time() { assert!(Time::from_absolute_time(&h).is_none()); }
        }
        let _ = s;
    }
    c08_per_thousand_range(s) [unwind 2] {
        let v = s.u16();
        inputs!(s, v);
        let r = PerThousand::new(v);
        assert_eq!(r.is_some(), v <= 1000);
        if let Some(p) = r { assert!(p.value() == v && p.as_per_thousand_int() == v && p.denominator() == 1000); }
    }
    c08_per_thousand_text(s) {
        #[cfg(not(kani))] {
            let v = s.u16() % 1001;
            inputs!(s, v);
            let p = PerThousand::new(v).unwrap();
            assert_eq!(PerThousand::from_decimal_str(&p.to_percentage_str()).ok(), Some(p));
            assert_eq!(PerThousand::from_decimal_str(&p.to_decimal_str()).ok(), Some(p));
            assert_eq!(p.to_string(), p.to_percentage_str());
            let t = if v % 10 == 0 { format!("{}%", v / 10) } else { format!("{}.{}%", v / 10, v % 10) };
            assert_eq!(p.to_percentage_str(), t);
            let json = serde_json::to_string(&p).unwrap();
            assert_eq!(serde_json::from_str::<PerThousand>(&json).ok(), Some(p));
            assert_eq!(serde_json::from_str::<PerThousand>(&v.to_string()).ok(), Some(p));
            assert!(serde_json::from_str::<PerThousand>(&(v as u32 + 1001).to_string()).is_err());
        }
        let _ = s;
    }
    c08_per_thousand_parsing(s) {
        #[cfg(not(kani))] {
            let n = s.below(9);
            let t: String = (0..n).map(|_| b"0123456789.. %%01"[s.below(17)] as char).collect();
            inputs!(s, t);
            if let Ok(p) = PerThousand::from_decimal_str(&t) {
                // the number that the text denotes
                let body: String = t.trim().trim_end_matches('%').trim().to_string();
                let scale = if t.trim().ends_with('%') { 10 } else { 1000 };
                let (i, f) = body.split_once('.').unwrap_or((&body, ""));
                let num: u64 = format!("0{i}{f}").parse().unwrap();
                assert_eq!(p.value() as u64 * 10u64.pow(f.len() as u32), num * scale);
            }
        }
        let _ = s;
    }
    c08_texts_of_per_thousand(s) {
        #[cfg(not(kani))] {
            // which numbers are taken: those of amounts with one digit (before the sign) or three
            let n = s.below(12);
            let mut t: String = (0..n).map(|_| b"0123456789.00011"[s.below(16)] as char).collect();
            if s.below(4) == 0 { t = format!("{}{}", "0".repeat(s.below(30)), t) }
            if s.below(4) == 0 { let v = s.u16() % 1001; t = if s.bool() { format!("{}{}.{}{}", "0".repeat(s.below(9)), v / 10, v % 10, "0".repeat(s.below(9))) } else { format!("{}.{:03}{}", v / 1000, v % 1000, "0".repeat(s.below(9))) } }
            inputs!(s, t);
            for (u, d) in [(format!("{t}%"), 1), (t.clone(), 3)] {
                let want = common::primitives::Amount::from_fixedpoint_str(&t, d).map(|a| a.into_atoms()).filter(|a| *a <= 1000);
                assert_eq!(PerThousand::from_decimal_str(&u).ok().map(|p| p.value() as u128), want, "{u}");
                if !u.contains('"') { assert_eq!(serde_json::from_str::<PerThousand>(&format!("\"{u}\"")).ok().map(|p| p.value() as u128), want, "{u}") }
            }
        }
        let _ = s;
    }
    c08_semver_text(s) {
        #[cfg(not(kani))] {
            let (a, b, c) = (s.u8(), s.u8(), s.u16());
            inputs!(s, a, b, c);
            let v = SemVer::new(a, b, c);
            assert_eq!(v.to_string(), format!("{a}.{b}.{c}"));
            assert_eq!(SemVer::from_str(&v.to_string()), Ok(v));
            assert_eq!(SemVer::try_from(v.to_string()), Ok(v));
        }
        let _ = s;
    }
    c08_semver_order(s) [unwind 2] {
        let (a, b, c, d, e, f) = (s.u8(), s.u8(), s.u16(), s.u8(), s.u8(), s.u16());
        inputs!(s, a, b, c, d, e, f);
        assert_eq!(SemVer::new(a, b, c).cmp(&SemVer::new(d, e, f)), (a, b, c).cmp(&(d, e, f)));
    }
    c08_semver_parsing(s) {
        #[cfg(not(kani))] {
            let n = s.below(10);
            let t: String = (0..n).map(|_| b"0123456789....+- a"[s.below(18)] as char).collect();
            inputs!(s, t);
            if let Ok(v) = SemVer::from_str(&t) {
                let p: Vec<u32> = t.split('.').map(|x| x.trim_start_matches('+').parse().unwrap()).collect();
                assert_eq!(p, vec![v.major as u32, v.minor as u32, v.patch as u32]);
            }
        }
        let _ = s;
    }
}
