//! C05: the compact encoding of targets.
use common::primitives::Compact;
use common::uint::Uint256;
#[cfg(not(kani))]
use num_bigint::BigUint;
use vsrc::*;

fn below256(size: u32, word: u32) -> bool { let bits = 32 - word.leading_zeros(); word == 0 || size < 3 || bits + 8 * (size - 3) <= 256 }

cases! {
    c05_encoding_is_minimal(s) [unwind 34] {
        let a = s.words::<4>();
        inputs!(s, a);
        let x = Uint256(a);
        let n = x.bits();
        let c = Compact::from(x);
        let (size, word) = (c.0 >> 24, c.0 & 0x7fffff);
        // never negative; the bytes used are those of the number, one more if the top bit would be the sign
        assert!(c.0 & 0x800000 == 0);
        assert!(size as usize == n / 8 + if n == 0 { 0 } else { 1 });
        assert!(n == 0 || word >= 0x8000 || size < 3);
    }
    c05_encoding_keeps_the_leading_bits(s) [unwind 34] {
        let a = s.words::<4>();
        inputs!(s, a);
        let x = Uint256(a);
        let c = Compact::from(x);
        // the encoding denotes the number with everything below its three leading bytes cleared
        let keep = 8 * ((c.0 >> 24) as usize).saturating_sub(3);
        let lead = if keep >= 256 { 0 } else { let (w, b) = (keep / 64, keep % 64); a[w] >> b | if b > 0 && w < 3 { a[w + 1] << (64 - b) } else { 0 } };
        let word = (c.0 & 0x7fffff) as u64;
        assert_eq!(lead, if c.0 >> 24 >= 3 { word } else { word >> (8 * (3 - (c.0 >> 24))) });
    }
    c05_target_and_back(s) {
        let a = s.words::<4>();
        let cut = s.below(256);
        inputs!(s, a, cut);
        let x = Uint256(a) >> cut;
        let c = Compact::from(x);
        let y = Uint256::try_from(c).expect("an encoded target decodes");
        let keep = 8 * ((c.0 >> 24) as usize).saturating_sub(3);
        assert!(y <= x && y == (x >> keep) << keep && Compact::from(y) == c);
    }
    c05_decoding(s) [unwind 34] {
        let c = s.u32();
        inputs!(s, c);
        let (size, m, neg) = (c >> 24, c & 0x7fffff, c & 0x800000 != 0);
        let r = Uint256::try_from(Compact(c));
        let word = if size < 3 { m >> (8 * (3 - size)) } else { m };
        let good = word == 0 || (!neg && below256(size, word));
        assert_eq!(r.is_ok(), good);
        if let Ok(v) = r {
            // m * 256^(size - 3)
            let want = if size <= 3 { Uint256::from_u64(word as u64) } else { Uint256::from_u64(word as u64) << (8 * (size as usize - 3)) };
            assert!(v == want);
            assert_eq!(v == Uint256::ZERO, word == 0);
        }
    }
    c05_against_integers(s) {
        #[cfg(not(kani))] {
            let (c, a, cut) = (s.u32(), s.words::<4>(), s.below(256));
            let c = if s.bool() { (c & 0xffffff) | ((c >> 24) % 36) << 24 } else { c };
            let x = Uint256(a) >> cut;
            inputs!(s, c, x);
            let big = |w: &Uint256| w.0.iter().rev().fold(BigUint::from(0u8), |a, x| (a << 64) + *x);
            let value = |c: u32| { let (z, m) = (c >> 24, BigUint::from(c & 0x7fffff)); if z >= 3 { m << (8 * (z - 3)) } else { m >> (8 * (3 - z)) } };
            let v = value(c);
            match Uint256::try_from(Compact(c)) {
                Ok(t) => { assert_eq!(big(&t), v); assert!(c & 0x800000 == 0 || v.bits() == 0); }
                Err(_) => assert!(v.bits() > 256 || c & 0x800000 != 0),
            }
            let e = Compact::from(x);
            let n = big(&x);
            let bytes = n.bits().div_ceil(8);
            let want = { let mut z = bytes; let mut m = if z <= 3 { &n << (8 * (3 - z)) } else { &n >> (8 * (z - 3)) }; if m.bits() == 24 { m >>= 8; z += 1; } (u32::try_from(m).unwrap()) | (z as u32) << 24 };
            assert_eq!(e.0, want);
        }
        let _ = s;
    }
}
