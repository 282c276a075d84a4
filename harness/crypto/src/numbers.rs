//! C14: child numbers and chain codes.
use crypto::key::hdkd::{chain_code::ChainCode, child_number::ChildNumber, derivable::DerivationError, u31::U31};
use vsrc::*;

cases! {
    c14_child_numbers(s) [unwind 6] {
        let x = s.u32();
        inputs!(s, x);
        let (low, hard) = (x & 0x7fff_ffff, x >> 31 == 1);
        let c = ChildNumber::from_index_with_hardened_bit(x);
        assert!(c.into_encoded_index() == x && c.get_index().into_u32() == low && c.is_hardened() == hard && c.is_normal() == !hard);
        assert!(c.into_encoded_be_bytes() == [(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]);
        assert!(ChildNumber::from_encoded_be_bytes(c.into_encoded_be_bytes()) == c);
        let u = U31::from_u32_with_msb(x);
        assert!(u.0.into_u32() == low && u.1 == hard && u.0.into_encoded_with_msb(hard) == x && u32::from(u.0) == low);
        assert!(U31::from_u32(x).map(|u| u.into_u32()) == (if hard { None } else { Some(x) }));
        assert!(matches!(U31::try_from(x), Ok(u) if !hard && u.into_u32() == x) || (hard && U31::try_from(x) == Err(DerivationError::InvalidChildNumber(x))));
        assert!((if hard { ChildNumber::from_hardened(u.0) } else { ChildNumber::from_normal(u.0) }) == c);
        assert!(ChildNumber::ZERO.into_encoded_index() == 0 && ChildNumber::ONE.into_encoded_index() == 1);
    }
    c14_next_child(s) [unwind 2] {
        let x = s.u32();
        inputs!(s, x);
        let (low, hard) = (x & 0x7fff_ffff, x >> 31 == 1);
        let last = low == 0x7fff_ffff;
        match ChildNumber::from_index_with_hardened_bit(x).increment() {
            Ok(n) => assert!(!last && n.into_encoded_index() == x + 1 && n.is_hardened() == hard),
            Err(e) => assert!(last && e == DerivationError::InvalidChildNumber(0x8000_0000)),
        }
        let u = U31::from_u32_with_msb(x).0;
        match u.plus_one() { Ok(n) => assert!(!last && n.into_u32() == low + 1), Err(e) => assert!(last && e == DerivationError::InvalidChildNumber(0x8000_0000)) }
    }
    c14_child_numbers_in_order(s) [unwind 2] {
        let (x, y) = (s.u32(), s.u32());
        inputs!(s, x, y);
        let (a, b) = (ChildNumber::from_index_with_hardened_bit(x), ChildNumber::from_index_with_hardened_bit(y));
        assert!(a.cmp(&b) == x.cmp(&y) && (a == b) == (x == y));
    }
    c14_chain_codes(s) [unwind 34] {
        let (x, a) = (s.u32(), s.arr::<32>());
        let i = s.below(32);
        inputs!(s, x, a, i);
        let c = ChainCode::from(ChildNumber::from_index_with_hardened_bit(x)).into_array();
        let want = match i { 0 => (x >> 24) as u8, 1 => (x >> 16) as u8, 2 => (x >> 8) as u8, 3 => x as u8, _ => 0 };
        assert!(c[i] == want);
        let c = ChainCode::from(a);
        assert!(c.into_array()[i] == a[i] && <[u8; 32]>::from(c)[i] == a[i]);
    }
}
