//! C11: Bech32m texts, against an implementation of BIP-350 of its own.
use common::primitives::{bech32_encoding::{bech32m_decode, bech32m_encode, DecodedBech32}, Bech32Error};
use vsrc::{bech::*, *};

fn hrp(s: &mut impl Src) -> String {
    match s.below(6) { 0..=2 => ["mtc", "rpool", "tdelg", "x", "1", "a1b"][s.below(6)].to_owned(), 3 => (0..1 + s.below(84)).map(|_| (33 + s.below(94)) as u8 as char).collect(), 4 => ["", "MTC", "Mtc", "m tc", "m\u{e9}tc", "mtc\u{7f}"][s.below(6)].to_owned(), _ => (0..1 + s.below(12)).map(|_| (b'a' + s.below(26) as u8) as char).collect() }
}

cases! {
    c11_bech32m_writes_and_reads(s) {
        let h = hrp(s);
        let d = match s.below(8) { 0 => { let n = 560 + s.below(120); (0..n).map(|i| i as u8 ^ n as u8).collect() } _ => s.bytes(45) };
        inputs!(s, h, d.len(), d);
        let want = text(&h, &fives(&d), BECH32M);
        match bech32m_encode(&h, &d) {
            Ok(t) => {
                assert!(good_hrp(&h) && want.len() <= 1023, "refused");
                assert_eq!(t, want);
                assert_eq!(bech32m_decode(&t), Ok(DecodedBech32::new(h.to_lowercase(), d.clone())));
                assert_eq!(bech32m_decode(t.to_uppercase()), Ok(DecodedBech32::new(h.to_uppercase(), d.clone())));
            }
            Err(_) => assert!(!good_hrp(&h) || want.len() > 1023, "written"),
        }
        if good_hrp(&h) && h == h.to_lowercase() && want.len() <= 1023 {
            let back = bech32m_decode(&want).expect("reads");
            assert_eq!((back.hrp(), back.data()), (h.as_str(), d.as_slice()));
        }
    }
    // texts near a good one: changed, cut, of another checksum, in another case, with something around them
    c11_bech32m_takes_nothing_else(s) {
        let h = hrp(s);
        let g: Vec<u8> = match s.below(4) { 0 => fives(&s.bytes(40)), _ => { let n = s.below(50); (0..n).map(|_| s.below(32) as u8).collect() } };
        let constant = match s.below(4) { 0 => 1, 1 => s.u32() & 0x3fffffff, _ => BECH32M };
        let mut t = text(&h, &g, constant);
        let lower = s.bool();
        if !lower { t = t.to_uppercase() }
        let mut c: Vec<char> = t.chars().collect();
        let mut changed = 0;
        for _ in 0..s.below(5) {
            let i = s.below(c.len());
            match s.below(8) {
                0 => { c.remove(i); changed = 9; if c.is_empty() { break } }
                1 => { c.insert(i, ALPHABET[s.below(32)] as char); changed = 9 }
                2 => { c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() }; changed = 9 }
                3 => { c.swap(i, s.below(i + 1)); changed = 9 }
                4 => { c[i] = [' ', '\u{e9}', 'b', '1', '\u{7f}', 'i'][s.below(6)]; changed = 9 }
                _ => { c[i] = ALPHABET[s.below(32)] as char; if !lower { c[i] = c[i].to_ascii_uppercase() } changed += 1 }
            }
        }
        match s.below(12) { 0 => c.push(' '), 1 => c.insert(0, ' '), 2 => c.push('\n'), _ => () }
        let u: String = c.into_iter().collect();
        inputs!(s, h, g, constant, u);
        let got = bech32m_decode(&u).ok().map(|d| (d.hrp().to_owned(), d.data().to_vec()));
        assert_eq!(got, read(&u));
        // up to four changed characters of a text of up to 90 are always noticed
        if (1..=4).contains(&changed) && constant == BECH32M && t.len() <= 90 && u != t && u.rfind('1') == t.rfind('1') && u.len() == t.len() { assert!(got.is_none()) }
    }
    c11_bech32m_lengths(s) {
        let (n, h, upper) = (1000 + s.below(40), ["mtc", "a", "longprefix"][s.below(3)], s.bool());
        let seed = s.u8();
        inputs!(s, n, h, upper, seed);
        let g: Vec<u8> = (0..n - h.len() - 7).map(|i| (i as u8).wrapping_mul(seed) & 31).collect();
        let t = text(h, &g, BECH32M);
        let t = if upper { t.to_uppercase() } else { t };
        assert_eq!(t.len(), n);
        assert_eq!(bech32m_decode(&t).is_ok(), n <= 1023);
    }
    c11_bech32m_names_what_is_wrong(s) {
        let h: String = (0..1 + s.below(6)).map(|_| (b'a' + s.below(26) as u8) as char).collect();
        let d = s.bytes(30);
        inputs!(s, h, d);
        let t = text(&h, &fives(&d), BECH32M);
        assert!(matches!(bech32m_encode("", &d), Err(Bech32Error::HrpEmpty)));
        assert!(matches!(bech32m_encode("x".repeat(84), &d), Err(Bech32Error::HrpTooLong(84))));
        assert!(matches!(bech32m_encode(h.clone() + "A", &d), Err(Bech32Error::MixedCase)));
        assert!(matches!(bech32m_encode(h.clone() + "\u{e9}", &d), Err(Bech32Error::HrpNonAscii('\u{e9}'))));
        assert!(matches!(bech32m_encode(h.clone() + " ", &d), Err(Bech32Error::HrpInvalidByte(b' '))));
        assert!(matches!(bech32m_encode(&h, vec![1u8; 700]), Err(Bech32Error::EncodeTooLongError(_))));
        assert!(matches!(bech32m_decode(t.replace('1', "")), Err(Bech32Error::DecodeParsingError(_))));
        assert!(matches!(bech32m_decode(text(&h, &fives(&d), BECH32M ^ 2)), Err(Bech32Error::DecodeChecksumError(_))));
        assert!(matches!(bech32m_decode(text(&h, &fives(&d), 1)), Err(Bech32Error::VariantCheckChecksumError(_))));
        assert!(matches!(bech32m_decode(t.clone() + "\u{e9}"), Err(Bech32Error::DecodeParsingError(_))));
        let e = bech32m_decode(String::new()).expect_err("empty");
        assert!(matches!(&e, Bech32Error::DecodeParsingError(_)) && !e.to_string().is_empty());
    }
}
