//! C02: decimal amounts and their text.
use common::primitives::amount::decimal::subtract_decimal_amounts_of_same_currency;
use common::primitives::amount::{DecimalAmount, DisplayAmount, SignedAmount};
use common::primitives::Amount;
use num_bigint::BigInt;
use std::str::FromStr;
use vsrc::*;

fn ten(n: u32) -> BigInt { BigInt::from(10).pow(n) }
fn big(x: u128) -> BigInt { BigInt::from(x) }
fn dec(m: u128, d: u8) -> DecimalAmount { DecimalAmount::from_uint_decimal(m, d) }
/// The number: mantissa * 10^(400 - decimals)
fn num(x: &DecimalAmount) -> BigInt { big(x.mantissa()) * ten(400 - x.decimals() as u32) }
fn decimals<S: Src>(s: &mut S) -> u8 { let d = s.u8(); if s.bool() { d % 40 } else { d } }
fn mantissa<S: Src>(s: &mut S) -> u128 {
    let m = s.u128();
    let k = s.u8() % 40;
    if s.bool() { let p = 10u128.pow(k.min(38) as u32); m / p * p } else { m }
}
/// What the text of a DecimalAmount is, written down from its definition
fn text(m: u128, d: u8) -> String {
    let t = m.to_string();
    if d == 0 { return t; }
    let t = if t.len() <= d as usize { "0".repeat(d as usize + 1 - t.len()) + &t } else { t };
    let (a, b) = t.split_at(t.len() - d as usize);
    format!("{a}.{b}")
}
/// The grammar: spaces around, underscores anywhere, digits with at most one point, at least one digit
fn grammar(s: &str) -> Option<(BigInt, usize)> {
    if s.len() > 257 { return None; }
    let t: String = s.trim_matches(' ').chars().filter(|c| *c != '_').collect();
    let (i, f) = match t.find('.') { Some(p) => (&t[..p], &t[p + 1..]), None => (&t[..], "") };
    if i.len() + f.len() == 0 || !i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) { return None; }
    let n: BigInt = format!("0{i}{f}").parse().unwrap();
    Some((n, f.len()))
}

cases! {
    c02_change_of_decimals_keeps_the_number(s) {
        let (m, d, to) = (mantissa(s), decimals(s), decimals(s));
        inputs!(s, m, d, to);
        let x = dec(m, d);
        let y = x.without_padding();
        assert_eq!(num(&x), num(&y));
        assert!(y.decimals() == 0 || y.mantissa() % 10 != 0);
        match x.with_decimals(to) {
            Some(z) => assert!(z.decimals() == to && to >= d && num(&z) == num(&x)),
            None => assert!(to < d || big(m) * ten((to - d) as u32) > big(u128::MAX)),
        }
    }
    c02_to_amount_is_exact_and_complete(s) {
        let (m, d, to) = (mantissa(s), decimals(s), decimals(s));
        inputs!(s, m, d, to);
        // m / 10^d == a / 10^to
        let (n, p) = (big(m) * ten(to as u32), ten(d as u32));
        let want = if &n % &p == BigInt::from(0) { u128::try_from(n / p).ok() } else { None };
        assert_eq!(dec(m, d).to_amount(to).map(|a| a.into_atoms()), want);
    }
    c02_from_amount(s) {
        let (m, d) = (mantissa(s), decimals(s));
        inputs!(s, m, d);
        let a = Amount::from_atoms(m);
        let f = DecimalAmount::from_amount_full_padding(a, d);
        assert!(f.mantissa() == m && f.decimals() == d);
        let n = DecimalAmount::from_amount_no_padding(a, d);
        assert!(num(&n) == num(&f) && (n.decimals() == 0 || n.mantissa() % 10 != 0));
        assert!(f.is_same(&f) && f.is_same(&n) == (n.decimals() == d));
        assert_eq!(f.to_amount(d), Some(a));
        assert_eq!(n.to_amount(d), Some(a));
        let i = DecimalAmount::from_uint_integral(m);
        assert!(i.mantissa() == m && i.decimals() == 0);
        assert!(DecimalAmount::ZERO.mantissa() == 0 && DecimalAmount::ZERO.decimals() == 0);
        assert_eq!(DisplayAmount::from_amount_full(a, d).to_string(), text(m, d));
        assert!(DisplayAmount::from_uint_decimal(m, d) == DisplayAmount::from_decimal_amount(f) && (d == 0) == (DisplayAmount::from_uint_integral(m) == DisplayAmount::from_decimal_amount(f)));
    }
    c02_subtraction(s) {
        let (m, d, n, e) = (mantissa(s), decimals(s), mantissa(s), decimals(s));
        let (m, d, n, e) = if s.bool() { (m, d % 24, n, e % 24) } else { (m, d, n, e) };
        // a subtrahend written with padding
        let (n, e) = match s.below(4) { 0 => { let k = s.below(36) as u32; (n % 1000 * 10u128.pow(k), (d as u32 + k).min(255) as u8) } 1 => (n % (m / 7 + 1), d), _ => (n, e) };
        inputs!(s, m, d, n, e);
        let (x, y) = (dec(m, d), dec(n, e));
        // the common precision: that of the minuend, or of the trimmed subtrahend
        let (mut t, mut f) = (n, e);
        while f > 0 && t % 10 == 0 { t /= 10; f -= 1; }
        let common = d.max(f) as u32;
        let fits = |m: u128, d: u8| big(m) * ten(common - d as u32) <= big(u128::MAX);
        match subtract_decimal_amounts_of_same_currency(&x, &y) {
            Some(z) => assert!(num(&z) == num(&x) - num(&y) && (z.decimals() == 0 || z.mantissa() % 10 != 0)),
            None => assert!(num(&x) < num(&y) || !fits(m, d) || !fits(t, f)),
        }
    }
    c02_text_of_decimal_amount(s) {
        let (m, d) = (mantissa(s), decimals(s));
        inputs!(s, m, d);
        let x = dec(m, d);
        let t = x.to_string();
        assert_eq!(t, text(m, d));
        let back = DecimalAmount::from_str(&t).expect("its own text is accepted");
        assert!(back.is_same(&x));
    }
    c02_text_of_amount_round_trips(s) {
        let (m, d, v) = (mantissa(s), decimals(s), s.i128());
        inputs!(s, m, d, v);
        let a = Amount::from_atoms(m);
        let t = a.into_fixedpoint_str(d);
        assert_eq!(Amount::from_fixedpoint_str(&t, d), Some(a));
        assert!(!t.contains('.') || !(t.ends_with('0') || t.ends_with('.')));
        let b = SignedAmount::from_atoms(v);
        let t = b.into_fixedpoint_str(d);
        assert_eq!(SignedAmount::from_fixedpoint_str(&t, d), Some(b));
        assert_eq!(t.trim_start_matches('-'), Amount::from_atoms(v.unsigned_abs()).into_fixedpoint_str(d));
        assert_eq!(t.starts_with('-'), v < 0);
    }
    c02_parsing_accepts_exactly_the_grammar(s) {
        let n = if s.bool() { s.below(14) } else if s.bool() { s.below(48) } else { 250 + s.below(10) };
        let zeros = s.bool();
        let t: String = (0..n).map(|_| {
            let c = s.below(40);
            if zeros && c < 36 { return if n > 100 && c == 7 { '.' } else { '0' }; }
            match c { 0..=9 | 20..=35 => (b'0' + (c % 10) as u8) as char, 10 | 11 => '.', 12 => '_', 13 => ' ', 14 => '-', 15 => '+', 16 => 'e', 17 => '\u{665}', _ => '1' }
        }).collect();
        inputs!(s, t);
        let r = DecimalAmount::from_str(&t);
        match grammar(&t) {
            Some((v, f)) if v <= big(u128::MAX) && f <= 255 => {
                let r = r.expect("a number within range is accepted");
                assert!(big(r.mantissa()) == v && r.decimals() as usize == f);
            }
            _ => assert!(r.is_err()),
        }
        if let Some(a) = Amount::from_fixedpoint_str(&t, 3) {
            let (v, f) = grammar(&t).unwrap();
            assert_eq!(big(a.into_atoms()) * ten(f as u32), v * ten(3));
        }
    }
    c02_parsing_of_numbers(s) {
        // an integral and a fractional part, each short or near its limit, with leading and trailing zeros
        let (i, k) = (mantissa(s), s.below(4));
        let i = match k { 0 => i % 12, 1 => i >> s.below(128), _ => i };
        let (lead, zeros, f, tail) = (s.below(3), s.below(48), mantissa(s) >> s.below(128), s.below(6));
        let (skip, nofrac) = (s.below(3) == 0, s.below(3) == 0);
        let t = "0".repeat(lead) + &if i == 0 && skip { String::new() } else { i.to_string() } + "." + &"0".repeat(zeros) + &if nofrac { String::new() } else { f.to_string() } + &"0".repeat(tail);
        inputs!(s, t);
        match (DecimalAmount::from_str(&t), grammar(&t)) {
            (r, Some((v, f))) if v <= big(u128::MAX) => { let r = r.expect("accepted"); assert!(big(r.mantissa()) == v && r.decimals() as usize == f) }
            (r, _) => assert!(r.is_err()),
        }
    }
    c02_parsing_with_underscores_and_spaces(s) {
        // a number with underscores put anywhere (any number of them), spaces around it
        let (m, d) = (mantissa(s) >> s.below(128), s.u8() % 24);
        let plain = text(m, d);
        let many = s.below(3) == 0;
        let mut t = " ".repeat(s.below(3));
        for c in plain.chars() { t += &"_".repeat(if many { s.below(9) } else { s.below(2) }); t.push(c); }
        t += &"_".repeat(s.below(3));
        t += &" ".repeat(s.below(3));
        inputs!(s, t);
        match DecimalAmount::from_str(&t) {
            Ok(r) => assert!(t.len() <= 257 && r.mantissa() == m && r.decimals() == d),
            Err(_) => assert!(t.len() > 257),
        }
    }
    c02_signed_texts(s) {
        // the number after an optional minus sign; no atoms below zero without one, and no negative zero
        let (m, d, to) = (if s.below(4) == 0 { s.below(3) as u128 } else { mantissa(s) >> s.below(128) }, s.u8() % 8, s.u8() % 12);
        let m = match s.below(6) { 0 => i128::MIN.unsigned_abs(), 1 => i128::MAX as u128, _ => m };
        let neg = s.bool();
        let t = if neg { "-".to_string() } else { String::new() } + &text(m, d);
        inputs!(s, t, to);
        let (n, p) = (big(m) * ten(to as u32), ten(d as u32));
        let atoms = if &n % &p == BigInt::from(0) { Some(n / p) } else { None };
        let want = atoms.map(|a| if neg { -a } else { a }).and_then(|a| i128::try_from(a).ok());
        assert_eq!(SignedAmount::from_fixedpoint_str(&t, to).map(|a| a.into_atoms()), want);
    }
    c02_parsing_at_the_length_limit(s) {
        // at most 257 bytes are looked at: with many decimals, leading point
        let (lead, n, dig) = (s.below(3), 250 + s.below(10), s.below(3));
        let t = "0".repeat(lead) + "." + &"0".repeat(n) + &"7".repeat(dig);
        inputs!(s, t);
        let r = DecimalAmount::from_str(&t);
        match grammar(&t) {
            Some((v, f)) if f <= 255 => { let r = r.expect("accepted"); assert!(big(r.mantissa()) == v && r.decimals() as usize == f) }
            _ => assert!(r.is_err()),
        }
    }
}
