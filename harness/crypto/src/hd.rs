//! C14: derivation paths as text and bytes, and the derivation of keys (BIP32 written out again with an own addition).
use crypto::key::{
    extended::{ExtendedKeyKind, ExtendedPrivateKey, ExtendedPublicKey},
    hdkd::{child_number::ChildNumber, derivable::{Derivable, DerivationError}, derivation_path::DerivationPath},
};
use crypto::vrf::{ExtendedVRFPrivateKey, ExtendedVRFPublicKey, VRFKeyKind};
use hmac::{Hmac, Mac};
use serialization::{DecodeAll, Encode};
use vsrc::*;

const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
fn add_mod_n(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut r = [0u16; 33];
    let mut c = 0u16;
    for i in (0..32).rev() { let t = a[i] as u16 + b[i] as u16 + c; r[i + 1] = t & 255; c = t >> 8; }
    r[0] = c;
    let n: Vec<u16> = std::iter::once(0u16).chain(N.iter().map(|x| *x as u16)).collect();
    if r[..] >= n[..] { let mut bo = 0i32; for i in (0..33).rev() { let t = r[i] as i32 - n[i] as i32 - bo; r[i] = (t & 255) as u16; bo = (t < 0) as i32; } }
    std::array::from_fn(|i| r[i + 1] as u8)
}
fn mac(key: &[u8], parts: &[&[u8]]) -> ([u8; 32], [u8; 32]) {
    let mut m = Hmac::<sha2::Sha512>::new_from_slice(key).expect("any key");
    for p in parts { m.update(p) }
    let r = m.finalize().into_bytes();
    (r[..32].try_into().expect("32"), r[32..].try_into().expect("32"))
}
fn point(k: &[u8; 32]) -> [u8; 33] { secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &secp256k1::SecretKey::from_slice(k).expect("a key")).serialize() }
/// BIP32: key and chain code of the private child
fn ckd(k: &[u8; 32], c: &[u8; 32], i: u32) -> ([u8; 32], [u8; 32]) {
    let (l, r) = if i >> 31 == 1 { mac(c, &[&[0], k, &i.to_be_bytes()]) } else { mac(c, &[&point(k), &i.to_be_bytes()]) };
    (add_mod_n(&l, k), r)
}
fn path_bytes(p: &[u32]) -> Vec<u8> { std::iter::once(p.len() as u8).chain(p.iter().flat_map(|x| x.to_be_bytes())).collect() }
fn path(p: &[u32]) -> DerivationPath { p.iter().map(|x| ChildNumber::from_index_with_hardened_bit(*x)).collect::<Vec<_>>().try_into().expect("short") }
fn num(s: &mut impl Src) -> u32 { match s.below(4) { 0 => s.u32(), 1 => s.u8() as u32, 2 => s.u8() as u32 | 1 << 31, _ => 44 | 1 << 31 } }
fn nums(s: &mut impl Src, max: usize) -> Vec<u32> { let n = s.below(max + 1); (0..n).map(|_| num(s)).collect() }
fn numtext(x: u32, c: char) -> String { if x >> 31 == 1 { format!("{}{c}", x & 0x7fff_ffff) } else { x.to_string() } }
/// The child number a text stands for: digits without leading zeros, below 2^31, then ' or h if hardened
fn read_number(t: &str) -> Option<u32> {
    let (d, hard) = match t.as_bytes().last() { Some(b'\'') | Some(b'h') => (&t[..t.len() - 1], true), _ => (t, false) };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) || (d.len() > 1 && d.as_bytes()[0] == b'0') || d.len() > 10 { return None }
    let v: u64 = d.bytes().fold(0, |a, c| a * 10 + (c - b'0') as u64);
    if v >> 31 != 0 { return None }
    Some(v as u32 | (hard as u32) << 31)
}
fn noise(s: &mut impl Src, t: &mut String) {
    let abc: Vec<char> = "0123456789'hmM/+- H\u{661}".chars().collect();
    let mut v: Vec<char> = t.chars().collect();
    let k = if v.is_empty() { 0 } else { s.below(v.len()) };
    let c = abc[s.below(abc.len())];
    match s.below(3) { 0 => v.insert(k, c), 1 if !v.is_empty() => { v.remove(k); } _ if !v.is_empty() => v[k] = c, _ => v.push(c) }
    *t = v.into_iter().collect();
}

cases! {
    c14_text_of_a_child_number(s) {
        let x = num(s);
        let mut t = numtext(x, if s.bool() { 'h' } else { '\'' });
        let changes = match s.below(3) { 0 => 0, 1 => 1, _ => s.below(4) };
        for _ in 0..changes { noise(s, &mut t) }
        inputs!(s, x, t);
        let c = ChildNumber::from_index_with_hardened_bit(x);
        assert_eq!((format!("{c}"), format!("{c:#}")), (numtext(x, '\''), numtext(x, 'h')));
        assert_eq!(t.parse::<ChildNumber>().ok().map(|c| c.into_encoded_index()), read_number(&t));
    }
    c14_text_of_a_path(s) {
        let p = if s.below(20) == 0 { vec![num(s); 253 + s.below(5)] } else { nums(s, 6) };
        let mut t = String::from("m");
        for x in &p { t += "/"; t += &numtext(*x, if s.bool() { 'h' } else { '\'' }) }
        let canon: String = std::iter::once("m".to_string()).chain(p.iter().map(|x| "/".to_string() + &numtext(*x, '\''))).collect();
        let changes = match s.below(3) { 0 => 0, 1 => 1, _ => s.below(4) };
        for _ in 0..changes { noise(s, &mut t) }
        inputs!(s, p, t);
        let mut parts = t.split('/');
        let want = if parts.next() != Some("m") { None } else { parts.map(read_number).collect::<Option<Vec<_>>>() };
        let got = t.parse::<DerivationPath>();
        if changes == 0 && p.len() <= 255 { assert_eq!(want.as_ref(), Some(&p)); }
        match &want {
            None => assert!(got.is_err()),
            Some(w) if w.len() > 255 => assert_eq!(got, Err(DerivationError::PathTooLong)),
            Some(w) => assert_eq!(got.expect("valid").into_vec().iter().map(|c| c.into_encoded_index()).collect::<Vec<_>>(), *w),
        }
        let v: Vec<_> = p.iter().map(|x| ChildNumber::from_index_with_hardened_bit(*x)).collect();
        match DerivationPath::try_from(v) {
            Ok(d) => { assert!(p.len() <= 255); assert_eq!(d.to_string(), canon); assert!(d.len() == p.len() && d.is_empty() == p.is_empty() && d.is_root() == p.is_empty() && d.as_slice().len() == p.len() && (&d).into_iter().map(|c| c.into_encoded_index()).eq(p.iter().copied())); }
            Err(e) => { assert!(p.len() > 255); assert_eq!(e, DerivationError::PathTooLong) }
        }
    }
    c14_bytes_of_a_path(s) {
        let p = match s.below(10) { 0 => vec![num(s); 254 + s.below(2)], _ => nums(s, 8) };
        let mut raw = path_bytes(&p);
        match s.below(5) { 0 => { raw.pop(); } 1 => raw.push(s.u8()), 2 => raw[0] = raw[0].wrapping_add(s.u8()), _ => {} }
        inputs!(s, p, raw);
        assert_eq!(path(&p).encode(), path_bytes(&p));
        let ok = raw.len() == 1 + 4 * raw.first().copied().unwrap_or(0) as usize && !raw.is_empty();
        let got = DerivationPath::decode_all(&mut raw.as_slice());
        assert_eq!(got.is_ok(), ok);
        if let Ok(d) = got { assert_eq!(d.encode(), raw) }
    }
    c14_rest_of_a_path(s) {
        let a = nums(s, 4);
        let mut b = a.clone();
        match s.below(4) { 0 => b.extend(nums(s, 3)), 1 => { b.pop(); } 2 if !b.is_empty() => { let i = s.below(b.len()); b[i] ^= 1 << s.below(32) } _ => { b.push(num(s)); if s.below(3) == 0 { b[0] ^= 1 } } }
        inputs!(s, a, b);
        let want = if b.len() > a.len() && b[..a.len()] == a[..] { Some(b[a.len()..].to_vec()) } else { None };
        assert_eq!(path(&b).get_super_path_diff(&path(&a)).map(|x| x.iter().map(|c| c.into_encoded_index()).collect::<Vec<_>>()), want);
    }
    c14_keys_are_those_of_bip32(s) {
        let seed = s.bytes(70);
        let p = nums(s, 4);
        inputs!(s, seed, p);
        let (mut k, mut c) = mac(b"Bitcoin seed", &[&seed]);
        let mut key = ExtendedPrivateKey::new_master(&seed, ExtendedKeyKind::Secp256k1Schnorr).expect("overwhelmingly likely");
        for i in 0..=p.len() {
            assert_eq!(key.get_derivation_path(), &path(&p[..i]));
            assert_eq!(key.encode(), [&[0u8][..], &path_bytes(&p[..i]), &c, &k].concat());
            let pk = key.to_public_key();
            assert_eq!(pk.encode(), [&[0u8][..], &path_bytes(&p[..i]), &c, &point(&k)].concat());
            assert_eq!(pk.get_derivation_path(), &path(&p[..i]));
            assert_eq!(pk.clone().into_public_key(), crypto::key::PublicKey::from_private_key(&key.clone().private_key()));
            assert_eq!(pk.clone().into_public_key().encode(), [&[0u8][..], &point(&k)].concat());
            let (pk2, cc) = pk.clone().into_public_key_and_chain_code();
            assert!(pk2 == pk.clone().into_public_key() && cc.into_array() == c);
            assert_eq!(ExtendedPrivateKey::decode_all(&mut key.encode().as_slice()).as_ref(), Ok(&key));
            assert_eq!(ExtendedPublicKey::decode_all(&mut pk.encode().as_slice()), Ok(pk));
            if i < p.len() { (k, c) = ckd(&k, &c, p[i]); key = key.derive_child(ChildNumber::from_index_with_hardened_bit(p[i])).expect("overwhelmingly likely"); }
        }
    }
    c14_public_derivation_follows_the_private_one(s) {
        let (seed, p, x) = (s.arr::<16>(), nums(s, 2), num(s));
        inputs!(s, seed, p, x);
        let mut key = ExtendedPrivateKey::new_master(&seed, ExtendedKeyKind::Secp256k1Schnorr).expect("overwhelmingly likely");
        let mut vrf = ExtendedVRFPrivateKey::new_master(&seed, VRFKeyKind::Schnorrkel).expect("overwhelmingly likely");
        for n in &p { let n = ChildNumber::from_index_with_hardened_bit(*n); key = key.derive_child(n).expect("derives"); vrf = vrf.derive_child(n).expect("derives"); }
        let n = ChildNumber::from_index_with_hardened_bit(x);
        let (pk, vpk) = (key.to_public_key(), vrf.to_public_key());
        assert_eq!(vpk, ExtendedVRFPublicKey::from_private_key(&vrf));
        let (d, v) = (pk.derive_child(n), vpk.derive_child(n));
        if x >> 31 == 1 {
            assert_eq!(d, Err(DerivationError::CannotDeriveHardenedKeyFromPublicKey(n)));
            assert_eq!(v, Err(DerivationError::CannotDeriveHardenedKeyFromPublicKey(n)));
        } else {
            assert_eq!(d.expect("derives"), key.derive_child(n).expect("derives").to_public_key());
            assert_eq!(v.expect("derives"), vrf.derive_child(n).expect("derives").to_public_key());
        }
    }
    c14_absolute_paths(s) {
        let (seed, a) = (s.arr::<8>(), nums(s, 3));
        let mut b = a.clone();
        match s.below(5) { 0 => {} 1 => { b.pop(); } 2 if !b.is_empty() => { let i = s.below(b.len()); b[i] ^= 1 << s.below(32); b.push(7) } _ => b.extend(nums(s, 2)) }
        inputs!(s, seed, a, b);
        let mut key = ExtendedPrivateKey::new_master(&seed, ExtendedKeyKind::Secp256k1Schnorr).expect("overwhelmingly likely");
        let mut vrf = ExtendedVRFPrivateKey::new_master(&seed, VRFKeyKind::Schnorrkel).expect("overwhelmingly likely");
        for n in &a { let n = ChildNumber::from_index_with_hardened_bit(*n); key = key.derive_child(n).expect("derives"); vrf = vrf.derive_child(n).expect("derives"); }
        let ok = b.len() > a.len() && b[..a.len()] == a[..];
        let (d, v) = (key.clone().derive_absolute_path(&path(&b)), vrf.clone().derive_absolute_path(&path(&b)));
        let (pk, vpk) = (key.to_public_key(), vrf.to_public_key());
        let dp = pk.clone().derive_absolute_path(&path(&b));
        if !ok {
            assert_eq!(d, Err(DerivationError::CannotDerivePath(path(&b))));
            assert_eq!(v, Err(DerivationError::CannotDerivePath(path(&b))));
            assert_eq!(dp, Err(DerivationError::CannotDerivePath(path(&b))));
        } else {
            for n in &b[a.len()..] { let n = ChildNumber::from_index_with_hardened_bit(*n); key = key.derive_child(n).expect("derives"); vrf = vrf.derive_child(n).expect("derives"); }
            match b[a.len()..].iter().find(|x| **x >> 31 == 1) {
                Some(h) => assert_eq!(dp, Err(DerivationError::CannotDeriveHardenedKeyFromPublicKey(ChildNumber::from_index_with_hardened_bit(*h)))),
                None => { assert_eq!(dp.expect("derives"), key.to_public_key()); assert_eq!(vpk.derive_absolute_path(&path(&b)).expect("derives"), vrf.to_public_key()) }
            }
            assert_eq!(d, Ok(key));
            assert_eq!(v, Ok(vrf));
        }
    }
    c14_no_path_is_longer_than_255(s) {
        let (seed, x) = (s.arr::<8>(), s.u32() & 0x7fff_ffff);
        let len = 250 + s.below(6);
        inputs!(s, seed, x, len);
        // keys with a long path, made from their bytes
        let start = ExtendedPrivateKey::new_master(&seed, ExtendedKeyKind::Secp256k1Schnorr).expect("overwhelmingly likely").encode();
        let raw = [&[0u8][..], &path_bytes(&vec![x; len]), &start[2..]].concat();
        let mut key = ExtendedPrivateKey::decode_all(&mut raw.as_slice()).expect("valid");
        let mut pk = key.to_public_key();
        let n = ChildNumber::from_index_with_hardened_bit(x);
        for i in len..256 {
            match (key.clone().derive_child(n), pk.clone().derive_child(n)) {
                (Ok(k), Ok(p)) => { assert!(i < 255); assert_eq!(k.get_derivation_path().len(), i + 1); assert_eq!(k.to_public_key(), p); key = k; pk = p; }
                (a, b) => { assert!(i == 255); assert_eq!((a.err(), b.err()), (Some(DerivationError::PathTooLong), Some(DerivationError::PathTooLong))); }
            }
        }
    }
}
