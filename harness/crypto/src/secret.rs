//! C17: symmetric encryption, shared secrets and password hashes.
use crate::Fixed;
use crypto::ephemeral_e2e::{error::Error as E2e, EndToEndPrivateKey, EndToEndPublicKey, SharedSecret};
use crypto::kdf::{argon2::Argon2Config, *};
use crypto::symkey::{key_size, Error, SymmetricKey, SymmetricKeyKind::XChacha20Poly1305 as X};
use crypto::util::eq::SliceEqualityCheckMethod as M;
use serialization::{DecodeAll, Encode};
use std::num::NonZeroUsize;
use vsrc::*;

fn ad(s: &mut impl Src) -> Option<Vec<u8>> { match s.below(4) { 0 => None, 1 => Some(vec![]), _ => Some(s.bytes(40)) } }
/// The library, directly
fn lib(key: &[u8], raw: &[u8], ad: &[u8]) -> Option<Vec<u8>> {
    use chacha20poly1305::{aead::{Aead, Payload}, KeyInit, XChaCha20Poly1305};
    if raw.len() < 24 { return None }
    XChaCha20Poly1305::new_from_slice(key).expect("32").decrypt(raw[..24].into(), Payload { msg: &raw[24..], aad: ad }).ok()
}
fn change(s: &mut impl Src, v: &mut Vec<u8>) {
    match s.below(5) { 0 => v.push(s.u8()), 1 => { v.pop(); } 2 => v.truncate(s.below(45)), 3 => { let n = s.below(v.len().max(1)); v.remove(n); } _ => { let i = s.below(v.len()); v[i] ^= 1 << s.below(8) } }
}

cases! {
    c17_what_is_encrypted_comes_back(s) {
        let (key, msg, ad1, seed) = (s.arr::<32>(), s.bytes(100), ad(s), s.u64());
        inputs!(s, key, msg, ad1, seed);
        let k = SymmetricKey::from_raw_key(X, &key).expect("32 bytes");
        let c = k.encrypt(&msg, &mut Fixed(seed), ad1.as_deref()).expect("encrypts");
        assert_eq!(c.len(), msg.len() + 24 + 16);
        // the nonce is drawn from the source, anew for each text
        let mut rng = Fixed(seed);
        let (c1, c2) = (k.encrypt(&msg, &mut rng, None).expect("encrypts"), k.encrypt(&msg, &mut rng, None).expect("encrypts"));
        let c3 = k.encrypt(&msg, &mut Fixed(seed.wrapping_add(1)), None).expect("encrypts");
        assert!(c1[..24] == c[..24] && c1[..24] != c2[..24] && c1[..24] != c3[..24] && c1[..8] != c2[..8] && c1[16..24] != c2[16..24]);
        assert_eq!(k.decrypt(&c, ad1.as_deref()), Ok(msg.clone()));
        assert_eq!(lib(&key, &c, ad1.as_deref().unwrap_or(b"")), Some(msg));
        assert_eq!((k.encode().len(), k.encode()[0], &k.encode()[1..]), (33, 0, &key[..]));
        assert_eq!(SymmetricKey::decode_all(&mut k.encode().as_slice()), Ok(k));
        assert_eq!(key_size(X), 32);
    }
    c17_a_changed_text_is_refused(s) {
        let (key, msg, ad1, seed) = (s.arr::<32>(), s.bytes(60), ad(s), s.u64());
        let k = SymmetricKey::from_raw_key(X, &key).expect("32 bytes");
        let c = k.encrypt(&msg, &mut Fixed(seed), ad1.as_deref()).expect("encrypts");
        let (mut c2, mut ad2, mut key2) = (c.clone(), ad1.clone(), key);
        match s.below(3) { 0 => change(s, &mut c2), 1 => ad2 = ad(s), _ => key2[s.below(32)] ^= 1 << s.below(8) }
        inputs!(s, key, msg, ad1, c2, ad2, key2);
        let k2 = SymmetricKey::from_raw_key(X, &key2).expect("32 bytes");
        let same = c == c2 && key == key2 && ad1.clone().unwrap_or_default() == ad2.clone().unwrap_or_default();
        let got = k2.decrypt(&c2, ad2.as_deref());
        assert_eq!(got.is_ok(), same);
        if c2.len() < 24 { assert_eq!(got, Err(Error::CipherTextTooShort(c2.len(), 24))) } else if !same { assert!(matches!(got, Err(Error::DecryptionError(_)))) }
    }
    c17_keys_have_32_bytes(s) {
        let k = if s.bool() { s.bytes(70) } else { s.arr::<32>().to_vec() };
        inputs!(s, k);
        match SymmetricKey::from_raw_key(X, &k) { Ok(x) => { assert_eq!(k.len(), 32); assert_eq!(&x.encode()[1..], &k) } Err(e) => { assert!(k.len() != 32); assert_eq!(e, Error::WrongLenKeyBytes(k.len(), 32)) } }
    }
    c17_both_ends_share_the_secret(s) {
        let (a, b, c) = (EndToEndPrivateKey::new_from_rng(&mut Fixed(s.u64())), EndToEndPrivateKey::new_from_rng(&mut Fixed(s.u64())), EndToEndPrivateKey::new_from_rng(&mut Fixed(s.u64())));
        let (msg, seed) = (s.bytes(60), s.u64());
        inputs!(s, a.public_key().as_bytes(), b.public_key().as_bytes(), msg, seed);
        let (pa, pb, pc) = (a.public_key(), b.public_key(), c.public_key());
        assume!(s, pa != pb && pa != pc && pb != pc);
        assert_eq!(pa, EndToEndPublicKey::from_private_key(&a));
        assert_eq!(pa.encode(), pa.as_bytes().to_vec());
        assert_eq!(EndToEndPublicKey::decode_all(&mut pa.encode().as_slice()), Ok(pa.clone()));
        let (x, y, z): (SharedSecret, SharedSecret, SharedSecret) = (a.shared_secret(&pb), b.shared_secret(&pa), c.shared_secret(&pa));
        assert!(x == y && x != z && y != c.shared_secret(&pb));
        let t = x.encrypt(&msg, &mut Fixed(seed)).expect("encrypts");
        assert_eq!(y.decrypt(&t), Ok(msg.clone()));
        assert!(matches!(z.decrypt(&t), Err(E2e::SymmetricDecryptionFailed(_))));
        let mut t2 = t.clone();
        change(s, &mut t2);
        assert_eq!(y.decrypt(&t2).is_ok(), t2 == t);
        // objects
        let e = x.encode_then_encrypt(&(msg.clone(), seed), &mut Fixed(seed)).expect("encrypts");
        assert_eq!(y.decrypt_then_decode::<(Vec<u8>, u64)>(&e), Ok((msg.clone(), seed)));
        assert!(matches!(z.decrypt_then_decode::<(Vec<u8>, u64)>(&e), Err(E2e::SymmetricDecryptionFailed(_))));
        assert!(matches!(y.decrypt_then_decode::<[u8; 200]>(&e), Err(E2e::DeserializationFailed(_))));
        let longer = x.encrypt(&[(msg.clone(), seed).encode(), vec![0]].concat(), &mut Fixed(seed)).expect("encrypts");
        assert!(matches!(y.decrypt_then_decode::<(Vec<u8>, u64)>(&longer), Err(E2e::DeserializationFailed(_))));
    }
    c17_passwords(s) {
        let config = Argon2Config::new(8 + s.below(9) as u32, 1 + s.below(2) as u32, 1);
        let (hl, sl) = (if s.below(6) == 0 { 250 + s.below(20) } else { 4 + s.below(40) }, if s.below(6) == 0 { 250 + s.below(20) } else { 8 + s.below(24) });
        let (pw, seed) = (s.bytes(20), s.u64());
        let mut pw2 = if s.below(3) == 0 { pw.clone() } else { s.bytes(20) };
        if s.below(4) == 0 { pw2.push(0) }
        inputs!(s, config, hl, sl, pw, pw2, seed);
        let cfg = KdfConfig::Argon2id { config: config.clone(), hash_length: NonZeroUsize::new(hl).expect("nz"), salt_length: NonZeroUsize::new(sl).expect("nz") };
        let r = hash_password(&mut Fixed(seed), cfg, &pw).expect("hashes");
        let KdfResult::Argon2id { config: c2, salt, hashed_password } = r.clone();
        assert!(c2 == config && salt.len() == sl && hashed_password.len() == hl);
        let lib = |p: &[u8]| { let mut o = vec![0; hl]; ::argon2::Argon2::new(::argon2::Algorithm::Argon2id, ::argon2::Version::V0x13, ::argon2::Params::new(config.m_cost_memory_size, config.t_cost_iterations, config.p_cost_parallelism, Some(hl)).expect("ok")).hash_password_into(p, &salt, &mut o).expect("hashes"); o };
        assert_eq!(hashed_password, lib(&pw));
        for m in [M::Normal, M::TimingResistant] { assert_eq!(verify_password(&pw, &r, m), Ok(true)); }
        for m in [M::Normal, M::TimingResistant] { assert_eq!(verify_password(&pw2, &r, m), Ok(lib(&pw2) == hashed_password)); }
        if pw2 != pw { assert_eq!(verify_password(&pw2, &r, M::TimingResistant), Ok(false)) }
        let ch = r.clone().into_challenge();
        let KdfChallenge::Argon2id { config: c3, salt: s3, password_hash_len } = ch.clone();
        assert!(c3 == config && s3 == salt && password_hash_len as usize == hl);
        assert_eq!(hash_from_challenge(ch.clone(), &pw), Ok(r.clone()));
        assert_eq!(hash_from_challenge(ch.clone(), &pw2).map(|x| x == r), Ok(pw == pw2));
        assert_eq!(KdfResult::decode_all(&mut r.encode().as_slice()), Ok(r));
        assert_eq!(KdfChallenge::decode_all(&mut ch.encode().as_slice()), Ok(ch));
        let mut salt2 = salt.clone();
        salt2[0] ^= 1;
        assert_eq!(verify_password(&pw, &KdfResult::Argon2id { config: config.clone(), salt: salt2, hashed_password: hashed_password.clone() }, M::TimingResistant), Ok(false));
        let mut h2 = hashed_password.clone();
        h2[s.below(hl)] ^= 1 << s.below(8);
        assert_eq!(verify_password(&pw, &KdfResult::Argon2id { config, salt, hashed_password: h2 }, M::TimingResistant), Ok(false));
    }
    c17_a_hash_without_bytes_is_an_error(s) {
        let (pw, salt) = (s.bytes(10), s.arr::<8>().to_vec());
        let len = s.below(6);
        inputs!(s, pw, salt, len);
        let config = Argon2Config::new(8, 1, 1);
        let r = verify_password(&pw, &KdfResult::Argon2id { config: config.clone(), salt: salt.clone(), hashed_password: vec![0; len] }, M::TimingResistant);
        let c = hash_from_challenge(KdfChallenge::Argon2id { config, salt, password_hash_len: len as u32 }, &pw);
        if len == 0 { assert_eq!((r, c), (Err(KdfError::InvalidHashSize), Err(KdfError::InvalidHashSize))) } else { assert_eq!((r.is_err(), c.is_err()), (len < 4, len < 4)) }
    }
}
