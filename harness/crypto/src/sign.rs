//! C15: keys and signatures.
use crate::Fixed;
use crypto::hash::{Blake2b32, Hasher};
use crypto::key::{secp256k1::*, signature::SignatureKind, KeyKind, PredefinedSigAuxDataProvider, PrivateKey, PublicKey, Signature};
use serialization::{DecodeAll, Encode};
use vsrc::*;

const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
fn secret(s: &mut impl Src) -> [u8; 32] {
    match s.below(6) {
        0 => [0; 32],
        1 => { let mut n = N; let d = s.below(5) as u8; n[31] = n[31] + 2 - d; n }
        2 => { let mut n = [0u8; 32]; n[31] = s.u8(); n }
        3 => [255; 32],
        _ => s.arr::<32>(),
    }
}
struct Aux([u8; 32]);
impl crypto::key::Secp256k1SchnorrAuxDataProvider for Aux { fn get_secp256k1_schnorr_aux_data(&mut self) -> [u8; 32] { self.0 } }
fn good(k: &[u8; 32]) -> bool { k[..] < N[..] && k != &[0; 32] }
fn key(s: &mut impl Src) -> PrivateKey { PrivateKey::new_from_rng(&mut Fixed(s.u64()), KeyKind::Secp256k1Schnorr).0 }

cases! {
    c15_a_signature_verifies_for_its_message_and_key(s) {
        let (k, other) = (key(s), key(s));
        let msg = s.bytes(90);
        let mut msg2 = msg.clone();
        match s.below(3) { 0 => msg2.push(s.u8()), 1 if !msg2.is_empty() => { msg2.pop(); } _ if !msg2.is_empty() => { let i = s.below(msg2.len()); msg2[i] ^= 1 << s.below(8) } _ => msg2.push(0) }
        let (bit, seed) = (s.below(512), s.u64());
        inputs!(s, k.encode(), other.encode(), msg, msg2, bit, seed);
        let pk = PublicKey::from_private_key(&k);
        let sig = if s.bool() { k.sign_message(&msg, &mut Fixed(seed)) } else { k.sign_message(&msg, &mut PredefinedSigAuxDataProvider) }.expect("signs");
        assert!(pk.verify_message(&sig, &msg));
        assert!(!pk.verify_message(&sig, &msg2));
        assert!(k == other || !PublicKey::from_private_key(&other).verify_message(&sig, &msg));
        let mut raw = sig.encode();
        assert!(raw.len() == 65 && raw[0] == 0);
        raw[1 + bit / 8] ^= 1 << (bit % 8);
        let bad = Signature::from_data(&raw).expect("any 64 bytes are taken");
        assert!(!pk.verify_message(&bad, &msg));
    }
    c15_signatures_are_bip340_of_the_blake2b_hash(s) {
        let k = key(s);
        let (msg, seed) = (s.bytes(90), s.u64());
        inputs!(s, k.encode(), msg, seed);
        let secp = secp256k1::Secp256k1::new();
        let pair = secp256k1::Keypair::from_seckey_slice(&secp, &k.encode()[1..]).expect("a key");
        let h: [u8; 32] = { use blake2::Digest; blake2::Blake2b::<generic_array::typenum::U64>::digest(&msg)[..32].try_into().expect("32") };
        assert_eq!(h.as_slice(), Blake2b32::hash(&msg).as_slice());
        let m = secp256k1::Message::from_digest(h);
        let mine = |aux: &[u8; 32]| [&[0u8][..], secp.sign_schnorr_with_aux_rand(&m, &pair, aux).as_ref()].concat();
        assert_eq!(k.sign_message(&msg, &mut PredefinedSigAuxDataProvider).expect("signs").encode(), mine(&[0; 32]));
        let aux = s.arr::<32>();
        let sig = k.sign_message(&msg, &mut Aux(aux)).expect("signs");
        assert_eq!(sig.encode(), mine(&aux));
        // a random source gives the auxiliary data: anew for each signature
        let mut rng = Fixed(seed);
        let (x, y) = (k.sign_message(&msg, &mut rng).expect("signs"), k.sign_message(&msg, &mut rng).expect("signs"));
        assert!(x != y && x == k.sign_message(&msg, &mut Fixed(seed)).expect("signs") && x.encode() != mine(&[0; 32]));
        // whatever bytes: accepted if and only if the library accepts them
        let pk = PublicKey::from_private_key(&k);
        let (mut raw, i) = (sig.encode(), s.below(65));
        if s.bool() && i > 0 { raw[i] = s.u8() }
        let got = pk.verify_message(&Signature::from_data(&raw).expect("64 bytes"), &msg);
        assert_eq!(got, secp.verify_schnorr(&secp256k1::schnorr::Signature::from_slice(&raw[1..]).expect("64"), &m, &pair.x_only_public_key().0).is_ok());
    }
    c15_bytes_of_private_keys(s) {
        let k = secret(s);
        let cut = s.below(6);
        inputs!(s, k, cut);
        assert_eq!(Secp256k1PrivateKey::from_bytes(&k).map(|p| p.as_bytes().to_vec()).ok(), good(&k).then(|| k.to_vec()));
        assert_eq!(Secp256k1PrivateKey::decode_all(&mut &k[..]).map(|p| p.encode()).ok(), good(&k).then(|| k.to_vec()));
        let mut raw = [&[0u8][..], &k].concat();
        match cut { 0 => { raw.pop(); } 1 => raw.push(1), 2 => raw[0] = 1, _ => {} }
        let p = PrivateKey::decode_all(&mut raw.as_slice());
        assert_eq!(p.is_ok(), cut > 2 && good(&k));
        if let Ok(p) = p {
            assert_eq!(p.encode(), raw);
            assert_eq!(p, PrivateKey::from(Secp256k1PrivateKey::from_bytes(&k).expect("good")));
            assert_eq!(PublicKey::from_private_key(&p), PublicKey::from(Secp256k1PublicKey::from_private_key(&Secp256k1PrivateKey::from_bytes(&k).expect("good"))));
        }
        assert!(Secp256k1PrivateKey::from_bytes(&k[..31]).is_err() && Secp256k1PrivateKey::from_bytes(&[&k[..], &[1]].concat()).is_err());
    }
    c15_bytes_of_public_keys(s) {
        let pk = PublicKey::from_private_key(&key(s));
        let mut raw = pk.encode();
        match s.below(6) { 0 => { raw.pop(); } 1 => raw.push(s.u8()), 2 => raw[0] = s.u8(), 3 => { let i = s.below(34); raw[i] = s.u8() } 4 => raw[1] ^= 1, _ => {} }
        inputs!(s, raw);
        let ok = raw.len() == 34 && raw[0] == 0 && (raw[1] == 2 || raw[1] == 3) && secp256k1::PublicKey::from_slice(&raw[1..]).is_ok();
        let got = PublicKey::decode_all(&mut raw.as_slice());
        assert_eq!(got.is_ok(), ok);
        assert_eq!(pk.encode().len(), 34);
        if let Ok(p) = got {
            assert_eq!(p.encode(), raw);
            assert_eq!(Secp256k1PublicKey::from_bytes(&raw[1..]).expect("good").as_bytes().as_slice(), &raw[1..]);
            assert_eq!(PublicKey::from(Secp256k1PublicKey::try_from(p.clone()).expect("the only kind")), p);
            let j = serde_json::to_string(&p).expect("writes");
            assert_eq!(j, format!("\"{}\"", raw.iter().map(|b| format!("{b:02x}")).collect::<String>()));
            assert_eq!(serde_json::from_str::<PublicKey>(&j).expect("reads"), p);
        }
    }
    c15_bytes_of_signatures(s) {
        let mut raw = [&[0u8][..], &s.arr::<64>()].concat();
        match s.below(5) { 0 => { raw.pop(); } 1 => raw.push(s.u8()), 2 => raw[0] = s.u8(), 3 => raw.clear(), _ => {} }
        inputs!(s, raw);
        let ok = raw.len() == 65 && raw[0] == 0;
        let got = Signature::from_data(&raw);
        assert!(got.is_ok() == ok && Signature::decode_all(&mut raw.as_slice()).is_ok() == ok);
        if let Ok(g) = got {
            assert_eq!(g.encode(), raw);
            assert_eq!(serde_json::to_string(&g).expect("writes"), format!("\"{}\"", raw.iter().map(|b| format!("{b:02x}")).collect::<String>()));
            assert_eq!(Signature::from_raw_data(&raw[1..], SignatureKind::Secp256k1Schnorr), Ok(g));
        }
        if raw.len() > 1 { assert_eq!(Signature::from_raw_data(&raw[1..], SignatureKind::Secp256k1Schnorr).is_ok(), raw.len() == 65); }
    }
}
