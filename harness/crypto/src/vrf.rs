//! C18: verifiable random functions.
use crate::Fixed;
use crypto::key::hdkd::{child_number::ChildNumber, derivable::Derivable};
use crypto::vrf::{ExtendedVRFPrivateKey, transcript::{no_rng::VRFTranscript, traits::SignableTranscript, with_rng::VRFTranscriptWithRng}, VRFKeyKind, VRFPrivateKey, VRFPublicKey, VRFReturn};
use generic_array::typenum::{U16, U32, U64};
use serialization::{DecodeAll, Encode};
use vsrc::*;

const LABELS: [&[u8]; 3] = [b"one", b"two", b"label three"];
#[derive(Clone, PartialEq, Debug)]
pub struct Msg { name: usize, parts: Vec<(usize, Result<u64, Vec<u8>>)> }
fn msg(s: &mut impl Src) -> Msg { let n = s.below(4); Msg { name: s.below(3), parts: (0..n).map(|_| (s.below(3), if s.bool() { Ok(s.u64()) } else { Err(s.bytes(20)) })).collect() } }
fn transcript(m: &Msg) -> VRFTranscript { m.parts.iter().fold(VRFTranscript::new(LABELS[m.name]), |t, (l, p)| match p { Ok(x) => t.attach_u64(LABELS[*l], *x), Err(b) => t.attach_raw_data(LABELS[*l], b) }) }
fn same(a: &Msg, b: &Msg) -> bool {
    let flat = |m: &Msg| (m.name, m.parts.iter().map(|(l, p)| (*l, match p { Ok(x) => x.to_le_bytes().to_vec(), Err(b) => b.clone() })).collect::<Vec<_>>());
    flat(a) == flat(b)
}
fn lib_transcript(m: &Msg) -> merlin::Transcript { let mut t = merlin::Transcript::new(LABELS[m.name]); for (l, p) in &m.parts { match p { Ok(x) => t.append_message(LABELS[*l], &x.to_le_bytes()), Err(b) => t.append_message(LABELS[*l], b) } } t }
fn out(r: &VRFReturn, k: &VRFPublicKey, m: &Msg) -> Option<[u8; 32]> { let VRFReturn::Schnorrkel(r) = r; r.calculate_vrf_output_with_generic_key::<U32, _>(k.clone(), transcript(m)).ok().map(Into::into) }

cases! {
    c18_an_output_verifies_for_its_message_and_key(s) {
        let (k, pk) = VRFPrivateKey::new_from_rng(&mut Fixed(s.u64()), VRFKeyKind::Schnorrkel);
        let (_, other) = VRFPrivateKey::new_from_rng(&mut Fixed(s.u64()), VRFKeyKind::Schnorrkel);
        let m = msg(s);
        let mut m2 = if s.bool() { m.clone() } else { msg(s) };
        match s.below(4) { 0 => m2.parts.push((0, Ok(s.u64()))), 1 => { m2.parts.pop(); } 2 if !m2.parts.is_empty() => { let i = s.below(m2.parts.len()); m2.parts[i] = (s.below(3), Ok(s.u64())) } _ => m2.name = s.below(3) }
        let (seed, with_rng, bit) = (s.u64(), s.bool(), s.below(96 * 8));
        inputs!(s, k.encode(), m, m2, seed, with_rng, bit);
        assert_eq!(pk, k.to_public_key());
        let r = if with_rng { k.produce_vrf_data(transcript(&m).with_rng(Fixed(seed))) } else { k.produce_vrf_data(transcript(&m)) };
        assert_eq!(pk.verify_vrf_data(transcript(&m), &r), Ok(()));
        assert_eq!(pk.verify_vrf_data(transcript(&m).with_rng(Fixed(1)), &r), Ok(()));
        assert_eq!(pk.verify_vrf_data(transcript(&m2), &r).is_ok(), same(&m, &m2));
        if other != pk { assert!(other.verify_vrf_data(transcript(&m), &r).is_err()) }
        // every bit of the output and the proof matters
        let mut raw = r.encode();
        assert_eq!((raw.len(), raw[0], r.encoded_size()), (97, 0, 97));
        raw[1 + bit / 8] ^= 1 << (bit % 8);
        if let Ok(bad) = VRFReturn::decode_all(&mut raw.as_slice()) { assert!(pk.verify_vrf_data(transcript(&m), &bad).is_err()) }
    }
    c18_the_output_depends_only_on_the_key_and_message(s) {
        let (k, pk) = VRFPrivateKey::new_from_rng(&mut Fixed(s.u64()), VRFKeyKind::Schnorrkel);
        let (k2, pk2) = VRFPrivateKey::new_from_rng(&mut Fixed(s.u64()), VRFKeyKind::Schnorrkel);
        let (m, m2) = (msg(s), msg(s));
        inputs!(s, k.encode(), k2.encode(), m, m2);
        let (a, b) = (k.produce_vrf_data(transcript(&m).with_rng(Fixed(s.u64()))), k.produce_vrf_data(transcript(&m)));
        let (oa, ob) = (out(&a, &pk, &m), out(&b, &pk, &m));
        assert!(oa.is_some() && oa == ob);
        assert_eq!(out(&k.produce_vrf_data(transcript(&m2)), &pk, &m2) == oa, same(&m, &m2));
        if k != k2 { assert!(out(&k2.produce_vrf_data(transcript(&m)), &pk2, &m) != oa) }
        // the output is what the library makes of the pre-output, for any size
        let VRFReturn::Schnorrkel(r) = &a;
        let native = schnorrkel::PublicKey::from_bytes(&pk.encode()[1..]).expect("a key");
        let io = schnorrkel::vrf::VRFPreOut::from_bytes(&r.vrf_preout()).expect("a pre-output").attach_input_hash(&native, lib_transcript(&m)).expect("attaches");
        assert_eq!(io.make_bytes::<[u8; 32]>(b"MintlayerVRFOutput!"), oa.expect("some"));
        assert_eq!(io.make_bytes::<[u8; 16]>(b"MintlayerVRFOutput!").to_vec(), r.calculate_vrf_output::<U16, _>(native, transcript(&m)).expect("an output").to_vec());
        assert_eq!(r.calculate_vrf_output::<U64, _>(native, transcript(&m)).expect("an output").to_vec(), r.calculate_vrf_output_with_generic_key::<U64, _>(pk.clone(), transcript(&m)).expect("an output").to_vec());
        // and the library accepts the proof
        assert!(native.vrf_verify(lib_transcript(&m), &schnorrkel::vrf::VRFPreOut::from_bytes(&r.vrf_preout()).expect("ok"), &schnorrkel::vrf::VRFProof::from_bytes(&r.vrf_proof()).expect("ok")).is_ok());
    }
    c18_bytes_of_keys_and_outputs(s) {
        let (k, pk) = VRFPrivateKey::new_from_rng(&mut Fixed(s.u64()), VRFKeyKind::Schnorrkel);
        let r = k.produce_vrf_data(transcript(&msg(s)));
        let (mut a, mut b, mut c) = (k.encode(), pk.encode(), r.encode());
        assert!(a.len() == 65 && b.len() == 33 && c.len() == 97 && a[0] == 0 && b[0] == 0 && c[0] == 0);
        assert!(VRFPrivateKey::decode_all(&mut a.as_slice()) == Ok(k.clone()) && VRFPublicKey::decode_all(&mut b.as_slice()) == Ok(pk.clone()) && VRFReturn::decode_all(&mut c.as_slice()) == Ok(r.clone()));
        let VRFReturn::Schnorrkel(q) = &r;
        assert_eq!([&[0u8][..], &q.vrf_preout(), &q.vrf_proof()].concat(), c);
        assert_eq!(serde_json::from_str::<VRFPublicKey>(&serde_json::to_string(&pk).expect("writes")).expect("reads"), pk);
        let how = s.below(3);
        inputs!(s, a, b, c, how);
        for v in [&mut a, &mut b, &mut c] { match how { 0 => v.push(0), 1 => { v.pop(); } _ => v[0] = 1 } }
        assert!(VRFPrivateKey::decode_all(&mut a.as_slice()).is_err() && VRFPublicKey::decode_all(&mut b.as_slice()).is_err() && VRFReturn::decode_all(&mut c.as_slice()).is_err());
    }
    // both kinds of transcript are the library's, whatever is attached or committed
    c18_transcripts_are_the_librarys(s) {
        let (m, add, seed, after) = (msg(s), s.bytes(20), s.u64(), s.bool());
        inputs!(s, m, add, seed, after);
        use schnorrkel::context::SigningTranscript;
        let mut lib = lib_transcript(&m);
        let mut plain = transcript(&m);
        let mut with = if after { transcript(&m).with_rng(Fixed(seed)) } else {
            m.parts.iter().fold(VRFTranscriptWithRng::new(LABELS[m.name], Fixed(seed)), |t, (l, p)| match p { Ok(x) => t.attach_u64(LABELS[*l], *x), Err(b) => t.attach_raw_data(LABELS[*l], b) })
        };
        lib.append_message(b"committed", &add);
        plain.commit_bytes(b"committed", &add);
        with.commit_bytes(b"committed", &add);
        let (mut a, mut b, mut c) = ([0u8; 40], [0u8; 40], [0u8; 40]);
        lib.challenge_bytes(b"challenge", &mut a);
        plain.challenge_bytes(b"challenge", &mut b);
        with.challenge_bytes(b"challenge", &mut c);
        assert!(a == b && a == c);
        // what the signature adds to is an empty transcript of its own
        let (mut x, mut y, mut z) = (merlin::Transcript::new(b"VRF"), transcript(&m).make_extra_transcript(), with.make_extra_transcript());
        x.challenge_bytes(b"challenge", &mut a);
        y.challenge_bytes(b"challenge", &mut b);
        z.challenge_bytes(b"challenge", &mut c);
        assert!(a == b && a == c);
        // and the nonces come from the transcript and the source of randomness given
        let (mut p, mut q) = ([0u8; 32], [0u8; 32]);
        transcript(&m).with_rng(Fixed(seed)).witness_bytes(b"w", &mut p, &[&add]);
        transcript(&m).with_rng(Fixed(seed)).witness_bytes(b"w", &mut q, &[&add]);
        assert!(p == q);
        transcript(&m).with_rng(Fixed(seed ^ 1)).witness_bytes(b"w", &mut q, &[&add]);
        assert!(p != q);
    }
    // keys derived from a seed are what the library derives, by number and with the chain code of the step before
    c18_derived_keys(s) {
        let (seed, len) = (s.bytes(130), 1 + s.below(3));
        let path: Vec<u32> = (0..len).map(|_| match s.below(3) { 0 => s.u32(), 1 => s.u32() & 0x7fff_ffff, _ => s.u8() as u32 }).collect();
        inputs!(s, seed, path);
        use hmac::Mac;
        use schnorrkel::derive::{ChainCode, Derivation};
        let mut mac = hmac::Hmac::<sha2::Sha512>::new_from_slice(b"Bitcoin VRF seed").expect("any key");
        mac.update(&seed);
        let both = mac.finalize().into_bytes();
        let mut lib = schnorrkel::MiniSecretKey::from_bytes(&both[..32]).expect("32").expand(schnorrkel::ExpansionMode::Uniform);
        let mut code = ChainCode(both[32..].try_into().expect("32"));
        let mut key = ExtendedVRFPrivateKey::new_master(&seed, VRFKeyKind::Schnorrkel).expect("overwhelmingly likely");
        let check = |key: &ExtendedVRFPrivateKey, lib: &schnorrkel::SecretKey, code: &ChainCode, depth: usize| {
            let (prv, pk) = (key.encode(), key.to_public_key().encode());
            let head: Vec<u8> = std::iter::once(depth as u8).chain(path[..depth].iter().flat_map(|x| x.to_be_bytes())).chain(code.0).chain([0]).collect();
            // (the last 32 bytes seed the nonces; the library draws them at random for children that are not hardened)
            assert_eq!(prv.len(), 1 + 4 * depth + 97);
            assert_eq!(prv[1 + 4 * depth..][..65], [&head[1 + 4 * depth..], &lib.to_bytes()[..32]].concat()[..]);
            assert_eq!(pk[1 + 4 * depth..], [&head[1 + 4 * depth..], &lib.to_public().to_bytes()[..]].concat()[..]);
        };
        check(&key, &lib, &code, 0);
        for (i, n) in path.iter().enumerate() {
            let number = ChildNumber::from_index_with_hardened_bit(*n);
            let public = key.to_public_key().derive_child(number);
            if n >> 31 == 1 {
                let (mini, next) = lib.hard_derive_mini_secret_key(Some(code), n.to_be_bytes());
                (lib, code) = (mini.expand(schnorrkel::ExpansionMode::Uniform), next);
                assert!(public.is_err());
            } else {
                let (next_pub, _) = lib.to_public().derived_key_simple(ChainCode(code.0), n.to_be_bytes());
                (lib, code) = lib.derived_key_simple(code, n.to_be_bytes());
                assert_eq!(public.expect("derives").into_public_key().encode()[1..], next_pub.to_bytes()[..]);
            }
            key = key.derive_child(number).expect("derives");
            check(&key, &lib, &code, i + 1);
            assert_eq!((key.encoded_size(), key.to_public_key().encoded_size()), (key.encode().len(), key.to_public_key().encode().len()));
        }
    }
    c18_keys_from_32_bytes(s) {
        let b = if s.below(3) == 0 { s.bytes(70) } else { s.arr::<32>().to_vec() };
        inputs!(s, b);
        match VRFPrivateKey::new_using_random_bytes(&b, VRFKeyKind::Schnorrkel) {
            Ok((k, pk)) => {
                assert!(b.len() == 32 && pk == k.to_public_key() && pk == VRFPublicKey::from_private_key(&k) && k.kind() == VRFKeyKind::Schnorrkel && pk.kind() == VRFKeyKind::Schnorrkel);
                let mini = schnorrkel::MiniSecretKey::from_bytes(&b).expect("32").expand_to_keypair(schnorrkel::ExpansionMode::Uniform);
                assert_eq!((&k.encode()[1..], &pk.encode()[1..]), (&mini.secret.to_bytes()[..], &mini.public.to_bytes()[..]));
            }
            Err(_) => assert!(b.len() != 32),
        }
    }
}
