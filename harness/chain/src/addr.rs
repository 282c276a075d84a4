//! C11: addresses: the text of an object's bytes under the chain's prefix for that kind of object, and nothing else.
use common::address::{dehexify::{dehexify_all_addresses, to_dehexified_json}, hexified::HexifiedAddress, pubkeyhash::PublicKeyHash, traits::Addressable, Address, AddressError, RpcAddress};
use common::chain::config::{Builder, ChainType};
use common::chain::{tokens::TokenId, ChainConfig, DelegationId, Destination, OrderId, PoolId};
use common::primitives::{Id, H256};
use crypto::key::{KeyKind, PrivateKey, PublicKey};
use crypto::vrf::VRFPublicKey;
use serialization::{DecodeAll, Encode};
use std::sync::OnceLock;
use vsrc::{bech::*, cases, inputs, Src};

const NETS: [ChainType; 4] = [ChainType::Mainnet, ChainType::Testnet, ChainType::Regtest, ChainType::Signet];
fn net(i: usize) -> &'static ChainConfig { static C: OnceLock<Vec<ChainConfig>> = OnceLock::new(); &C.get_or_init(|| NETS.iter().map(|t| Builder::new(*t).build()).collect())[i] }
fn key(i: usize) -> &'static PublicKey { static K: OnceLock<Vec<PublicKey>> = OnceLock::new(); &K.get_or_init(|| (0..4).map(|i| PrivateKey::new_from_rng(&mut crate::Fixed(i), KeyKind::Secp256k1Schnorr).1).collect())[i] }
fn vrf(i: usize) -> &'static VRFPublicKey { static K: OnceLock<Vec<VRFPublicKey>> = OnceLock::new(); &K.get_or_init(|| (0..4).map(|i| crypto::vrf::VRFPrivateKey::new_from_rng(&mut crate::Fixed(i), crypto::vrf::VRFKeyKind::Schnorrkel).1).collect())[i] }
/// Kinds 0 to 4 are destinations, by their tag; then pools, delegations, tokens, orders and VRF keys
const PREFIXES: [[&str; 10]; 4] = [
    ["mxanyonecanspend", "mtc", "mptc", "mstc", "mmtc", "mpool", "mdelg", "mmltk", "mordr", "mvrfpk"],
    ["txanyonecanspend", "tmt", "tpmt", "tstc", "tmtc", "tpool", "tdelg", "tmltk", "tordr", "tvrfpk"],
    ["rxanyonecanspend", "rmt", "rpmt", "rstc", "rmtc", "rpool", "rdelg", "rmltk", "rordr", "rvrfpk"],
    ["sxanyonecanspend", "smt", "spmt", "sstc", "smtc", "spool", "sdelg", "smltk", "sordr", "svrfpk"],
];
/// The bytes of an object of a kind
fn bytes(s: &mut impl Src, kind: usize) -> Vec<u8> {
    let k = s.below(4);
    let mut with = |n: usize, tag: &[u8]| { let fill = s.u8(); let mut v = tag.to_vec(); v.extend((0..n).map(|i| if i < 2 { s.u8() } else { fill.wrapping_mul(i as u8) })); v };
    match kind { 0 => vec![0], 1 | 4 => with(20, &[kind as u8]), 2 => [&[2], &key(k).encode()[..]].concat(), 3 => with(32, &[3]), 9 => vrf(k).encode(), _ => with(32, &[]) }
}
/// What is read from bytes, if anything: the kind of the object
fn kind_of(ty: usize, b: &[u8]) -> Option<usize> {
    match ty {
        0 => match b.first()? { 0 if b.len() == 1 => Some(0), t @ (1 | 4) if b.len() == 21 => Some(*t as usize), 2 => PublicKey::decode_all(&mut &b[1..]).ok().map(|_| 2), 3 if b.len() == 33 => Some(3), _ => None },
        9 => VRFPublicKey::decode_all(&mut &b[..]).ok().map(|_| 9),
        _ => (b.len() == 32).then_some(ty),
    }
}
fn parse<T: Addressable + Encode + DecodeAll + Clone + PartialEq + std::fmt::Debug>(net_no: usize, t: &str) -> Result<Vec<u8>, AddressError> {
    let a = Address::<T>::from_string(net(net_no), t)?;
    assert_eq!((a.as_str(), a.to_string().as_str()), (t, t));
    let o = a.clone().into_object();
    assert!(&o == a.as_object() && a.clone().into_string() == t);
    let r = RpcAddress::<T>::from_string(t.to_owned());
    assert!(r.decode_object(net(net_no)) == Ok(o.clone()) && r.clone().into_address(net(net_no)) == Ok(a) && r.as_str() == t);
    Ok(o.encode())
}
fn parse_as(ty: usize, n: usize, t: &str) -> Result<Vec<u8>, AddressError> { match ty { 0 => parse::<Destination>(n, t), 5 => parse::<PoolId>(n, t), 6 => parse::<DelegationId>(n, t), 7 => parse::<TokenId>(n, t), 8 => parse::<OrderId>(n, t), _ => parse::<VRFPublicKey>(n, t) } }
fn write<T: Addressable + DecodeAll + Clone + PartialEq + std::fmt::Debug>(n: usize, b: &[u8]) -> String {
    let o = T::decode_all(&mut &b[..]).expect("an object");
    let a = Address::new(net(n), o.clone()).expect("writes");
    assert!(a.as_object() == &o && RpcAddress::new(net(n), o).expect("writes").as_str() == a.as_str());
    a.into_string()
}
fn write_as(ty: usize, n: usize, b: &[u8]) -> String { match ty { 0 => write::<Destination>(n, b), 5 => write::<PoolId>(n, b), 6 => write::<DelegationId>(n, b), 7 => write::<TokenId>(n, b), 8 => write::<OrderId>(n, b), _ => write::<VRFPublicKey>(n, b) } }
fn ty(kind: usize) -> usize { if kind < 5 { 0 } else { kind } }
fn json<T: serde::Serialize + serde::de::DeserializeOwned + DecodeAll + Encode + Addressable>(b: &[u8], texts: &[String], n: usize) {
    let o = T::decode_all(&mut &b[..]).expect("an object");
    let j = serde_json::to_string(&o).expect("writes");
    assert_eq!(j, format!("\"{}{{0x{}}}\"", T::json_wrapper_prefix(), hex(b)));
    assert_eq!(serde_json::from_str::<T>(&j).expect("reads").encode(), b);
    for t in texts { assert_eq!(serde_json::from_str::<T>(&format!("\"{t}\"")).expect("reads").encode(), b) }
    assert_eq!(serde_json::from_str::<T>(&format!("\"0x{}\"", hex(b))).expect("reads").encode(), b);
    assert_eq!(to_dehexified_json(net(n), &o).expect("writes"), serde_json::Value::String(texts[n].clone()));
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
const WRAPPERS: [(&str, usize); 6] = [("HexifiedDestination", 0), ("HexifiedPoolId", 5), ("HexifiedDelegationId", 6), ("HexifiedTokenId", 7), ("HexifiedOrderId", 8), ("HexifiedVRFPublicKey", 9)];
/// Every wrapped object of a type in the text replaced by its address, or its digits if there is none
fn replaced(n: usize, ty: usize, t: &str) -> String {
    let head = WRAPPERS.iter().find(|w| w.1 == ty).expect("a type").0.to_owned() + "{0x";
    let (mut out, mut rest) = (String::new(), t);
    'next: while let Some(c) = rest.chars().next() {
        if let Some(body) = rest.strip_prefix(head.as_str()) {
            let digits = body.len() - body.trim_start_matches(|c: char| c.is_ascii_hexdigit()).len();
            if digits > 0 && body[digits..].starts_with('}') {
                let d = &body[..digits];
                let raw: Option<Vec<u8>> = (digits % 2 == 0).then(|| (0..digits / 2).map(|i| u8::from_str_radix(&d[2 * i..2 * i + 2], 16).expect("digits")).collect());
                match raw.and_then(|b| kind_of(ty, &b).map(|k| text(PREFIXES[n][k], &fives(&b), BECH32M))) { Some(a) => out += &a, None => { out += "0x"; out += d } }
                rest = &body[digits + 1..];
                continue 'next;
            }
        }
        out.push(c);
        rest = &rest[c.len_utf8()..];
    }
    out
}

cases! {
    c11_addresses_write_and_read(s) {
        let (n, kind) = (s.below(4), s.below(10));
        let b = bytes(s, kind);
        let (other_net, other_kind) = (s.below(4), s.below(10));
        inputs!(s, n, kind, b, other_net, other_kind);
        let t = write_as(ty(kind), n, &b);
        assert_eq!(t, text(PREFIXES[n][kind], &fives(&b), BECH32M));
        assert_eq!(parse_as(ty(kind), n, &t), Ok(b.clone()));
        // on no other chain, as no other type of object, and not in capitals
        if other_net != n { assert!(parse_as(ty(kind), other_net, &t).is_err()) }
        if ty(other_kind) != ty(kind) { assert!(parse_as(ty(other_kind), n, &t).is_err()) }
        assert!(parse_as(ty(kind), n, &t.to_uppercase()).is_err());
        let short = match ty(kind) { 0 => Address::<Destination>::from_string(net(n), t.clone()).expect("reads").to_short_string(), 5 => Address::<PoolId>::from_string(net(n), t.clone()).expect("reads").to_short_string(), _ => return };
        let (p, l) = (PREFIXES[n][kind].len() + 4, t.len());
        assert_eq!(short, if l < p + 8 { t.clone() } else { format!("{}...{}", &t[..p], &t[l - 4..]) });
    }
    // prefix and bytes that need not belong together
    c11_addresses_take_nothing_else(s) {
        let (n, kind, as_kind, as_net) = (s.below(4), s.below(10), s.below(10), s.below(4));
        let mut b = bytes(s, kind);
        match s.below(6) { 0 => b.push(s.u8()), 1 => { b.pop(); } 2 if !b.is_empty() => { let i = s.below(b.len()); b[i] = s.u8() } 3 if !b.is_empty() => b[0] = s.below(6) as u8, _ => () }
        let hrp = match s.below(4) { 0 => PREFIXES[s.below(4)][s.below(10)], 1 => ["", "m", "mtcx", "xtc"][1 + s.below(3)], _ => PREFIXES[n][kind] };
        let constant = if s.below(6) == 0 { 1 } else { BECH32M };
        inputs!(s, n, kind, as_kind, as_net, b, hrp, constant);
        let t = text(hrp, &fives(&b), constant);
        let (as_ty, want) = (ty(as_kind), kind_of(ty(as_kind), &b).filter(|k| PREFIXES[as_net][*k] == hrp && constant == BECH32M));
        match parse_as(as_ty, as_net, &t) {
            Ok(got) => { assert!(want.is_some(), "read"); assert_eq!(got, b) }
            Err(e) => {
                assert!(want.is_none(), "refused: {e}");
                if constant != BECH32M { assert!(matches!(e, AddressError::Bech32EncodingError(_))) }
                else if kind_of(as_ty, &b).is_some() { assert_eq!(e, AddressError::InvalidPrefix(hrp.to_owned())) }
                else { assert!(matches!(e, AddressError::DecodingError(_))) }
            }
        }
    }
    c11_addresses_in_json(s) {
        let (n, kind) = (s.below(4), s.below(10));
        let b = bytes(s, kind);
        inputs!(s, n, kind, b);
        let texts: Vec<String> = (0..4).map(|n| text(PREFIXES[n][kind], &fives(&b), BECH32M)).collect();
        match ty(kind) { 0 => json::<Destination>(&b, &texts, n), 5 => json::<PoolId>(&b, &texts, n), 6 => json::<DelegationId>(&b, &texts, n), 7 => json::<TokenId>(&b, &texts, n), 8 => json::<OrderId>(&b, &texts, n), _ => { json_vrf(&b, n, &texts) } }
    }
    c11_wrapped_addresses_are_replaced(s) {
        let n = s.below(4);
        let mut t = String::new();
        for _ in 0..s.below(6) {
            let (k, w) = (s.below(10), s.below(6));
            let mut b = bytes(s, k);
            let mut d = match s.below(8) { 0 => String::new(), 1 => { b.push(0); hex(&b) } 2 => hex(&b).to_uppercase(), 3 => hex(&b) + "a", _ => hex(&b) };
            if s.below(12) == 0 { d.push('g') }
            let name = if s.below(3) > 0 { WRAPPERS.iter().find(|x| x.1 == ty(k)).expect("a type").0 } else { WRAPPERS[w].0 };
            t += &match s.below(10) { 0 => format!("{name}{{{d}}}"), 1 => format!("{name}{{0x{d}"), 2 => format!("{name} {{0x{d}}}"), _ => format!("{name}{{0x{d}}}") };
            t += ["", " ", "{", "}", "\u{e9}", "Hexified", "0x", "\n"][s.below(8)];
        }
        inputs!(s, n, t);
        assert_eq!(HexifiedAddress::<Destination>::replace_with_address(net(n), &t), replaced(n, 0, &t));
        assert_eq!(HexifiedAddress::<TokenId>::replace_with_address(net(n), &t), replaced(n, 7, &t));
        let all = [0, 5, 6, 7, 8, 9].iter().fold(t.clone(), |t, ty| replaced(n, *ty, &t));
        assert_eq!(dehexify_all_addresses(net(n), &t), all);
        assert_eq!(HexifiedAddress::<Destination>::is_hexified_address(&t), replaced(n, 0, &t) != t);
    }
    c11_hashes_of_keys(s) {
        let (i, b) = (s.below(4), s.bytes(24));
        inputs!(s, i, b);
        let full = crypto::hash::hash::<crypto::hash::Blake2b32, _>(key(i).encode());
        assert_eq!(PublicKeyHash::from(key(i)).as_bytes(), &full.as_slice()[..20]);
        assert_eq!(PublicKeyHash::try_from(b.clone()).ok().map(|h| h.as_bytes().to_vec()), (b.len() == 20).then_some(b));
        let d = Destination::ScriptHash(Id::new(H256::zero()));
        assert_eq!(d.encode().len(), 33);
    }
}
/// (VRF keys are written in hexadecimal as they are)
fn json_vrf(b: &[u8], n: usize, texts: &[String]) {
    let o = VRFPublicKey::decode_all(&mut &b[..]).expect("a key");
    assert_eq!(HexifiedAddress::new(&o).to_string(), format!("HexifiedVRFPublicKey{{0x{}}}", hex(b)));
    assert_eq!(dehexify_all_addresses(net(n), &HexifiedAddress::new(&o).to_string()), texts[n]);
}
