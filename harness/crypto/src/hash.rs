//! C16: hashes, whole and in pieces.
use crypto::hash::*;
use generic_array::typenum::U64;
use vsrc::*;

fn lib(kind: usize, d: &[u8]) -> Vec<u8> {
    use blake2::Digest;
    match kind {
        0 => blake2::Blake2b::<U64>::digest(d).to_vec(),
        1 => blake2::Blake2b::<U64>::digest(d)[..32].to_vec(),
        2 => sha1::Sha1::digest(d).to_vec(),
        3 => sha2::Sha256::digest(d).to_vec(),
        4 => sha3::Sha3_512::digest(d).to_vec(),
        5 => ripemd::Ripemd160::digest(d).to_vec(),
        _ => ripemd::Ripemd160::digest(sha2::Sha256::digest(d)).to_vec(),
    }
}
fn whole(kind: usize, d: &[u8]) -> Vec<u8> {
    match kind { 0 => Blake2b::hash(d).to_vec(), 1 => Blake2b32::hash(d).to_vec(), 2 => Sha1::hash(d).to_vec(), 3 => Sha256::hash(d).to_vec(), 4 => Sha3_512::hash(d).to_vec(), 5 => Ripemd160::hash(d).to_vec(), _ => hash::<Ripemd160, _>(hash::<Sha256, _>(d)).to_vec() }
}
/// What a stream gives for a program of writes (false: bytes), resets and finalizations
fn stream<H: StreamHasher>(prog: &[(u8, Vec<u8>)]) -> Vec<Vec<u8>> {
    let mut h = H::new();
    let mut out = vec![];
    for (op, d) in prog { match op { 0 => { h.write(d); } 1 => { for b in d { h.write([*b]); } } 2 => h.reset(), _ => out.push(h.finalize().to_vec()) } }
    out.push(h.finalize().to_vec());
    out
}

cases! {
    c16_a_hash_is_that_of_the_library(s) {
        let kind = s.below(7);
        let d = if s.below(8) == 0 { vec![s.u8(); s.below(1000)] } else { s.bytes(200) };
        inputs!(s, kind, d);
        assert_eq!(whole(kind, &d), lib(kind, &d));
    }
    c16_pieces_hash_like_the_whole(s) {
        let kind = s.below(7);
        let n = s.below(12);
        let prog: Vec<(u8, Vec<u8>)> = (0..n).map(|_| (match s.below(8) { 0 | 1 | 2 | 3 | 4 => 0, 5 => 1, 6 => 2, _ => 3 }, match s.below(4) { 0 => s.bytes(3), 1 => vec![s.u8(); s.below(160)], _ => s.bytes(40) })).collect();
        inputs!(s, kind, prog);
        let (mut want, mut cur) = (vec![], vec![]);
        for (op, d) in &prog { match op { 0 | 1 => cur.extend(d), 2 => cur.clear(), _ => { want.push(lib(kind, &cur)); cur.clear() } } }
        want.push(lib(kind, &cur));
        let got = match kind { 0 => stream::<Blake2bStream>(&prog), 1 => stream::<Blake2b32Stream>(&prog), 2 => stream::<Sha1Stream>(&prog), 3 => stream::<Sha256Stream>(&prog), 4 => stream::<Sha3_512Stream>(&prog), 5 => stream::<Ripemd160Stream>(&prog), _ => stream::<Sha256Ripmd160Stream>(&prog) };
        assert_eq!(got, want);
    }
    c16_a_copy_of_a_stream_goes_its_own_way(s) {
        let (a, b, c) = (s.bytes(150), s.bytes(30), s.bytes(30));
        inputs!(s, a, b, c);
        let mut x = Blake2b32Stream::new();
        x.write(&a);
        let mut y = x.clone();
        x.write(&b);
        y.write(&c);
        assert_eq!(x.finalize().to_vec(), lib(1, &[a.clone(), b].concat()));
        assert_eq!(y.finalize().to_vec(), lib(1, &[a.clone(), c].concat()));
        let mut z = Sha256Stream::new();
        z.write(&a);
        let mut w = z.clone();
        z.reset();
        assert_eq!(w.finalize().to_vec(), lib(3, &a));
        assert_eq!(z.finalize().to_vec(), lib(3, &[]));
    }
}
