//! BIP-350 written out on its own: the texts with the Bech32m checksum and what is read from them.
pub const ALPHABET: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
pub const BECH32M: u32 = 0x2bc830a3;
fn polymod(v: impl Iterator<Item = u8>) -> u32 {
    let mut c = 1u32;
    for x in v {
        let top = c >> 25;
        c = (c & 0x1ffffff) << 5 ^ x as u32;
        for (i, g) in [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3].iter().enumerate() { if top >> i & 1 == 1 { c ^= g } }
    }
    c
}
fn expand(hrp: &str) -> Vec<u8> { let h: Vec<u8> = hrp.bytes().map(|b| b.to_ascii_lowercase()).collect(); h.iter().map(|b| b >> 5).chain([0]).chain(h.iter().map(|b| b & 31)).collect() }
pub fn fives(data: &[u8]) -> Vec<u8> { let bit = |i: usize| data.get(i / 8).map_or(0, |b| b >> (7 - i % 8) & 1); (0..(data.len() * 8).div_ceil(5)).map(|k| (0..5).fold(0, |a, j| a << 1 | bit(5 * k + j))).collect() }
/// The text of five-bit groups under a prefix with the checksum constant given.
pub fn text(hrp: &str, groups: &[u8], constant: u32) -> String {
    let c = polymod(expand(hrp).into_iter().chain(groups.iter().copied()).chain([0; 6])) ^ constant;
    hrp.to_lowercase() + "1" + &groups.iter().copied().chain((0..6).map(|i| (c >> (5 * (5 - i)) & 31) as u8)).map(|x| ALPHABET[x as usize] as char).collect::<String>()
}
pub fn good_hrp(h: &str) -> bool { (1..=83).contains(&h.len()) && h.bytes().all(|b| (33..127).contains(&b)) && !(h.bytes().any(|b| b.is_ascii_lowercase()) && h.bytes().any(|b| b.is_ascii_uppercase())) }
/// BIP-350, with the longest text that the library takes (and the bits that do not fill a byte ignored).
pub fn read(t: &str) -> Option<(String, Vec<u8>)> {
    if t.len() > 1023 || (t.bytes().any(|b| b.is_ascii_lowercase()) && t.bytes().any(|b| b.is_ascii_uppercase())) { return None }
    let (hrp, rest) = t.rsplit_once('1')?;
    if !good_hrp(hrp) || rest.len() < 6 { return None }
    let g: Vec<u8> = rest.bytes().map(|b| ALPHABET.iter().position(|a| *a == b.to_ascii_lowercase()).map(|x| x as u8)).collect::<Option<_>>()?;
    if polymod(expand(hrp).into_iter().chain(g.iter().copied())) != BECH32M { return None }
    let g = &g[..g.len() - 6];
    Some((hrp.to_owned(), (0..g.len() * 5 / 8).map(|k| (0..8).fold(0u8, |a, j| { let i = 8 * k + j; a << 1 | (g[i / 5] >> (4 - i % 5) & 1) })).collect()))
}
