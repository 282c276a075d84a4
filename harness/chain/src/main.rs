//! Contract cases of the consensus rules: accounting of orders, pools and tokens, the UTXO set, targets, emission. See vsrc.
fn main() {
    let all: Vec<_> = [orders::CASES, pools::CASES, tokens::CASES, values::CASES, consensus_rules::CASES, rules::CASES, addr::CASES, utxoset::CASES, signing::CASES].concat();
    vsrc::native::main(Box::leak(all.into_boxed_slice()))
}
mod addr;
mod consensus_rules;
mod orders;
mod pools;
mod rules;
mod signing;
mod tokens;
mod utxoset;
mod values;

/// A source of random numbers that gives a stream fixed by its seed.
pub struct Fixed(pub u64);
impl randomness::TryRng for Fixed {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> { Ok(self.try_next_u64()? as u32) }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        Ok(z ^ (z >> 31))
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Self::Error> { for c in d.chunks_mut(8) { let x = self.try_next_u64()?.to_le_bytes(); c.copy_from_slice(&x[..c.len()]); } Ok(()) }
}
impl randomness::TryCryptoRng for Fixed {}
