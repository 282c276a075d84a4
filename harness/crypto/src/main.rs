//! Contract cases of the `crypto` crate. See vsrc.
#[cfg(not(kani))]
fn main() {
    let all: Vec<_> = [numbers::CASES, equal::CASES, hd::CASES, sign::CASES, hash::CASES, secret::CASES, vrf::CASES].concat();
    vsrc::native::main(Box::leak(all.into_boxed_slice()))
}
#[cfg(kani)]
fn main() {}
mod numbers;
mod equal;
#[cfg(not(kani))]
mod hd;
#[cfg(not(kani))]
mod sign;
#[cfg(not(kani))]
mod hash;
#[cfg(not(kani))]
mod secret;
#[cfg(not(kani))]
mod vrf;

/// A source of random numbers that gives a stream fixed by its seed.
#[cfg(not(kani))]
pub struct Fixed(pub u64);
#[cfg(not(kani))]
impl randomness::TryRng for Fixed {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> { Ok(self.try_next_u64()? as u32) }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        Ok(z ^ (z >> 31))
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Self::Error> { for c in d.chunks_mut(8) { let x = self.try_next_u64()?.to_le_bytes(); c.copy_from_slice(&x[..c.len()]); } Ok(()) }
}
#[cfg(not(kani))]
impl randomness::TryCryptoRng for Fixed {}
