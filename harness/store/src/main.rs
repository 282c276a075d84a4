//! Contract cases of the storage backends and the typed layer over them. See vsrc.
#[cfg(not(kani))]
fn main() { vsrc::native::main(tx::CASES) }
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
mod tx;
