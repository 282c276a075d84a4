//! Contract cases of the arithmetic primitives of `common`. See vsrc.
#[cfg(not(kani))]
fn main() {
    let all: Vec<_> = [amount::CASES, decimal::CASES, uint::CASES, compact::CASES, small::CASES, bech::CASES].concat();
    vsrc::native::main(Box::leak(all.into_boxed_slice()))
}
#[cfg(kani)]
fn main() {}
mod amount;
#[cfg(not(kani))]
mod bech;
mod compact;
#[cfg(not(kani))]
mod decimal;
mod small;
mod uint;
