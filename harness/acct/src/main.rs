//! Contract cases of the delta collections of `accounting`. See vsrc.
#[cfg(not(kani))]
fn main() {
    let all: Vec<_> = [data::CASES, amounts::CASES].concat();
    vsrc::native::main(Box::leak(all.into_boxed_slice()))
}
#[cfg(kani)]
fn main() {}
mod amounts;
mod data;
