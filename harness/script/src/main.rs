//! Contract cases of the `script` crate. See vsrc.
#[cfg(not(kani))]
fn main() {
    let all: Vec<_> = [encoding::CASES, run::CASES].concat();
    vsrc::native::main(Box::leak(all.into_boxed_slice()))
}
#[cfg(kani)]
fn main() {}
mod encoding;
#[cfg(not(kani))]
mod run;
