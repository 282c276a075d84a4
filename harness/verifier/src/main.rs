//! Contract cases of scripts, time locks, the UTXO set and reward distribution. See vsrc.
fn main() {
    let all: Vec<_> = [inputs::CASES, locks::CASES, rewards::CASES, scripts::CASES].concat();
    vsrc::native::main(Box::leak(all.into_boxed_slice()))
}
mod inputs;
mod locks;
mod rewards;
mod scripts;
