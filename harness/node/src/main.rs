//! Contract cases of the whole chainstate: the chain the node follows, and its state, as a function of the blocks it was given.
fn main() {
    let all: Vec<_> = [chains::CASES].concat();
    vsrc::native::main(Box::leak(all.into_boxed_slice()))
}
mod chains;
