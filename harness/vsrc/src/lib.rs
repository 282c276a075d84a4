//! Contract cases: each is a function over a source of arbitrary values that states a precondition (`assume!`), calls the
//! real code and checks the postcondition (`assert!`, and that nothing panics). Under Kani the source is `kani::any()`,
//! so a case is a proof over the full domain; natively the values are drawn at the boundaries and at random, or replayed.

pub trait Src {
    fn draw(&mut self, bits: u32) -> u128;
    /// True if the case is to continue.
    fn ok(&mut self, c: bool) -> bool;
    fn note(&mut self, _: &dyn Fn() -> String) {}
    fn symbolic(&self) -> bool { false }

    fn u8(&mut self) -> u8 { self.draw(8) as u8 }
    fn u16(&mut self) -> u16 { self.draw(16) as u16 }
    fn u32(&mut self) -> u32 { self.draw(32) as u32 }
    fn u64(&mut self) -> u64 { self.draw(64) as u64 }
    fn u128(&mut self) -> u128 { self.draw(128) }
    fn usize(&mut self) -> usize { self.draw(64) as usize }
    fn i32(&mut self) -> i32 { self.draw(32) as u32 as i32 }
    fn i64(&mut self) -> i64 { self.draw(64) as u64 as i64 }
    fn i128(&mut self) -> i128 { self.draw(128) as i128 }
    fn bool(&mut self) -> bool { self.draw(1) & 1 == 1 }
    /// A value below n (n > 0).
    fn below(&mut self, n: usize) -> usize { let x = self.draw(32) as usize; x % n }
    fn arr<const N: usize>(&mut self) -> [u8; N] { let mut a = [0u8; N]; for x in a.iter_mut() { *x = self.u8() } a }
    fn words<const N: usize>(&mut self) -> [u64; N] { let mut a = [0u64; N]; for x in a.iter_mut() { *x = self.u64() } a }
    fn bytes(&mut self, max: usize) -> Vec<u8> { let n = self.below(max + 1); (0..n).map(|_| self.u8()).collect() }
}

#[macro_export]
macro_rules! assume { ($s:expr, $c:expr) => { if !$s.ok($c) { return; } } }
/// Records the inputs of the case (natively only), once they are all drawn.
#[macro_export]
macro_rules! inputs { ($s:expr, $($x:expr),*) => { if !$s.symbolic() { $s.note(&|| { let mut o = String::new(); $( o.push_str(&format!("{}={:?} ", stringify!($x), $x)); )* o }) } } }

#[cfg(kani)]
pub struct Sym;
#[cfg(kani)]
impl Src for Sym {
    fn draw(&mut self, bits: u32) -> u128 {
        match bits { 1 => kani::any::<bool>() as u128, 8 => kani::any::<u8>() as u128, 16 => kani::any::<u16>() as u128, 32 => kani::any::<u32>() as u128, 64 => kani::any::<u64>() as u128, _ => kani::any::<u128>() }
    }
    fn ok(&mut self, c: bool) -> bool { kani::assume(c); true }
    fn symbolic(&self) -> bool { true }
    fn below(&mut self, n: usize) -> usize { let x = kani::any::<u32>() as usize; kani::assume(x < n); x }
}

/// `cases! { name(s) [unwind N] { .. } }`: `unwind N` makes the case a Kani proof as well.
#[macro_export]
macro_rules! cases {
    ($($(#[$m:meta])* $name:ident ( $s:ident ) $([$($k:tt)*])? $body:block)*) => {
        pub mod case { use super::*; $(pub fn $name<S: $crate::Src>($s: &mut S) $body)* }
        #[cfg(not(kani))]
        pub const CASES: &[(&str, fn(&mut $crate::native::Nat))] = &[$((stringify!($name), case::$name::<$crate::native::Nat>)),*];
        #[cfg(kani)]
        mod proofs { $( $crate::proof!{ $name $([$($k)*])? } )* }
    };
}
#[macro_export]
macro_rules! proof {
    ($name:ident) => {};
    ($name:ident [unwind $n:literal]) => { #[kani::proof] #[kani::unwind($n)] fn $name() { super::case::$name(&mut $crate::Sym) } };
    ($name:ident [unwind $n:literal, $solver:ident]) => { #[kani::proof] #[kani::unwind($n)] #[kani::solver($solver)] fn $name() { super::case::$name(&mut $crate::Sym) } };
}

#[cfg(not(kani))]
pub mod bech;

#[cfg(not(kani))]
pub mod native;
