// The wide integers: every operation is that of the number the words denote.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;
use core::cmp::Ordering;
//@ source I common/src/uint/impls.rs
//@ expand I construct_uint Uint256 4
verus! {
//@ include uint_spec.vrs
pub struct Amount { pub atoms: u128 }
impl Amount { pub fn into_atoms(self) -> (r: u128) ensures r == self.atoms { self.atoms } }
//@ path crate::uint::BitArray => Uint256
//@ include uint_body.vrs T=Uint256 N=4 LIT=[digit(x,0),digit(x,1),digit(x,2),digit(x,3)]
}
fn main() {}
