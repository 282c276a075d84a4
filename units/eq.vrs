// Comparison of slices in constant time: equality, for all lengths and contents. T is u8 (byte slices: its only use).
use vstd::prelude::*;
//@ source Q crypto/src/util/eq.rs
//@ mono T u8
verus! {
global size_of usize == 8;
//@ enum Q SliceEqualityCheckMethod
pub open spec fn same(a: Seq<u8>, b: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> a[i] == #[trigger] b[i % (b.len() as int)] }
#[verifier::external_body]
fn vf_into(x: u8) -> (r: usize) ensures r == x { x.into() }
proof fn all_same(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len() ensures same(a, b, a.len() as int) <==> a == b {
    let n = a.len() as int;
    if same(a, b, n) { assert forall|i: int| 0 <= i < n implies a[i] == b[i] by { assert(i % n == i) by (nonlinear_arith) requires 0 <= i < n; assert(a[i] == b[i % (b.len() as int)]); } assert(a =~= b); }
    if a == b { assert forall|i: int| 0 <= i < n implies a[i] == #[trigger] b[i % (b.len() as int)] by { assert(i % n == i) by (nonlinear_arith) requires 0 <= i < n; } }
}
//@ impl Q impl SliceEqualityCheckMethod
//@ fn timing_resistant_equal
//@|    ensures r == (a@ == b@)
//@ . replace (a[idx] ^ b[idx % b.len()]).into() =>> vf_into(a[idx] ^ b[idx % b.len()])
//@ . proof start
//@|    proof { if a@.len() == 0 && b@.len() == 0 { assert(a@ =~= b@); } }
//@ . proof loop 0 before
//@|    proof { let (n, m) = (a@.len() as usize, b@.len() as usize); assert(n ^ m == 0usize <==> n == m) by (bit_vector); }
//@ . loop 0
//@|    invariant
//@|        b@.len() > 0,
//@|        (accumulated == 0) == (a@.len() == b@.len() && same(a@, b@, idx as int)),
//@ . proof loop 0 start
//@|    proof { let (x, y) = (a@[idx as int], b@[idx as int % b@.len() as int]);
//@|        assert(x ^ y == 0u8 <==> x == y) by (bit_vector);
//@|        let st = (x ^ y) as usize; assert(accumulated | st == 0usize <==> (accumulated == 0 && st == 0)) by (bit_vector); }
//@ . proof loop 0 after
//@|    proof { if a@.len() == b@.len() { all_same(a@, b@); } }
//@ endimpl
}
fn main() {}
