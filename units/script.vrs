// Numbers in scripts, reading instructions, building pushes, the nesting of conditionals: for all values and lengths.
use vstd::prelude::*;
use vstd::slice::*;
//@ source S script/src/script.rs
//@ source I script/src/interpreter.rs
//@ source E script/src/error.rs
//@ source O script/src/opcodes.rs
verus! {
global size_of usize == 8;
//@ enum E Error

pub open spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
/// The number that a little-endian byte string denotes
pub open spec fn mag(v: Seq<u8>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { mag(v.drop_last()) + v.last() as nat * pow256((v.len() - 1) as nat) } }
/// The number that a script number denotes: the top bit of the last byte is the sign
pub open spec fn num(v: Seq<u8>) -> int {
    if v.len() == 0 { 0 } else if v.last() < 128 { mag(v) as int } else { -(mag(v) - 128 * pow256((v.len() - 1) as nat)) }
}
/// No shorter string denotes the same number
pub open spec fn minimal(v: Seq<u8>) -> bool { v.len() == 0 || v.last() % 128 != 0 || (v.len() > 1 && v[v.len() - 2] >= 128) }

proof fn mag_push(v: Seq<u8>, b: u8) ensures mag(v.push(b)) == mag(v) + b as nat * pow256(v.len()) { assert(v.push(b).drop_last() =~= v); }
proof fn bytes_of(x: usize)
    ensures (x & 0xFF) as u8 == x % 256, (x >> 8) == x / 256, (x <= 0xFF) ==> ((x & 0x80 != 0) <==> x >= 128), (x & 0x80 == 0) && x <= 0xFF ==> (x | 0x80) as u8 == x + 128, x | 0 == x, x & 0xFF == x % 256
{
    assert((x & 0xFF) as u8 == x % 256) by(bit_vector);
    assert(x & 0xFF == x % 256) by(bit_vector);
    assert((x >> 8) == x / 256) by(bit_vector);
    assert((x <= 0xFF) ==> ((x & 0x80 != 0) <==> x >= 128)) by(bit_vector);
    assert((x & 0x80 == 0) && x <= 0xFF ==> (x | 0x80) as u8 == x + 128) by(bit_vector);
    assert(x | 0 == x) by(bit_vector);
}

pub assume_specification [i64::unsigned_abs] (n: i64) -> (r: u64) ensures r as int == (if n < 0 { -(n as int) } else { n as int });
//@ fn S build_scriptint
//@|    ensures num(r@) == n, minimal(r@), n == 0 <==> r@.len() == 0
//@ . loop 0
//@|    invariant mag(v@) + abs * pow256(v@.len()) == (if n < 0 { -n } else { n as int }), n != 0, abs != 0, neg == (n < 0)
//@|    decreases abs
//@ . proof loop 0 before
//@|    proof { assert(v@ =~= Seq::<u8>::empty()); assert(pow256(0) == 1); assert(mag(v@) == 0); assert(abs * pow256(0) == abs) by(nonlinear_arith) requires pow256(0) == 1; }
//@ . proof loop 0 start
//@|    proof { bytes_of(abs); mag_push(v@, (abs % 256) as u8); assert(pow256(v@.len() + 1) == 256 * pow256(v@.len())); assert((abs % 256) * pow256(v@.len()) + (abs / 256) * (256 * pow256(v@.len())) == abs * pow256(v@.len())) by(nonlinear_arith) requires abs == 256 * (abs / 256) + abs % 256; }
//@ . proof loop 0 after
//@|    proof { bytes_of(abs); mag_push(v@, abs as u8); mag_push(v@.push(abs as u8), 0); mag_push(v@.push(abs as u8), 128);
//@|        if abs < 128 { mag_push(v@, (abs + 128) as u8); assert((abs + 128) * pow256(v@.len()) == abs * pow256(v@.len()) + 128 * pow256(v@.len())) by(nonlinear_arith); } }

// ---- explicit lengths
pub fn vf_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
proof fn mag_bound(v: Seq<u8>) ensures mag(v) < pow256(v.len()) decreases v.len() {
    if v.len() > 0 { mag_bound(v.drop_last()); let p = pow256((v.len() - 1) as nat); assert(v.last() as nat * p <= 255 * p) by(nonlinear_arith) requires v.last() <= 255; }
}
proof fn pow256_values() ensures pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(3) == 0x100_0000, pow256(4) == 0x1_0000_0000, pow256(5) == 0x100_0000_0000, pow256(6) == 0x1_0000_0000_0000, pow256(7) == 0x100_0000_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000 { reveal_with_fuel(pow256, 9); }
proof fn shifted(b: usize, i: usize)
    requires b <= 255, i < 8
    ensures b << ((i * 8) as usize) == b * pow256(i as nat)
{
    pow256_values();
    assert(i == 0 ==> b << 0usize == b) by(bit_vector);
    assert(b <= 255 ==> b << 8usize == b * 0x100) by(bit_vector);
    assert(b <= 255 ==> b << 16usize == b * 0x1_0000) by(bit_vector);
    assert(b <= 255 ==> b << 24usize == b * 0x100_0000) by(bit_vector);
    assert(b <= 255 ==> b << 32usize == b * 0x1_0000_0000) by(bit_vector);
    assert(b <= 255 ==> b << 40usize == b * 0x100_0000_0000) by(bit_vector);
    assert(b <= 255 ==> b << 48usize == b * 0x1_0000_0000_0000) by(bit_vector);
    assert(b <= 255 ==> b << 56usize == b * 0x100_0000_0000_0000) by(bit_vector);
    let p = pow256(i as nat);
    if i == 0 { assert(b * p == b); } else if i == 1 { assert(b * p == b * 0x100); } else if i == 2 { assert(b * p == b * 0x1_0000); } else if i == 3 { assert(b * p == b * 0x100_0000); }
    else if i == 4 { assert(b * p == b * 0x1_0000_0000); } else if i == 5 { assert(b * p == b * 0x100_0000_0000); } else if i == 6 { assert(b * p == b * 0x1_0000_0000_0000); } else { assert(b * p == b * 0x100_0000_0000_0000); }
}
//@ fn S read_uint
//@ . opt foriter
//@|    requires size <= 8
//@|    ensures match r { Ok(x) => size <= data.len() && x == mag(data@.subrange(0, size as int)), Err(e) => data.len() < size && e == Error::EarlyEndOfScript }
//@ . loop 0
//@|    invariant size <= 8, size <= data.len(), ret == mag(data@.subrange(0, i as int)), ret < pow256(i as nat)
//@ . proof loop 0 before
//@|    proof { assert(data@.subrange(0, 0) =~= Seq::<u8>::empty()); }
//@ . proof loop 0 start
//@|    proof { assert(data@.subrange(0, i + 1) =~= data@.subrange(0, i as int).push(data@[i as int])); mag_push(data@.subrange(0, i as int), data@[i as int]); shifted(data@[i as int] as usize, i); mag_bound(data@.subrange(0, i + 1)); pow256_values();
//@|        assert(pow256((i + 1) as nat) <= pow256(8)) by { pow256_values(); } }

// ---- one instruction
#[derive(Clone, Copy)] pub struct All { pub code: u8 }
//@ path opcodes::All => All
//@ path opcodes::Class => Class
//@ path opcodes::PushData => PushData
#[derive(Clone, Copy)] pub enum PushData { OP_PUSHDATA1, OP_PUSHDATA2, OP_PUSHDATA4 }
pub struct ControlFlow(u8);
pub struct AltStack(u8);
pub struct Signature(u8);
pub struct TimeLock(u8);
pub struct Ordinary(u8);
//@ enum O Class
//@ enum S Instruction
//@ struct S Instructions
impl All {
    pub fn from(code: u8) -> (r: All) ensures r.code == code { All { code } }
    /// proved of the real function by the Kani case c12_opcodes
    #[verifier::external_body]
    pub fn classify(self) -> (r: Class)
        ensures self.code <= 75 ==> r == Class::PushBytes(self.code as u32), self.code == 76 ==> r == Class::PushData(PushData::OP_PUSHDATA1),
            self.code == 77 ==> r == Class::PushData(PushData::OP_PUSHDATA2), self.code == 78 ==> r == Class::PushData(PushData::OP_PUSHDATA4),
            self.code > 78 ==> !(r is PushBytes) && !(r is PushData)
    { unimplemented!() }
}
pub open spec fn len_size(c: u8) -> int { if c == 76 { 1 } else if c == 77 { 2 } else { 4 } }
pub open spec fn len_min(c: u8) -> int { if c == 76 { 76 } else if c == 77 { 0x100 } else { 0x10000 } }
//@ impl O impl PushData
//@ fn data_size_bytes
//@|    ensures r == (match self { PushData::OP_PUSHDATA1 => 1, PushData::OP_PUSHDATA2 => 2, PushData::OP_PUSHDATA4 => 4int })
//@ fn data_size_min
//@|    ensures r == (match self { PushData::OP_PUSHDATA1 => 76, PushData::OP_PUSHDATA2 => 0x100, PushData::OP_PUSHDATA4 => 0x10000int })
//@ endimpl
/// What the first instruction of a script is, by its bytes alone
pub enum First { Push(int, int), Op(u8), Bad(Error) }
pub open spec fn first(d: Seq<u8>, minimal: bool) -> First {
    let c = d[0];
    if c <= 75 {
        if d.len() < c + 1 { First::Bad(Error::EarlyEndOfScript) }
        else if minimal && c == 1 && (d[1] == 0x81 || 1 <= d[1] <= 16) { First::Bad(Error::NonMinimalPush) }
        else { First::Push(1, c as int) }
    } else if c <= 78 {
        let k = len_size(c);
        if d.len() < 1 + k { First::Bad(Error::EarlyEndOfScript) }
        else {
            let n = mag(d.subrange(1, 1 + k)) as int;
            if d.len() < 1 + k + n { First::Bad(Error::EarlyEndOfScript) } else if minimal && n < len_min(c) { First::Bad(Error::NonMinimalPush) } else { First::Push(1 + k, n) }
        }
    } else { First::Op(c) }
}
//@ impl S impl<'a> Instructions<'a>
//@ fn new
//@|    ensures r.data == data, r.enforce_minimal == enforce_minimal
//@ fn subscript
//@|    ensures r == self.data
//@ fn kill
//@ . retype Option<Result<Instruction<'a>, Error>>
//@|    ensures r matches Some(Err(x)) && x == e, final(self).data@.len() == 0, final(self).enforce_minimal == old(self).enforce_minimal
//@ endimpl
//@ inherent S impl<'a> Iterator for Instructions<'a>
//@ fn next
//@|    ensures
//@|        final(self).enforce_minimal == old(self).enforce_minimal,
//@|        old(self).data@.len() == 0 ==> r.is_none() && final(self).data@.len() == 0,
//@|        old(self).data@.len() > 0 ==> (match first(old(self).data@, old(self).enforce_minimal) {
//@|            First::Push(o, n) => (r matches Some(Ok(Instruction::PushBytes(x))) && x@ =~= old(self).data@.subrange(o, o + n)) && final(self).data@ =~= old(self).data@.subrange(o + n, old(self).data@.len() as int),
//@|            First::Op(c) => (r matches Some(Ok(Instruction::Op(x))) && x.code == c) && final(self).data@ =~= old(self).data@.subrange(1, old(self).data@.len() as int),
//@|            First::Bad(e) => (r matches Some(Err(x)) && x == e) && final(self).data@.len() == 0 }),
//@|        old(self).data@.len() > 0 ==> final(self).data@.len() < old(self).data@.len()
//@ . proof start
//@|    proof { let d = self.data@; let l = d.len() as int; pow256_values();
//@|        if l >= 2 { assert(d.subrange(1, l).subrange(0, 1) =~= d.subrange(1, 2)); mag_bound(d.subrange(1, 2)); }
//@|        if l >= 3 { assert(d.subrange(1, l).subrange(0, 2) =~= d.subrange(1, 3)); mag_bound(d.subrange(1, 3)); }
//@|        if l >= 5 { assert(d.subrange(1, l).subrange(0, 4) =~= d.subrange(1, 5)); mag_bound(d.subrange(1, 5)); } }
//@ endimpl
} // verus!
fn main() {}
