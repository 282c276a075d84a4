// Child numbers of hierarchical keys: the hardened bit and the 31-bit index, for all u32; the paths that keys keep.
use vstd::prelude::*;
//@ source U crypto/src/key/hdkd/u31.rs
//@ source N crypto/src/key/hdkd/child_number.rs
//@ source P crypto/src/key/hdkd/derivation_path.rs
//@ source D crypto/src/key/hdkd/derivable.rs
verus! {
//@ const U MSB_BIT
//@ struct U U31 derive Clone,Copy
//@ struct N ChildNumber derive Clone,Copy
//@ struct P DerivationPath
//@ const P MAX_PATH_SIZE
//@ enum D DerivationError
impl U31 { pub open spec fn ok(self) -> bool { self.0 < 0x8000_0000 } }
/// the index of a child number, and whether it is hardened
pub open spec fn index(x: u32) -> u32 { x % 0x8000_0000 }
pub open spec fn hardened(x: u32) -> bool { x >= 0x8000_0000 }
proof fn bits(x: u32)
    ensures (x & 0x8000_0000 != 0) == hardened(x), x & !0x8000_0000u32 == index(x), x < 0x8000_0000 ==> x | 0x8000_0000 == x + 0x8000_0000, x | 0 == x
{
    assert((x & 0x8000_0000 != 0) == (x >= 0x8000_0000)) by (bit_vector);
    assert(x & !0x8000_0000u32 == x % 0x8000_0000) by (bit_vector);
    assert(x < 0x8000_0000 ==> x | 0x8000_0000 == x + 0x8000_0000) by (bit_vector);
    assert(x | 0 == x) by (bit_vector);
}
//@ impl U impl U31
//@ fn from_u32_with_msb
//@|    ensures r.0.0 == index(val), r.1 == hardened(val), r.0.ok()
//@ . proof start
//@|    proof { bits(val); }
//@ fn into_u32
//@|    ensures r == self.0
//@ fn from_u32
//@|    ensures match r { Some(u) => u.0 == value && u.ok(), None => value >= 0x8000_0000 }
//@ . proof start
//@|    proof { bits(value); }
//@ fn into_encoded_with_msb
//@|    requires self.ok()
//@|    ensures r == self.0 + (if msb { 0x8000_0000int } else { 0 }), index(r) == self.0, hardened(r) == msb
//@ . proof start
//@|    proof { bits(self.0); }
//@ fn plus_one
//@ . replace .try_into() =>> .vf_try()
//@|    requires self.ok()
//@|    ensures match r { Ok(u) => u.ok() && u.0 == self.0 + 1, Err(e) => self.0 == 0x7fff_ffff && e == DerivationError::InvalidChildNumber(0x8000_0000u32) }
//@ endimpl
/// u32 into U31: what TryFrom<u32> for U31 does (its text is taken below)
pub trait VfTry { fn vf_try(self) -> (r: Result<U31, DerivationError>); }
impl VfTry for u32 {
    fn vf_try(self) -> (r: Result<U31, DerivationError>)
        ensures match r { Ok(u) => u.ok() && u.0 == self, Err(e) => self >= 0x8000_0000 && e == DerivationError::InvalidChildNumber(self) }
    { U31::try_from(self) }
}
//@ path Self::Error => DerivationError
//@ inherent U impl TryFrom<u32> for U31
//@ fn try_from
//@|    ensures match r { Ok(u) => u.ok() && u.0 == value, Err(e) => value >= 0x8000_0000 && e == DerivationError::InvalidChildNumber(value) }
//@ endimpl
//@ impl N impl ChildNumber
//@ fn from_hardened
//@|    requires index.ok()
//@|    ensures r.0 == index.0 + 0x8000_0000
//@ fn from_normal
//@|    requires index.ok()
//@|    ensures r.0 == index.0
//@ fn from_index_with_hardened_bit
//@|    ensures r.0 == index
//@ fn get_index
//@|    ensures r.0 == index(self.0), r.ok()
//@ fn into_encoded_index
//@|    ensures r == self.0
//@ fn is_hardened
//@|    ensures r == hardened(self.0)
//@ fn is_normal
//@|    ensures r == !hardened(self.0)
//@ fn increment
//@|    ensures match r { Ok(n) => index(self.0) != 0x7fff_ffff && n.0 == self.0 + 1 && hardened(n.0) == hardened(self.0), Err(e) => index(self.0) == 0x7fff_ffff }
//@ endimpl
//@ impl P impl DerivationPath
//@ fn into_vec
//@|    ensures r == self.0
//@ fn len
//@|    ensures r == self.0@.len()
//@ fn is_empty
//@|    ensures r == (self.0@.len() == 0)
//@ fn is_root
//@|    ensures r == (self.0@.len() == 0)
//@ endimpl
//@ inherent P impl TryFrom<Vec<ChildNumber>> for DerivationPath
//@ fn try_from
//@|    ensures match r { Ok(p) => p.0 == path && path@.len() <= 255, Err(e) => path@.len() > 255 && e == DerivationError::PathTooLong }
//@ endimpl
}
fn main() {}
