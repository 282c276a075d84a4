// Heights, distances and counts of blocks: exact results, or none, or (for a height past the largest) the documented panic.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::ops::{Add, Sub};
//@ source H common/src/primitives/height.rs
verus! {
//@ include word.vrs
//@ include conv.vrs
//@ type H HeightIntType
//@ type H DistanceIntType
//@ struct H BlockHeight derive Copy,Clone,PartialEq,Eq,Structural
//@ struct H BlockDistance derive Copy,Clone,PartialEq,Eq,Structural
//@ struct H BlockCount derive Copy,Clone,PartialEq,Eq,Structural
pub open spec fn ordered(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a > b { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal } }
impl PartialOrdSpecImpl for BlockHeight { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &BlockHeight) -> Option<core::cmp::Ordering> { Some(ordered(self.0 as int, o.0 as int)) } }
impl core::cmp::PartialOrd for BlockHeight { #[verifier::external_body] fn partial_cmp(&self, o: &BlockHeight) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
pub open spec fn height(x: int) -> Option<BlockHeight> { if 0 <= x <= u64::MAX { Some(BlockHeight(x as u64)) } else { None } }
pub open spec fn distance(x: int) -> Option<BlockDistance> { if i64::MIN <= x <= i64::MAX { Some(BlockDistance(x as i64)) } else { None } }
pub open spec fn count(x: int) -> Option<BlockCount> { if 0 <= x <= u64::MAX { Some(BlockCount(x as u64)) } else { None } }
//@ impl H impl BlockHeight
//@ implconst ZERO ensures BlockHeight::ZERO.0 == 0
//@ implconst ONE ensures BlockHeight::ONE.0 == 1
//@ implconst MAX ensures BlockHeight::MAX.0 == u64::MAX
//@ fn new
//@|    ensures r.0 == height
//@ fn zero
//@|    ensures r.0 == 0
//@ fn one
//@|    ensures r.0 == 1
//@ fn max
//@|    ensures r.0 == u64::MAX
//@ fn checked_add
//@|    ensures r == height(self.0 + rhs)
//@ fn next_height
//@|    requires self.0 < u64::MAX
//@|    ensures r.0 == self.0 + 1
//@ fn prev_height
//@|    ensures r == height(self.0 - 1)
//@ fn into_int
//@|    ensures r == self.0
//@ endimpl
//@ impl H impl BlockDistance
//@ fn new
//@|    ensures r.0 == distance
//@ fn to_int
//@|    ensures r == self.0
//@ endimpl
//@ impl H impl BlockCount
//@ fn new
//@|    ensures r.0 == count
//@ fn to_int
//@|    ensures r == self.0
//@ endimpl
impl AddSpecImpl<BlockDistance> for BlockHeight {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: BlockDistance) -> bool { self.0 <= i64::MAX ==> self.0 + o.0 <= i64::MAX }
    open spec fn add_spec(self, o: BlockDistance) -> Option<BlockHeight> { if self.0 <= i64::MAX && self.0 + o.0 <= i64::MAX { height(self.0 + o.0) } else { None } }
}
//@ impl H impl Add<BlockDistance> for BlockHeight
//@ fn add
//@ . method try_into => vf_try_into
//@ endimpl
impl SubSpecImpl<BlockDistance> for BlockHeight {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: BlockDistance) -> bool { true }
    open spec fn sub_spec(self, o: BlockDistance) -> Option<BlockHeight> { if self.0 <= i64::MAX && self.0 - o.0 <= i64::MAX { height(self.0 - o.0) } else { None } }
}
//@ impl H impl Sub<BlockDistance> for BlockHeight
//@ fn sub
//@ . method try_into => vf_try_into
//@ endimpl
impl SubSpecImpl<BlockHeight> for BlockHeight {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: BlockHeight) -> bool { true }
    open spec fn sub_spec(self, o: BlockHeight) -> Option<BlockDistance> { if self.0 <= i64::MAX && o.0 <= i64::MAX { distance(self.0 - o.0) } else { None } }
}
//@ impl H impl Sub<BlockHeight> for BlockHeight
//@ fn sub
//@ . method try_into => vf_try_into
//@ endimpl
impl AddSpecImpl<BlockDistance> for BlockDistance {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: BlockDistance) -> bool { true }
    open spec fn add_spec(self, o: BlockDistance) -> Option<BlockDistance> { distance(self.0 + o.0) }
}
//@ impl H impl Add<BlockDistance> for BlockDistance
//@ fn add
//@ . method try_into => vf_try_into
//@ endimpl
impl SubSpecImpl<BlockDistance> for BlockDistance {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: BlockDistance) -> bool { true }
    open spec fn sub_spec(self, o: BlockDistance) -> Option<BlockDistance> { distance(self.0 - o.0) }
}
//@ impl H impl Sub<BlockDistance> for BlockDistance
//@ fn sub
//@ . method try_into => vf_try_into
//@ endimpl
impl AddSpecImpl<BlockCount> for BlockCount {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: BlockCount) -> bool { true }
    open spec fn add_spec(self, o: BlockCount) -> Option<BlockCount> { count(self.0 + o.0) }
}
//@ impl H impl Add<BlockCount> for BlockCount
//@ fn add
//@ . method try_into => vf_try_into
//@ endimpl
impl SubSpecImpl<BlockCount> for BlockCount {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: BlockCount) -> bool { true }
    open spec fn sub_spec(self, o: BlockCount) -> Option<BlockCount> { count(self.0 - o.0) }
}
//@ impl H impl Sub<BlockCount> for BlockCount
//@ fn sub
//@ . method try_into => vf_try_into
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<HeightIntType> for BlockHeight { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: HeightIntType) -> BlockHeight { BlockHeight(x) } }
//@ impl H impl From<HeightIntType> for BlockHeight
//@ fn from
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<BlockHeight> for HeightIntType { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: BlockHeight) -> HeightIntType { x.0 } }
//@ impl H impl From<BlockHeight> for HeightIntType
//@ fn from
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<DistanceIntType> for BlockDistance { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: DistanceIntType) -> BlockDistance { BlockDistance(x) } }
//@ impl H impl From<DistanceIntType> for BlockDistance
//@ fn from
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<BlockDistance> for DistanceIntType { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: BlockDistance) -> DistanceIntType { x.0 } }
//@ impl H impl From<BlockDistance> for DistanceIntType
//@ fn from
//@ endimpl
} // verus!
fn main() {}
