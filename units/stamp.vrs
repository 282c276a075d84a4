//@ source B common/src/chain/block/timestamp.rs
//@ type B BlockTimestampInternalType
//@ struct B BlockTimestamp derive Copy,Clone,PartialEq,Eq,Structural
impl PartialOrdSpecImpl for BlockTimestamp { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &BlockTimestamp) -> Option<core::cmp::Ordering> { Some(ordered(self.timestamp as int, o.timestamp as int)) } }
impl core::cmp::PartialOrd for BlockTimestamp { #[verifier::external_body] fn partial_cmp(&self, o: &BlockTimestamp) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
//@ impl B impl BlockTimestamp
//@ fn from_int_seconds
//@|    ensures r.timestamp == timestamp
//@ fn as_int_seconds
//@|    ensures r == self.timestamp
//@ fn add_int_seconds
//@|    ensures r == (if self.timestamp + seconds <= u64::MAX { Some(BlockTimestamp { timestamp: (self.timestamp + seconds) as u64 }) } else { None })
//@ endimpl
