/// a block (its header, and how many transactions there are in it)
#[verifier::external_body]
pub struct Block { d: u64 }
impl Block {
    pub uninterp spec fn head(&self) -> SignedBlockHeader;
    pub uninterp spec fn the_id(&self) -> Id<Block>;
    pub uninterp spec fn count(&self) -> nat;
    #[verifier::external_body] pub fn header(&self) -> (r: &SignedBlockHeader) ensures *r == self.head() { unimplemented!() }
    #[verifier::external_body] pub fn get_id(&self) -> (r: Id<Block>) ensures r == self.the_id() { unimplemented!() }
    #[verifier::external_body] pub fn timestamp(&self) -> (r: BlockTimestamp) ensures r == self.head().block_header.timestamp { unimplemented!() }
}
