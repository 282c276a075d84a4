// (what a header holds besides its place in the chain, where that is not looked into)
#[verifier::external_body]
pub struct ConsensusData { d: u64 }
#[verifier::external_body]
pub struct BlockHeaderSignature { d: u64 }
