#[verifier::external_body]
pub struct UtxoOutPoint { d: u64 }
