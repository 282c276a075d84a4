// Outputs, inputs and what they hold (the enums and structs of common::chain as they stand; the includer gives Amount, OutputTimeLock and StandardInputSignature)
//@ source TT common/src/chain/transaction/output/mod.rs
//@ source TV common/src/chain/transaction/output/output_value.rs
//@ source TH common/src/chain/transaction/output/htlc.rs
//@ source TS common/src/chain/transaction/output/stakelock.rs
//@ source TO common/src/chain/transaction/account_outpoint.rs
//@ source TI common/src/chain/transaction/input.rs
//@ source TW common/src/chain/transaction/signature/inputsig/mod.rs
//@ source TG common/src/chain/transaction/signature/mod.rs
//@ path crypto::key::PublicKey => PublicKey
verus! {
pub type TokenId = u64;
pub type PoolId = u64;
pub type DelegationId = u64;
pub type OrderId = u64;
pub type ScriptId = u64;
// (data that is not looked into)
#[verifier::external_body]
pub struct PublicKey { d: u64 }
#[verifier::external_body]
pub struct PublicKeyHash { d: u64 }
#[verifier::external_body]
pub struct VRFPublicKey { d: u64 }
#[verifier::external_body]
pub struct PerThousand { d: u64 }
#[verifier::external_body]
pub struct TokenData { d: u64 }
#[verifier::external_body]
pub struct TokenIssuance { d: u64 }
#[verifier::external_body]
pub struct NftIssuance { d: u64 }
#[verifier::external_body]
pub struct OrderData { d: u64 }
//@ include outpoint.vrs
#[verifier::external_body]
pub struct IsTokenUnfreezable { d: u64 }
#[verifier::external_body]
pub struct HtlcSecretHash { d: u64 }
impl HtlcSecretHash {
    pub uninterp spec fn bytes(&self) -> [u8; 20];
    #[verifier::external_body]
    pub fn to_fixed_bytes(&self) -> (r: [u8; 20]) ensures r == self.bytes() { unimplemented!() }
}
//@ include ids.vrs
#[verifier::external_body]
pub struct Script { d: u64 }
//@ enum TT Destination
impl Destination { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ enum TV OutputValue
//@ struct TH HashedTimelockContract
//@ struct TS StakePoolData
//@ impl TS impl StakePoolData
//@ fn staker
//@|    ensures *r == self.staker
//@ fn decommission_key
//@|    ensures *r == self.decommission_key
//@ endimpl
//@ enum TT TxOutput
//@ enum TO AccountSpending
//@ enum TO AccountCommand
//@ enum TO OrderAccountCommand
#[derive(Clone, Copy)]
pub struct AccountNonce(pub u64);
//@ struct TO AccountOutPoint
//@ impl TO impl AccountOutPoint
//@ fn account
//@|    ensures *r == self.account
//@ fn nonce
//@|    ensures r == self.nonce
//@ endimpl
//@ enum TI TxInput
//@ enum TW InputWitness
//@ enum TG EvaluatedInputWitness
} // verus!
