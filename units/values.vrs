// The constrained value accumulator: what inputs bring, what outputs take, and the fee that is left.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
//@ source Q chainstate/constraints-value-accumulator/src/constraints_accumulator.rs
//@ source F chainstate/constraints-value-accumulator/src/accumulated_fee.rs
//@ source L chainstate/constraints-value-accumulator/src/lib.rs
//@ source E chainstate/constraints-value-accumulator/src/error.rs
//@ source V common/src/chain/transaction/output/output_value.rs
//@ source T common/src/chain/transaction/output/mod.rs
//@ source K common/src/chain/transaction/output/timelock.rs
//@ source P common/src/primitives/mod.rs
//@ source O common/src/chain/transaction/account_outpoint.rs
//@ source X common/src/chain/upgrades/chainstate_upgrade/mod.rs
//@ path std::ops::Bound => Bound
//@ path super::insert_or_increase => insert_or_increase
//@ path crate::Error => Error
//@ path pos_accounting::Error => PosError
//@ path tokens_accounting::Error => TokError
//@ path orders_accounting::Error => OrdError
//@ path orders_accounting::calculate_fill_order => calculate_fill_order
//@ path pos_accounting::PoSAccountingDelta => PoSAccountingDelta
//@ path tokens_accounting::TokensAccountingCache => TokensAccountingCache
//@ path orders_accounting::OrdersAccountingCache => OrdersAccountingCache
//@ source I common/src/chain/transaction/input.rs
verus! {
global size_of usize == 8;
//@ include amount.vrs
pub type TokenId = u64;
pub type PoolId = u64;
pub type DelegationId = u64;
pub type OrderId = u64;
#[derive(Clone, Copy)]
pub struct BlockHeight(pub u64);
#[derive(Clone, Copy)]
pub struct BlockTimestamp(pub u64);
pub struct BlockCount(pub u64);
impl BlockCount { pub fn to_int(&self) -> (r: u64) ensures r == self.0 { self.0 } }
pub struct Fee(pub Amount);
pub struct Subsidy(pub Amount);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct NonZeroU64 { pub n: u64 }
impl NonZeroU64 {
    pub fn new(n: u64) -> (r: Option<NonZeroU64>) ensures r == (if n != 0 { Some(NonZeroU64 { n }) } else { None }) { if n != 0 { Some(NonZeroU64 { n }) } else { None } }
    pub fn get(&self) -> (r: u64) ensures r == self.n { self.n }
}
// keys, contracts and data that are not looked into
#[verifier::external_body]
pub struct Destination { d: u64 }
#[verifier::external_body]
pub struct TokenData { d: u64 }
#[verifier::external_body]
pub struct HashedTimelockContract { d: u64 }
#[verifier::external_body]
pub struct TokenIssuance { d: u64 }
#[verifier::external_body]
pub struct NftIssuance { d: u64 }
#[verifier::external_body]
pub struct UtxoOutPoint { d: u64 }
#[verifier::external_body]
pub struct IsTokenUnfreezable { d: u64 }
impl UtxoOutPoint { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct StakePoolData { pub pledge: Amount }
impl StakePoolData { pub fn pledge(&self) -> (r: Amount) ensures r == self.pledge { self.pledge } }
//@ enum V OutputValue
//@ enum K OutputTimeLock derive Clone,Copy
pub struct OrderData { pub ask: OutputValue, pub give: OutputValue }
impl OrderData { pub fn ask(&self) -> (r: &OutputValue) ensures *r == self.ask { &self.ask } pub fn give(&self) -> (r: &OutputValue) ensures *r == self.give { &self.give } }
//@ enum T TxOutput
//@ enum P CoinOrTokenId derive Clone,Copy,PartialEq,Eq,PartialOrd,Ord
//@ enum O AccountSpending
//@ enum O AccountCommand
//@ enum O OrderAccountCommand
#[derive(Clone, Copy)]
pub struct AccountNonce(pub u64);
pub struct AccountOutPoint { pub nonce: AccountNonce, pub account: AccountSpending }
impl AccountOutPoint { pub fn account(&self) -> (r: &AccountSpending) ensures *r == self.account { &self.account } }
//@ enum I TxInput
//@ enum X OrdersVersion derive Clone,Copy
pub enum AccountType { Delegation(DelegationId), Token(TokenId), Order(OrderId) }
pub enum PosError { ViewFail, Other(u8) }
pub enum TokError { ViewFail, Other(u8) }
pub enum OrdError { ViewFail, OrderDataNotFound(OrderId), Other(u8) }
//@ enum E Error
//@ struct Q ConstrainedValueAccumulator
//@ struct F AccumulatedFee
impl vstd::std_specs::convert::FromSpecImpl<PosError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: PosError) -> Error { Error::PoSAccountingError(e) } }
impl core::convert::From<PosError> for Error { fn from(e: PosError) -> (r: Error) { Error::PoSAccountingError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<TokError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: TokError) -> Error { Error::TokensAccountingError(e) } }
impl core::convert::From<TokError> for Error { fn from(e: TokError) -> (r: Error) { Error::TokensAccountingError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<OrdError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: OrdError) -> Error { Error::OrdersAccountingError(e) } }
impl core::convert::From<OrdError> for Error { fn from(e: OrdError) -> (r: Error) { Error::OrdersAccountingError(e) } }

/// std's map, with the parts of it that are lent out
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<(K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K, V> { k: &'a mut Vec<(K, V)> }
impl<'a, K, V> Entry<'a, K, V> {
    pub uninterp spec fn at(&self) -> (Map<K, V>, K);
    pub uninterp spec fn fin(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V) ensures *r == (if self.at().0.contains_key(self.at().1) { self.at().0[self.at().1] } else { v }), self.fin() == self.at().0.insert(self.at().1, *final(r)) { unimplemented!() }
}
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn map(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.map() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter(x: [(K, V); 1]) -> (r: Self) ensures r.map() == Map::<K, V>::empty().insert(x@[0].0, x@[0].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(x) => self.map().contains_key(*k) && *x == self.map()[*k], None => !self.map().contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>) ensures match r { Some(x) => old(self).map().contains_key(*k) && *x == old(self).map()[*k] && final(self).map() == old(self).map().insert(*k, *final(x)), None => !old(self).map().contains_key(*k) && final(self).map() == old(self).map() } { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>) ensures r.at() == (old(self).map(), k), r.fin() == final(self).map() { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_iter(self) -> (r: MapIter<K, V>) ensures r.rest() == self.map() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapIter<K, V> { k: Vec<(K, V)> }
impl<K, V> MapIter<K, V> {
    pub uninterp spec fn rest(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<(K, V)>)
        ensures match r { Some(x) => old(self).rest().contains_key(x.0) && x.1 == old(self).rest()[x.0] && final(self).rest() == old(self).rest().remove(x.0) && old(self).rest().dom().len() > 0, None => old(self).rest() == Map::<K, V>::empty() && final(self).rest() == old(self).rest() } { unimplemented!() }
}
/// std's iterators over slices
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T> { k: &'a [T] }
pub trait VfSlice<T> { fn vf_iter(&self) -> (r: SliceIter<'_, T>) ensures r.rest() == self.seq(); spec fn seq(&self) -> Seq<T>; }
impl<T> VfSlice<T> for [T] { open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_iter(&self) -> (r: SliceIter<'_, T>) { unimplemented!() } }
impl<'a, T> SliceIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    pub fn vf_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<&'a T>) ensures match r { Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_zip<U>(self, o: SliceIter<'a, U>) -> (r: ZipIter<'a, T, U>) ensures r.rest() == (self.rest(), o.rest()) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(U)]
pub struct ZipIter<'a, T, U> { k: &'a [(T, U)] }
impl<'a, T, U> ZipIter<'a, T, U> {
    pub uninterp spec fn rest(&self) -> (Seq<T>, Seq<U>);
    pub fn vf_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<(&'a T, &'a U)>) ensures ({ let (a, b) = old(self).rest(); match r { Some(x) => a.len() > 0 && b.len() > 0 && *x.0 == a[0] && *x.1 == b[0] && final(self).rest() == (a.drop_first(), b.drop_first()), None => (a.len() == 0 || b.len() == 0) && final(self).rest() == old(self).rest() } }) { unimplemented!() }
}
pub open spec fn amount_at<K>(m: Map<K, Amount>, k: K) -> int { if m.contains_key(k) { m[k].atoms as int } else { 0 } }
/// what is locked for at most n blocks
pub open spec fn locked_to(m: Map<NonZeroU64, Amount>, n: int) -> int decreases n { if n <= 0 { 0 } else { locked_to(m, n - 1) + amount_at(m, NonZeroU64 { n: n as u64 }) } }
pub open spec fn locked_over(m: Map<NonZeroU64, Amount>, n: int) -> int { locked_to(m, u64::MAX as int) - locked_to(m, n) }

//@ fn L insert_or_increase
//@|    ensures r is Ok <==> amount_at(old(collection).map(), key) + amount.atoms <= u128::MAX,
//@|        r is Ok ==> final(collection).map() == old(collection).map().insert(key, Amount { atoms: (amount_at(old(collection).map(), key) + amount.atoms) as u128 })
//@ fn Q decrease_or
//@|    ensures r is Ok <==> amount_at(old(total_amounts).map(), key) >= amount.atoms,
//@|        r is Ok ==> (forall|k: CoinOrTokenId| #[trigger] amount_at(final(total_amounts).map(), k) == amount_at(old(total_amounts).map(), k) - (if k == key { amount.atoms as int } else { 0 }))
//@|            && (forall|k: CoinOrTokenId| #[trigger] final(total_amounts).map().contains_key(k) == old(total_amounts).map().contains_key(k))
//@ fn Q output_value_amount
//@|    ensures match r { Ok(a) => value_of(*value) == Some(a.atoms as int), Err(_) => value_of(*value) is None }
pub open spec fn value_of(v: OutputValue) -> Option<int> { match v { OutputValue::Coin(a) => Some(a.atoms as int), OutputValue::TokenV1(_, a) => Some(a.atoms as int), OutputValue::TokenV0(_) => None } }
pub open spec fn currency_of(v: OutputValue) -> Option<CoinOrTokenId> { match v { OutputValue::Coin(a) => Some(CoinOrTokenId::Coin), OutputValue::TokenV1(t, a) => Some(CoinOrTokenId::TokenId(t)), OutputValue::TokenV0(_) => None } }
/// how much of a currency a value is
pub open spec fn worth(v: OutputValue, c: CoinOrTokenId) -> int { if currency_of(v) == Some(c) { value_of(v)->0 } else { 0 } }
//@ impl P impl CoinOrTokenId
//@ fn from_output_value
//@|    ensures r == currency_of(*value)
//@ endimpl
/// what is there of a currency, free; and what is locked for n blocks
pub open spec fn free(a: ConstrainedValueAccumulator, c: CoinOrTokenId) -> int { amount_at(a.unconstrained_value.map(), c) }
pub open spec fn locked(a: ConstrainedValueAccumulator, n: u64) -> int { amount_at(a.timelock_constrained.map(), NonZeroU64 { n }) }
/// nothing is locked for no blocks
pub open spec fn wf(a: ConstrainedValueAccumulator) -> bool { !a.timelock_constrained.map().contains_key(NonZeroU64 { n: 0 }) }
/// b is a with that much more of each free currency, and of the coins locked for each number of blocks
pub open spec fn grown(a: ConstrainedValueAccumulator, b: ConstrainedValueAccumulator, f: spec_fn(CoinOrTokenId) -> int, l: spec_fn(u64) -> int) -> bool {
    &&& forall|c: CoinOrTokenId| #[trigger] free(b, c) == free(a, c) + f(c)
    &&& forall|n: u64| #[trigger] locked(b, n) == locked(a, n) + l(n)
    &&& wf(a) ==> wf(b)
}
pub open spec fn coins(c: CoinOrTokenId, x: int) -> int { if c is Coin { x } else { 0 } }
/// what is charged for what is done
#[verifier::external_body]
pub struct ChainConfig { c: u64 }
#[verifier::external_body]
pub struct Upgrades { c: u64 }
#[verifier::external_body]
pub struct Upgrade { c: u64 }
impl Upgrade { pub uninterp spec fn orders(&self) -> OrdersVersion; #[verifier::external_body] pub fn orders_version(&self) -> (r: OrdersVersion) ensures r == self.orders() { unimplemented!() } }
impl Upgrades { pub uninterp spec fn at(&self, h: BlockHeight) -> Upgrade; #[verifier::external_body] pub fn version_at_height(&self, h: BlockHeight) -> (r: (BlockHeight, &Upgrade)) ensures *r.1 == self.at(h) { unimplemented!() } }
impl ChainConfig {
    pub uninterp spec fn maturity(&self, h: BlockHeight) -> u64;
    pub uninterp spec fn data_fee(&self, h: BlockHeight) -> Amount;
    pub uninterp spec fn issue_fee(&self) -> Amount;
    pub uninterp spec fn nft_fee(&self, h: BlockHeight) -> Amount;
    pub uninterp spec fn supply_fee(&self, h: BlockHeight) -> Amount;
    pub uninterp spec fn freeze_fee(&self, h: BlockHeight) -> Amount;
    pub uninterp spec fn authority_fee(&self, h: BlockHeight) -> Amount;
    pub uninterp spec fn uri_fee(&self) -> Amount;
    pub uninterp spec fn upgrades(&self) -> Upgrades;
    #[verifier::external_body] pub fn staking_pool_spend_maturity_block_count(&self, h: BlockHeight) -> (r: BlockCount) ensures r.0 == self.maturity(h) { unimplemented!() }
    #[verifier::external_body] pub fn data_deposit_fee(&self, h: BlockHeight) -> (r: Amount) ensures r == self.data_fee(h) { unimplemented!() }
    #[verifier::external_body] pub fn fungible_token_issuance_fee(&self) -> (r: Amount) ensures r == self.issue_fee() { unimplemented!() }
    #[verifier::external_body] pub fn nft_issuance_fee(&self, h: BlockHeight) -> (r: Amount) ensures r == self.nft_fee(h) { unimplemented!() }
    #[verifier::external_body] pub fn token_supply_change_fee(&self, h: BlockHeight) -> (r: Amount) ensures r == self.supply_fee(h) { unimplemented!() }
    #[verifier::external_body] pub fn token_freeze_fee(&self, h: BlockHeight) -> (r: Amount) ensures r == self.freeze_fee(h) { unimplemented!() }
    #[verifier::external_body] pub fn token_change_authority_fee(&self, h: BlockHeight) -> (r: Amount) ensures r == self.authority_fee(h) { unimplemented!() }
    #[verifier::external_body] pub fn token_change_metadata_uri_fee(&self) -> (r: Amount) ensures r == self.uri_fee() { unimplemented!() }
    #[verifier::external_body] pub fn chainstate_upgrades(&self) -> (r: &Upgrades) ensures *r == self.upgrades() { unimplemented!() }
}

// ---- outputs
pub open spec fn lock_of(l: OutputTimeLock) -> u64 { match l { OutputTimeLock::ForBlockCount(n) => n, _ => 0 } }
/// what an output takes of a free currency
pub open spec fn takes(cfg: ChainConfig, h: BlockHeight, o: TxOutput, c: CoinOrTokenId) -> int {
    match o {
        TxOutput::Transfer(v, _) => worth(v, c), TxOutput::Burn(v) => worth(v, c), TxOutput::Htlc(v, _) => worth(v, c),
        TxOutput::LockThenTransfer(v, _, l) => if v is Coin && lock_of(l) != 0 { 0 } else { worth(v, c) },
        TxOutput::DelegateStaking(x, _) => coins(c, x.atoms as int),
        TxOutput::CreateStakePool(_, d) => coins(c, d.pledge.atoms as int),
        TxOutput::ProduceBlockFromStake(_, _) => 0, TxOutput::CreateDelegationId(_, _) => 0,
        TxOutput::DataDeposit(_) => coins(c, cfg.data_fee(h).atoms as int),
        TxOutput::IssueFungibleToken(_) => coins(c, cfg.issue_fee().atoms as int),
        TxOutput::IssueNft(_, _, _) => coins(c, cfg.nft_fee(h).atoms as int),
        TxOutput::CreateOrder(d) => worth(d.give, c),
    }
}
/// what an output takes of coins, to be locked for n blocks
pub open spec fn takes_locked(o: TxOutput, n: u64) -> int { match o { TxOutput::LockThenTransfer(v, _, l) => if v is Coin && n != 0 && lock_of(l) == n { worth(v, CoinOrTokenId::Coin) } else { 0 }, _ => 0 } }
pub open spec fn all_take(cfg: ChainConfig, h: BlockHeight, os: Seq<TxOutput>, n: int, c: CoinOrTokenId) -> int decreases n { if n <= 0 { 0 } else { all_take(cfg, h, os, n - 1, c) + takes(cfg, h, os[n - 1], c) } }
pub open spec fn all_take_locked(os: Seq<TxOutput>, n: int, l: u64) -> int decreases n { if n <= 0 { 0 } else { all_take_locked(os, n - 1, l) + takes_locked(os[n - 1], l) } }
//@ impl Q impl ConstrainedValueAccumulator
//@ fn new
//@|    ensures r.unconstrained_value.map() == Map::<CoinOrTokenId, Amount>::empty(), r.timelock_constrained.map() == Map::<NonZeroU64, Amount>::empty()
//@ . replace Default::default() =>> BTreeMap::default()
//@ fn from_block_reward
//@ . replace Default::default() =>> BTreeMap::default()
//@|    ensures match r { Some(a) => wf(a) && (forall|c: CoinOrTokenId| #[trigger] free(a, c) == coins(c, total_fee.0.atoms + subsidy.0.atoms)) && (forall|n: u64| #[trigger] locked(a, n) == 0), None => total_fee.0.atoms + subsidy.0.atoms > u128::MAX }
//@ fn process_output_timelock
//@|    ensures r is Ok ==> grown(*old(self), *final(self), |c: CoinOrTokenId| if lock_of(*timelock) == 0 { coins(c, locked_coins.atoms as int) } else { 0 }, |n: u64| if n != 0 && n == lock_of(*timelock) { locked_coins.atoms as int } else { 0 })
//@ fn from_outputs
//@|    ensures r matches Ok(a) ==> wf(a) && (forall|c: CoinOrTokenId| #[trigger] free(a, c) == all_take(*chain_config, block_height, outputs@, outputs@.len() as int, c))
//@|        && (forall|n: u64| #[trigger] locked(a, n) == all_take_locked(outputs@, outputs@.len() as int, n))
//@ . opt fornext
//@ . proof start
//@|    let ghost mut i: int = 0;
//@ . loop 0
//@|    invariant 0 <= i <= outputs@.len(), vf_it0.rest() == outputs@.skip(i), wf(accumulator),
//@|        forall|c: CoinOrTokenId| #[trigger] free(accumulator, c) == all_take(*chain_config, block_height, outputs@, i, c),
//@|        forall|n: u64| #[trigger] locked(accumulator, n) == all_take_locked(outputs@, i, n)
//@|    ensures i == outputs@.len()
//@|    decreases outputs@.len() - i
//@ . proof loop 0 start
//@|    let ghost was = accumulator;
//@ . proof loop 0 end
//@|    proof {
//@|        let output = outputs@[i];
//@|        assert forall|c: CoinOrTokenId| #[trigger] free(accumulator, c) == all_take(*chain_config, block_height, outputs@, i + 1, c) by { assert(free(was, c) == all_take(*chain_config, block_height, outputs@, i, c)); assert(free(accumulator, c) == free(was, c) + takes(*chain_config, block_height, output, c)); }
//@|        assert forall|n: u64| #[trigger] locked(accumulator, n) == all_take_locked(outputs@, i + 1, n) by { assert(locked(was, n) == all_take_locked(outputs@, i, n)); assert(locked(accumulator, n) == locked(was, n) + takes_locked(output, n)); }
//@|        i = i + 1; assert(vf_it0.rest() =~= outputs@.skip(i));
//@|    }
//@ endimpl

// ---- inputs
pub struct PoolData { pub staker: Amount }
impl PoolData { #[verifier::external_body] pub fn staker_balance(&self) -> (r: core::result::Result<Amount, PosError>) ensures r matches Ok(x) ==> x == self.staker { unimplemented!() } }
pub trait VfTranspose<T, E>: Sized { spec fn turned(self) -> core::result::Result<Option<T>, E>; fn vf_transpose(self) -> (r: core::result::Result<Option<T>, E>) ensures r == self.turned(); }
impl<T, E> VfTranspose<T, E> for Option<core::result::Result<T, E>> {
    open spec fn turned(self) -> core::result::Result<Option<T>, E> { match self { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
    fn vf_transpose(self) -> (r: core::result::Result<Option<T>, E>) { match self { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
}
pub trait PoSAccountingView: Sized {
    type Error;
    spec fn pool(&self, p: PoolId) -> Option<PoolData>;
    spec fn held(&self, d: DelegationId) -> int;
    fn get_pool_data(&self, p: PoolId) -> (r: core::result::Result<Option<PoolData>, Self::Error>) ensures r matches Ok(x) ==> x == self.pool(p);
    fn get_delegation_balance(&self, d: DelegationId) -> (r: core::result::Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.held(d);
}
pub struct PoSAccountingUndo { }
pub trait PoSAccountingOperations<U>: PoSAccountingView {
    fn spend_share_from_delegation_id(&mut self, d: DelegationId, amount: Amount) -> (r: core::result::Result<U, PosError>)
        ensures r is Ok ==> (forall|j: DelegationId| #[trigger] final(self).held(j) == old(self).held(j) - (if j == d { amount.atoms as int } else { 0 })) && (forall|p: PoolId| #[trigger] final(self).pool(p) == old(self).pool(p));
}
pub trait TokensAccountingView: Sized {
    type Error;
    spec fn supply(&self, t: TokenId) -> int;
    fn get_circulating_supply(&self, t: &TokenId) -> (r: core::result::Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.supply(*t);
}
pub struct TokenAccountingUndo { }
pub trait TokensAccountingOperations: TokensAccountingView {
    fn mint_tokens(&mut self, t: TokenId, amount: Amount) -> (r: core::result::Result<TokenAccountingUndo, TokError>)
        ensures r is Ok ==> (forall|j: TokenId| #[trigger] final(self).supply(j) == old(self).supply(j) + (if j == t { amount.atoms as int } else { 0 }));
}
pub trait OrdersAccountingView: Sized {
    type Error;
    spec fn order(&self, o: OrderId) -> Option<OrderData>;
    spec fn ask(&self, o: OrderId) -> int;
    spec fn give(&self, o: OrderId) -> int;
    fn get_order_data(&self, o: &OrderId) -> (r: core::result::Result<Option<OrderData>, Self::Error>) ensures r matches Ok(x) ==> x == self.order(*o);
    fn get_ask_balance(&self, o: &OrderId) -> (r: core::result::Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.ask(*o);
    fn get_give_balance(&self, o: &OrderId) -> (r: core::result::Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.give(*o);
}
pub struct OrdersAccountingUndo { }
/// what a fill pays, by the version of the rules and what the order asks and gives: see C20
pub uninterp spec fn paid(v: OrdersVersion, o: OrderData, ask: int, give: int, fill: int) -> int;
pub open spec fn pay<V: OrdersAccountingView>(c: V, v: OrdersVersion, o: OrderId, fill: int) -> int { paid(v, c.order(o)->0, c.ask(o), c.give(o), fill) }
#[verifier::external_body]
pub fn calculate_fill_order<V: OrdersAccountingView>(view: &V, o: OrderId, fill: Amount, v: OrdersVersion) -> (r: core::result::Result<Amount, OrdError>) ensures r matches Ok(x) ==> view.order(o) is Some && x.atoms == pay(*view, v, o, fill.atoms as int) { unimplemented!() }
/// only one order's state is different
pub open spec fn order_only<V: OrdersAccountingView>(a: V, b: V, o: OrderId, d: Option<OrderData>, ask: int, give: int) -> bool {
    (forall|j: OrderId| #[trigger] b.order(j) == (if j == o { d } else { a.order(j) })) && (forall|j: OrderId| #[trigger] b.ask(j) == (if j == o { ask } else { a.ask(j) })) && (forall|j: OrderId| #[trigger] b.give(j) == (if j == o { give } else { a.give(j) }))
}
pub trait OrdersAccountingOperations: OrdersAccountingView {
    fn fill_order(&mut self, o: OrderId, fill: Amount, v: OrdersVersion) -> (r: core::result::Result<OrdersAccountingUndo, OrdError>)
        ensures r is Ok ==> old(self).order(o) is Some && order_only(*old(self), *final(self), o, old(self).order(o), old(self).ask(o) - fill.atoms, old(self).give(o) - pay(*old(self), v, o, fill.atoms as int));
    fn conclude_order(&mut self, o: OrderId) -> (r: core::result::Result<OrdersAccountingUndo, OrdError>)
        ensures r is Ok ==> old(self).order(o) is Some && order_only(*old(self), *final(self), o, None, 0, 0);
}
/// what an output that is spent brings, free and locked
pub open spec fn brings(u: TxOutput, staker: int, maturity: u64, c: CoinOrTokenId) -> int {
    match u {
        TxOutput::Transfer(v, _) => worth(v, c), TxOutput::LockThenTransfer(v, _, _) => worth(v, c), TxOutput::Htlc(v, _) => worth(v, c),
        TxOutput::IssueNft(t, _, _) => if c == CoinOrTokenId::TokenId(t) { 1 } else { 0 },
        TxOutput::DelegateStaking(x, _) => coins(c, x.atoms as int),
        TxOutput::CreateStakePool(_, _) => if maturity == 0 { coins(c, staker) } else { 0 },
        TxOutput::ProduceBlockFromStake(_, _) => if maturity == 0 { coins(c, staker) } else { 0 },
        _ => 0,
    }
}
pub open spec fn at(n: u64, m: u64, x: int) -> int { if n != 0 && n == m { x } else { 0 } }
pub open spec fn brings_locked(u: TxOutput, staker: int, maturity: u64, n: u64) -> int { match u { TxOutput::CreateStakePool(_, _) => at(n, maturity, staker), TxOutput::ProduceBlockFromStake(_, _) => at(n, maturity, staker), _ => 0 } }
pub open spec fn pool_of(u: TxOutput) -> Option<PoolId> { match u { TxOutput::CreateStakePool(p, _) => Some(p), TxOutput::ProduceBlockFromStake(_, p) => Some(p), _ => None } }
pub open spec fn spendable(u: TxOutput) -> bool { !(u is CreateDelegationId || u is IssueFungibleToken || u is Burn || u is DataDeposit || u is CreateOrder) }
pub open spec fn staker<P: PoSAccountingView>(v: P, u: TxOutput) -> int { match pool_of(u) { Some(p) => v.pool(p)->0.staker.atoms as int, None => 0 } }
pub open spec fn order_of(c: AccountCommand) -> Option<OrderId> { match c { AccountCommand::ConcludeOrder(o) => Some(o), AccountCommand::FillOrder(o, _, _) => Some(o), _ => None } }
pub open spec fn charge(cfg: ChainConfig, h: BlockHeight, c: AccountCommand) -> Amount {
    match c {
        AccountCommand::MintTokens(_, _) => cfg.supply_fee(h), AccountCommand::LockTokenSupply(_) => cfg.supply_fee(h), AccountCommand::UnmintTokens(_) => cfg.supply_fee(h),
        AccountCommand::FreezeToken(_, _) => cfg.freeze_fee(h), AccountCommand::UnfreezeToken(_) => cfg.freeze_fee(h),
        AccountCommand::ChangeTokenAuthority(_, _) => cfg.authority_fee(h), AccountCommand::ChangeTokenMetadataUri(_, _) => cfg.uri_fee(),
        _ => Amount { atoms: 0 },
    }
}
/// concluding brings what was paid in and what was not paid out
pub open spec fn concludes<V: OrdersAccountingView>(a: V, b: V, o: OrderId, x: ConstrainedValueAccumulator, y: ConstrainedValueAccumulator) -> bool {
    let d = a.order(o)->0;
    &&& a.order(o) is Some && order_only(a, b, o, None, 0, 0) && value_of(d.ask) is Some && value_of(d.give) is Some && value_of(d.ask)->0 >= a.ask(o)
    &&& grown(x, y, |c: CoinOrTokenId| (if currency_of(d.ask) == Some(c) { value_of(d.ask)->0 - a.ask(o) } else { 0 }) + (if currency_of(d.give) == Some(c) { a.give(o) } else { 0 }), |n: u64| 0)
}
/// filling brings what the order pays, which it has, for what it asks
pub open spec fn fills<V: OrdersAccountingView>(a: V, b: V, ver: OrdersVersion, o: OrderId, fill: int, x: ConstrainedValueAccumulator, y: ConstrainedValueAccumulator, cost: (CoinOrTokenId, Amount)) -> bool {
    let d = a.order(o)->0;
    let p = pay(a, ver, o, fill);
    &&& a.order(o) is Some && order_only(a, b, o, a.order(o), a.ask(o) - fill, a.give(o) - p) && a.ask(o) >= fill && a.give(o) >= p
    &&& currency_of(d.ask) == Some(cost.0) && cost.1.atoms == fill && currency_of(d.give) is Some
    &&& grown(x, y, |c: CoinOrTokenId| (if currency_of(d.give) == Some(c) { p } else { 0 }), |n: u64| 0)
}
//@ impl Q impl ConstrainedValueAccumulator
//@ fn process_input_utxo
//@ . method transpose => vf_transpose
//@|    ensures r is Ok ==> spendable(*input_utxo) && (pool_of(*input_utxo) matches Some(p) ==> pos_accounting_view.pool(p) is Some)
//@|        && ({ let (s, m) = (staker(*pos_accounting_view, *input_utxo), chain_config.maturity(block_height)); grown(*old(self), *final(self), |c: CoinOrTokenId| brings(*input_utxo, s, m, c), |n: u64| brings_locked(*input_utxo, s, m, n)) })
//@ fn process_input_account
//@|    ensures r is Ok ==> ({ let AccountSpending::DelegationBalance(d, x) = *account; let m = chain_config.maturity(block_height);
//@|        old(pos_accounting_delta).held(d) >= x.atoms && (forall|j: DelegationId| #[trigger] final(pos_accounting_delta).held(j) == old(pos_accounting_delta).held(j) - (if j == d { x.atoms as int } else { 0 }))
//@|        && (forall|p: PoolId| #[trigger] final(pos_accounting_delta).pool(p) == old(pos_accounting_delta).pool(p))
//@|        && grown(*old(self), *final(self), |c: CoinOrTokenId| if m == 0 { coins(c, x.atoms as int) } else { 0 }, |n: u64| at(n, m, x.atoms as int)) })
//@ fn process_conclude_order_command
//@|    ensures r matches Ok(x) ==> x == (CoinOrTokenId::Coin, Amount { atoms: 0 }) && concludes(*old(orders_accounting_delta), *final(orders_accounting_delta), id, *old(self), *final(self))
//@ fn process_fill_order_command
//@ . replace &orders_accounting_delta =>> &*orders_accounting_delta
//@|    ensures r matches Ok(x) ==> fills(*old(orders_accounting_delta), *final(orders_accounting_delta), chain_config.upgrades().at(block_height).orders(), order_id, fill_amount_in_ask_currency.atoms as int, *old(self), *final(self), x)
//@ endimpl

//@ impl Q impl ConstrainedValueAccumulator
//@ fn process_input_account_command
//@|    ensures r matches Ok(x) ==> match *command {
//@|        AccountCommand::ConcludeOrder(o) => x == (CoinOrTokenId::Coin, Amount { atoms: 0 }) && concludes(*old(orders_accounting_delta), *final(orders_accounting_delta), o, *old(self), *final(self)),
//@|        AccountCommand::FillOrder(o, f, _) => fills(*old(orders_accounting_delta), *final(orders_accounting_delta), chain_config.upgrades().at(block_height).orders(), o, f.atoms as int, *old(self), *final(self), x),
//@|        AccountCommand::MintTokens(t, a) => x == (CoinOrTokenId::Coin, charge(*chain_config, block_height, *command)) && *final(orders_accounting_delta) == *old(orders_accounting_delta) && grown(*old(self), *final(self), |c: CoinOrTokenId| if c == CoinOrTokenId::TokenId(t) { a.atoms as int } else { 0 }, |n: u64| 0),
//@|        _ => x == (CoinOrTokenId::Coin, charge(*chain_config, block_height, *command)) && *final(orders_accounting_delta) == *old(orders_accounting_delta) && *final(self) == *old(self),
//@|    }
//@ fn process_input_order_account_command
//@|    ensures r matches Ok(x) ==> match *command {
//@|        OrderAccountCommand::ConcludeOrder(o) => x == Some((CoinOrTokenId::Coin, Amount { atoms: 0 })) && concludes(*old(orders_accounting_delta), *final(orders_accounting_delta), o, *old(self), *final(self)),
//@|        OrderAccountCommand::FillOrder(o, f) => x is Some && fills(*old(orders_accounting_delta), *final(orders_accounting_delta), chain_config.upgrades().at(block_height).orders(), o, f.atoms as int, *old(self), *final(self), x->0),
//@|        OrderAccountCommand::FreezeOrder(_) => x is None && *final(orders_accounting_delta) == *old(orders_accounting_delta) && *final(self) == *old(self),
//@|    }
//@ endimpl
// what the inputs change is kept over the views: see C20, C21, C22
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct PoSAccountingDelta<P> { p: Vec<P> }
impl<P: PoSAccountingView> PoSAccountingDelta<P> {
    #[verifier::external_body]
    pub fn new(v: &P) -> (r: Self) ensures forall|p: PoolId| #[trigger] r.pool(p) == v.pool(p), forall|d: DelegationId| #[trigger] r.held(d) == v.held(d) { unimplemented!() }
}
impl<P: PoSAccountingView> PoSAccountingView for PoSAccountingDelta<P> {
    type Error = PosError;
    uninterp spec fn pool(&self, p: PoolId) -> Option<PoolData>;
    uninterp spec fn held(&self, d: DelegationId) -> int;
    #[verifier::external_body] fn get_pool_data(&self, p: PoolId) -> (r: core::result::Result<Option<PoolData>, PosError>) { unimplemented!() }
    #[verifier::external_body] fn get_delegation_balance(&self, d: DelegationId) -> (r: core::result::Result<Amount, PosError>) { unimplemented!() }
}
impl<P: PoSAccountingView> PoSAccountingOperations<PoSAccountingUndo> for PoSAccountingDelta<P> {
    #[verifier::external_body] fn spend_share_from_delegation_id(&mut self, d: DelegationId, amount: Amount) -> (r: core::result::Result<PoSAccountingUndo, PosError>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct TokensAccountingCache<P> { p: Vec<P> }
impl<P: TokensAccountingView> TokensAccountingCache<P> {
    #[verifier::external_body]
    pub fn new(v: &P) -> (r: Self) ensures forall|t: TokenId| #[trigger] r.supply(t) == v.supply(t) { unimplemented!() }
}
impl<P: TokensAccountingView> TokensAccountingView for TokensAccountingCache<P> {
    type Error = TokError;
    uninterp spec fn supply(&self, t: TokenId) -> int;
    #[verifier::external_body] fn get_circulating_supply(&self, t: &TokenId) -> (r: core::result::Result<Amount, TokError>) { unimplemented!() }
}
impl<P: TokensAccountingView> TokensAccountingOperations for TokensAccountingCache<P> {
    #[verifier::external_body] fn mint_tokens(&mut self, t: TokenId, amount: Amount) -> (r: core::result::Result<TokenAccountingUndo, TokError>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct OrdersAccountingCache<P> { p: Vec<P> }
impl<P: OrdersAccountingView> OrdersAccountingCache<P> {
    #[verifier::external_body]
    pub fn new(v: &P) -> (r: Self) ensures forall|o: OrderId| #[trigger] r.order(o) == v.order(o), forall|o: OrderId| #[trigger] r.ask(o) == v.ask(o), forall|o: OrderId| #[trigger] r.give(o) == v.give(o) { unimplemented!() }
}
impl<P: OrdersAccountingView> OrdersAccountingView for OrdersAccountingCache<P> {
    type Error = OrdError;
    uninterp spec fn order(&self, o: OrderId) -> Option<OrderData>;
    uninterp spec fn ask(&self, o: OrderId) -> int;
    uninterp spec fn give(&self, o: OrderId) -> int;
    #[verifier::external_body] fn get_order_data(&self, o: &OrderId) -> (r: core::result::Result<Option<OrderData>, OrdError>) { unimplemented!() }
    #[verifier::external_body] fn get_ask_balance(&self, o: &OrderId) -> (r: core::result::Result<Amount, OrdError>) { unimplemented!() }
    #[verifier::external_body] fn get_give_balance(&self, o: &OrderId) -> (r: core::result::Result<Amount, OrdError>) { unimplemented!() }
}
impl<P: OrdersAccountingView> OrdersAccountingOperations for OrdersAccountingCache<P> {
    #[verifier::external_body] fn fill_order(&mut self, o: OrderId, fill: Amount, v: OrdersVersion) -> (r: core::result::Result<OrdersAccountingUndo, OrdError>) { unimplemented!() }
    #[verifier::external_body] fn conclude_order(&mut self, o: OrderId) -> (r: core::result::Result<OrdersAccountingUndo, OrdError>) { unimplemented!() }
}
/// What an input does: the free values and locked coins it brings, what it costs, and what it takes out of a delegation and an order,
/// and puts into an order
pub ghost struct Step { pub f: spec_fn(CoinOrTokenId) -> int, pub l: spec_fn(u64) -> int, pub d: spec_fn(CoinOrTokenId) -> int, pub h: (DelegationId, int), pub g: (OrderId, int), pub a: (OrderId, int) }
pub open spec fn sum_f(s: Seq<Step>, c: CoinOrTokenId) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_f(s.drop_last(), c) + (s.last().f)(c) } }
pub open spec fn sum_l(s: Seq<Step>, n: u64) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_l(s.drop_last(), n) + (s.last().l)(n) } }
pub open spec fn sum_d(s: Seq<Step>, c: CoinOrTokenId) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_d(s.drop_last(), c) + (s.last().d)(c) } }
pub open spec fn to(x: (u64, int), k: u64) -> int { if x.0 == k { x.1 } else { 0 } }
pub open spec fn sum_h(s: Seq<Step>, k: u64) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_h(s.drop_last(), k) + to(s.last().h, k) } }
pub open spec fn sum_g(s: Seq<Step>, k: u64) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_g(s.drop_last(), k) + to(s.last().g, k) } }
pub open spec fn sum_a(s: Seq<Step>, k: u64) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_a(s.drop_last(), k) + to(s.last().a, k) } }
pub open spec fn none() -> (u64, int) { (0, 0) }
pub open spec fn side(v: OutputValue, c: CoinOrTokenId, x: int) -> int { if currency_of(v) == Some(c) { x } else { 0 } }
/// a step in which an order is filled
pub open spec fn fill_step<O: OrdersAccountingView>(ov: O, o: OrderId, x: int, before: Seq<Step>, s: Step) -> bool {
    &&& ov.order(o) is Some && s.h == none() && s.g.0 == o && s.g.1 <= ov.give(o) - sum_g(before, o) && s.a == (o, x) && x <= ov.ask(o) - sum_a(before, o)
    &&& forall|c: CoinOrTokenId| #[trigger] (s.f)(c) == side(ov.order(o)->0.give, c, s.g.1)
    &&& forall|c: CoinOrTokenId| #[trigger] (s.d)(c) == side(ov.order(o)->0.ask, c, x)
    &&& forall|n: u64| #[trigger] (s.l)(n) == 0
}
/// a step in which an order is concluded
pub open spec fn conclude_step<O: OrdersAccountingView>(ov: O, o: OrderId, before: Seq<Step>, s: Step) -> bool {
    &&& ov.order(o) is Some && s.h == none() && s.g == (o, ov.give(o) - sum_g(before, o)) && s.a == none()
    &&& ({ let d = ov.order(o)->0; let paid_in = value_of(d.ask)->0 - ov.ask(o) + sum_a(before, o); paid_in >= 0 && (forall|c: CoinOrTokenId| #[trigger] (s.f)(c) == side(d.ask, c, paid_in) + side(d.give, c, s.g.1)) })
    &&& forall|c: CoinOrTokenId| #[trigger] (s.d)(c) == 0
    &&& forall|n: u64| #[trigger] (s.l)(n) == 0
}
pub open spec fn plain(s: Step, f: spec_fn(CoinOrTokenId) -> int, l: spec_fn(u64) -> int, d: int) -> bool {
    &&& s.g == none() && s.a == none()
    &&& forall|c: CoinOrTokenId| #[trigger] (s.f)(c) == f(c)
    &&& forall|n: u64| #[trigger] (s.l)(n) == l(n)
    &&& forall|c: CoinOrTokenId| #[trigger] (s.d)(c) == coins(c, d)
}
pub open spec fn explains<O: OrdersAccountingView, P: PoSAccountingView>(cfg: ChainConfig, h: BlockHeight, ov: O, pv: P, i: TxInput, u: Option<TxOutput>, before: Seq<Step>, s: Step) -> bool {
    let m = cfg.maturity(h);
    match i {
        TxInput::Utxo(_) => u is Some && spendable(u->0) && (pool_of(u->0) matches Some(p) ==> pv.pool(p) is Some) && s.h == none()
            && ({ let x = staker(pv, u->0); plain(s, |c: CoinOrTokenId| brings(u->0, x, m, c), |n: u64| brings_locked(u->0, x, m, n), 0) }),
        TxInput::Account(a) => ({ let AccountSpending::DelegationBalance(d, x) = a.account; s.h == (d, x.atoms as int) && plain(s, |c: CoinOrTokenId| if m == 0 { coins(c, x.atoms as int) } else { 0 }, |n: u64| at(n, m, x.atoms as int), 0) }),
        TxInput::AccountCommand(_, AccountCommand::FillOrder(o, x, _)) => fill_step(ov, o, x.atoms as int, before, s),
        TxInput::AccountCommand(_, AccountCommand::ConcludeOrder(o)) => conclude_step(ov, o, before, s),
        TxInput::AccountCommand(_, k) => s.h == none() && plain(s, |c: CoinOrTokenId| match k { AccountCommand::MintTokens(t, a) => if c == CoinOrTokenId::TokenId(t) { a.atoms as int } else { 0 }, _ => 0 }, |n: u64| 0, charge(cfg, h, k).atoms as int),
        TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(o, x)) => fill_step(ov, o, x.atoms as int, before, s),
        TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(o)) => conclude_step(ov, o, before, s),
        TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(_)) => s.h == none() && plain(s, |c: CoinOrTokenId| 0, |n: u64| 0, 0),
    }
}
/// every input has a step; nothing more is taken out of a delegation or an order than it has
pub open spec fn explained<O: OrdersAccountingView, P: PoSAccountingView>(cfg: ChainConfig, h: BlockHeight, ov: O, pv: P, ins: Seq<TxInput>, us: Seq<Option<TxOutput>>, st: Seq<Step>) -> bool {
    &&& forall|j: int| 0 <= j < st.len() ==> explains(cfg, h, ov, pv, ins[j], us[j], #[trigger] st.take(j), st[j])
    &&& forall|d: DelegationId| #[trigger] sum_h(st, d) > 0 ==> sum_h(st, d) <= pv.held(d)
    &&& forall|o: OrderId| #[trigger] sum_g(st, o) > 0 ==> sum_g(st, o) <= ov.give(o)
}
proof fn pushed(st: Seq<Step>, s: Step)
    ensures
        forall|c: CoinOrTokenId| #[trigger] sum_f(st.push(s), c) == sum_f(st, c) + (s.f)(c), forall|c: CoinOrTokenId| #[trigger] sum_d(st.push(s), c) == sum_d(st, c) + (s.d)(c),
        forall|n: u64| #[trigger] sum_l(st.push(s), n) == sum_l(st, n) + (s.l)(n), forall|n: u64| #[trigger] sum_h(st.push(s), n) == sum_h(st, n) + to(s.h, n),
        forall|n: u64| #[trigger] sum_g(st.push(s), n) == sum_g(st, n) + to(s.g, n), forall|n: u64| #[trigger] sum_a(st.push(s), n) == sum_a(st, n) + to(s.a, n),
        forall|j: int| 0 <= j <= st.len() ==> #[trigger] st.push(s).take(j) == st.take(j), st.take(st.len() as int) == st,
{ assert(st.push(s).drop_last() =~= st); assert forall|j: int| 0 <= j <= st.len() implies #[trigger] st.push(s).take(j) == st.take(j) by { assert(st.push(s).take(j) =~= st.take(j)); } assert(st.take(st.len() as int) =~= st); }
//@ impl Q impl ConstrainedValueAccumulator
//@ fn from_inputs
//@ . opt fornext
//@ . method iter => vf_iter
//@ . method zip => vf_zip
//@|    ensures r matches Ok(a) ==> inputs@.len() == inputs_utxos@.len() && wf(a) && (exists|st: Seq<Step>| st.len() == inputs@.len() && explained(*chain_config, block_height, *orders_accounting_view, *pos_accounting_view, inputs@, inputs_utxos@, st)
//@|        && (forall|c: CoinOrTokenId| #[trigger] free(a, c) == sum_f(st, c) - sum_d(st, c)) && (forall|n: u64| #[trigger] locked(a, n) == sum_l(st, n)))
//@ . proof start
//@|    let ghost mut st = Seq::<Step>::empty();
//@|    let ghost (cfg, h, ov, pv) = (*chain_config, block_height, *orders_accounting_view, *pos_accounting_view);
//@ . loop 0
//@|    invariant st.len() <= inputs@.len() == inputs_utxos@.len(), vf_it0.rest() == (inputs@.skip(st.len() as int), inputs_utxos@.skip(st.len() as int)), wf(accumulator),
//@|        cfg == *chain_config, h == block_height, ov == *orders_accounting_view, pv == *pos_accounting_view,
//@|        explained(cfg, h, ov, pv, inputs@, inputs_utxos@, st),
//@|        forall|c: CoinOrTokenId| #[trigger] free(accumulator, c) == sum_f(st, c), forall|n: u64| #[trigger] locked(accumulator, n) == sum_l(st, n),
//@|        forall|c: CoinOrTokenId| #[trigger] amount_at(total_to_deduct.map(), c) == sum_d(st, c),
//@|        forall|p: PoolId| #[trigger] temp_pos_accounting.pool(p) == pv.pool(p), forall|d: DelegationId| #[trigger] temp_pos_accounting.held(d) == pv.held(d) - sum_h(st, d),
//@|        forall|o: OrderId| (#[trigger] temp_orders_accounting.order(o)) is Some ==> temp_orders_accounting.order(o) == ov.order(o) && temp_orders_accounting.ask(o) == ov.ask(o) - sum_a(st, o) && temp_orders_accounting.give(o) == ov.give(o) - sum_g(st, o),
//@|    ensures st.len() == inputs@.len()
//@|    decreases inputs@.len() - st.len()
//@ . proof loop 0 start
//@|    let ghost (was, wasd, wasp, waso) = (accumulator, total_to_deduct, temp_pos_accounting, temp_orders_accounting);
//@ . proof loop 0 end
//@|    proof {
//@|        let i = st.len() as int;
//@|        let (x, u) = (inputs@[i], inputs_utxos@[i]);
//@|        let f = |c: CoinOrTokenId| free(accumulator, c) - free(was, c);
//@|        let l = |n: u64| locked(accumulator, n) - locked(was, n);
//@|        let d = |c: CoinOrTokenId| amount_at(total_to_deduct.map(), c) - amount_at(wasd.map(), c);
//@|        let given = |o: OrderId| (o, waso.give(o) - (if temp_orders_accounting.order(o) is Some { temp_orders_accounting.give(o) } else { 0 }));
//@|        let s = match x {
//@|            TxInput::Account(a) => Step { f, l, d, h: ({ let AccountSpending::DelegationBalance(q, y) = a.account; (q, y.atoms as int) }), g: none(), a: none() },
//@|            TxInput::AccountCommand(_, AccountCommand::FillOrder(o, y, _)) => Step { f, l, d, h: none(), g: given(o), a: (o, y.atoms as int) },
//@|            TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(o, y)) => Step { f, l, d, h: none(), g: given(o), a: (o, y.atoms as int) },
//@|            TxInput::AccountCommand(_, AccountCommand::ConcludeOrder(o)) => Step { f, l, d, h: none(), g: given(o), a: none() },
//@|            TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(o)) => Step { f, l, d, h: none(), g: given(o), a: none() },
//@|            _ => Step { f, l, d, h: none(), g: none(), a: none() },
//@|        };
//@|        pushed(st, s);
//@|        let st0 = st;
//@|        assert(explains(cfg, h, ov, pv, x, u, st0, s));
//@|        st = st.push(s);
//@|        assert(st[i] == s);
//@|        assert forall|j: int| 0 <= j < st.len() implies explains(cfg, h, ov, pv, inputs@[j], inputs_utxos@[j], #[trigger] st.take(j), st[j]) by { if j < i { assert(st.take(j) == st0.take(j)); assert(st[j] == st0[j]); } }
//@|        assert(vf_it0.rest().0 =~= inputs@.skip(i + 1)); assert(vf_it0.rest().1 =~= inputs_utxos@.skip(i + 1));
//@|    }
//@ . loop 1
//@|    invariant wf(accumulator), forall|c: CoinOrTokenId| #[trigger] free(accumulator, c) == sum_f(st, c) - sum_d(st, c) + amount_at(vf_it1.rest(), c), forall|n: u64| #[trigger] locked(accumulator, n) == sum_l(st, n),
//@|    ensures vf_it1.rest() == Map::<CoinOrTokenId, Amount>::empty()
//@|    decreases vf_it1.rest().dom().len()
//@ . proof loop 1 start
//@|    let ghost (was, left) = (accumulator, vf_it1.rest());
//@ . proof loop 1 end
//@|    proof {
//@|        let key = choose|k: CoinOrTokenId| left.contains_key(k) && vf_it1.rest() == left.remove(k);
//@|        assert forall|c: CoinOrTokenId| #[trigger] free(accumulator, c) == sum_f(st, c) - sum_d(st, c) + amount_at(vf_it1.rest(), c) by { assert(free(was, c) == sum_f(st, c) - sum_d(st, c) + amount_at(left, c)); }
//@|        assert forall|n: u64| #[trigger] locked(accumulator, n) == sum_l(st, n) by { assert(locked(was, n) == sum_l(st, n)); }
//@|    }
//@ endimpl

// ---- what is left
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub open spec fn in_range(k: u64, b: (Bound<NonZeroU64>, Bound<NonZeroU64>)) -> bool {
    (match b.0 { Bound::Included(x) => x.n <= k, Bound::Excluded(x) => x.n < k, Bound::Unbounded => true }) && (match b.1 { Bound::Included(x) => k <= x.n, Bound::Excluded(x) => k < x.n, Bound::Unbounded => true })
}
/// The parts of a map that are lent out by std's iterators, each with the number of blocks it is locked for (none for the free coins)
#[verifier::external_body]
pub struct Refs<'a> { k: Vec<&'a mut Amount> }
pub open spec fn reversed<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
impl<'a> Refs<'a> {
    pub uninterp spec fn refs(&self) -> Seq<&'a mut Amount>;
    pub uninterp spec fn tags(&self) -> Seq<u64>;
    pub fn vf_values(self) -> (r: Self) ensures r == self { self }
    pub fn peekable(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn chain(self, o: Refs<'a>) -> (r: Self) ensures r.refs() == self.refs() + o.refs(), r.tags() == self.tags() + o.tags(), forall|i: int| 0 <= i < o.tags().len() ==> #[trigger] o.tags()[i] == r.tags()[self.tags().len() + i] { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: Self) ensures r.refs() == reversed(self.refs()), r.tags() == reversed(self.tags()), forall|i: int| 0 <= i < self.tags().len() ==> #[trigger] self.tags()[i] == r.tags()[self.tags().len() - 1 - i] { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_mut(&mut self) -> (r: Option<&mut &'a mut Amount>) ensures match r { Some(p) => old(self).refs().len() > 0 && *p == old(self).refs()[0] && final(self).refs() == old(self).refs().update(0, *final(p)), None => old(self).refs().len() == 0 && final(self).refs() == old(self).refs() } { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut Amount>) ensures match r { Some(p) => old(self).refs().len() > 0 && p == old(self).refs()[0] && final(self).refs() == old(self).refs().drop_first(), None => old(self).refs().len() == 0 && final(self).refs() == old(self).refs() } { unimplemented!() }
}
/// what is lent out is given back as it is
#[verifier::external_body]
fn vf_drop(i: Refs) ensures forall|j: int| 0 <= j < i.refs().len() ==> *(#[trigger] i.refs()[j]) == *final(i.refs()[j]) { }
pub trait VfInto<'a>: Sized { spec fn one(self) -> Seq<&'a mut Amount>; fn vf_into(self) -> (r: Refs<'a>) ensures r.refs() == self.one(), r.tags() == Seq::new(self.one().len(), |i: int| 0u64); }
impl<'a> VfInto<'a> for Option<&'a mut Amount> {
    open spec fn one(self) -> Seq<&'a mut Amount> { match self { Some(x) => seq![x], None => Seq::empty() } }
    #[verifier::external_body] fn vf_into(self) -> (r: Refs<'a>) { unimplemented!() }
}
impl BTreeMap<NonZeroU64, Amount> {
    #[verifier::external_body]
    pub fn range_mut<'a>(&'a mut self, b: (Bound<NonZeroU64>, Bound<NonZeroU64>)) -> (r: Refs<'a>) ensures
        r.refs().len() == r.tags().len(), forall|i: int, j: int| 0 <= i < j < r.tags().len() ==> r.tags()[i] < r.tags()[j],
        forall|i: int| 0 <= i < r.tags().len() ==> in_range(#[trigger] r.tags()[i], b) && old(self).map().contains_key(NonZeroU64 { n: r.tags()[i] }) && *r.refs()[i] == old(self).map()[NonZeroU64 { n: r.tags()[i] }] && final(self).map()[NonZeroU64 { n: r.tags()[i] }] == *final(r.refs()[i]),
        forall|k: u64| #![trigger old(self).map().contains_key(NonZeroU64 { n: k })] old(self).map().contains_key(NonZeroU64 { n: k }) && in_range(k, b) ==> r.tags().contains(k),
        forall|k: u64| #![trigger final(self).map()[NonZeroU64 { n: k }]] !in_range(k, b) ==> final(self).map()[NonZeroU64 { n: k }] == old(self).map()[NonZeroU64 { n: k }],
        final(self).map().dom() == old(self).map().dom() { unimplemented!() }
}
pub open spec fn nz(n: u64) -> NonZeroU64 { NonZeroU64 { n } }
proof fn locked_insert(m: Map<NonZeroU64, Amount>, k: u64, v: Amount, t: int)
    requires 0 <= t <= u64::MAX, k > 0
    ensures locked_to(m.insert(nz(k), v), t) == locked_to(m, t) + (if k <= t { v.atoms - amount_at(m, nz(k)) } else { 0 })
    decreases t
{ if t > 0 { locked_insert(m, k, v, t - 1); } }
proof fn locked_remove(m: Map<NonZeroU64, Amount>, k: u64, t: int)
    requires 0 <= t <= u64::MAX, k > 0
    ensures locked_to(m.remove(nz(k)), t) == locked_to(m, t) - (if k <= t { amount_at(m, nz(k)) } else { 0 })
    decreases t
{ if t > 0 { locked_remove(m, k, t - 1); } }
proof fn locked_empty(m: Map<NonZeroU64, Amount>, t: int) requires m == Map::<NonZeroU64, Amount>::empty() ensures locked_to(m, t) == 0 decreases t { if t > 0 { locked_empty(m, t - 1); } }
proof fn locked_less(m: Map<NonZeroU64, Amount>, t: int, u: int) requires t <= u ensures locked_to(m, t) <= locked_to(m, u) decreases u { if t < u { if u > 0 { locked_less(m, t, u - 1); } } }
/// the map with the first n of the parts changed
pub open spec fn changed(m: Map<NonZeroU64, Amount>, t: Seq<u64>, w: Seq<Amount>, n: int) -> Map<NonZeroU64, Amount> decreases n { if n <= 0 { m } else if t[n - 1] == 0 { changed(m, t, w, n - 1) } else { changed(m, t, w, n - 1).insert(nz(t[n - 1]), w[n - 1]) } }
/// what the first n of the parts were made less by, of those locked for at most k blocks, and the free ones
pub open spec fn less(t: Seq<u64>, v: Seq<Amount>, w: Seq<Amount>, n: int, k: int) -> int decreases n { if n <= 0 { 0 } else { less(t, v, w, n - 1, k) + (if t[n - 1] <= k { v[n - 1].atoms - w[n - 1].atoms } else { 0 }) } }
pub open spec fn less_free(t: Seq<u64>, v: Seq<Amount>, w: Seq<Amount>, n: int) -> int { less(t, v, w, n, 0) }
pub open spec fn distinct(t: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> t[i] != t[j] }
proof fn changed_in(m: Map<NonZeroU64, Amount>, t: Seq<u64>, w: Seq<Amount>, n: int, j: int)
    requires 0 <= j < n <= t.len() == w.len(), distinct(t), t[j] > 0
    ensures changed(m, t, w, n).contains_key(nz(t[j])), changed(m, t, w, n)[nz(t[j])] == w[j]
    decreases n
{ if j < n - 1 { changed_in(m, t, w, n - 1, j); assert(nz(t[j]) != nz(t[n - 1])); } }
proof fn changed_out(m: Map<NonZeroU64, Amount>, t: Seq<u64>, w: Seq<Amount>, n: int, k: u64)
    requires 0 <= n <= t.len() == w.len(), k > 0, forall|j: int| #![trigger t[j]] 0 <= j < n ==> t[j] != k
    ensures changed(m, t, w, n).contains_key(nz(k)) == m.contains_key(nz(k)), changed(m, t, w, n)[nz(k)] == m[nz(k)]
    decreases n
{ if n > 0 { changed_out(m, t, w, n - 1, k); assert(nz(k) != nz(t[n - 1])); } }
proof fn changed_sum(m: Map<NonZeroU64, Amount>, t: Seq<u64>, v: Seq<Amount>, w: Seq<Amount>, n: int, k: int)
    requires 0 <= n <= t.len() == w.len(), v.len() == t.len(), distinct(t), 0 <= k <= u64::MAX, forall|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] > 0 ==> m.contains_key(nz(t[j])) && m[nz(t[j])] == v[j]
    ensures locked_to(changed(m, t, w, n), k) == locked_to(m, k) - (less(t, v, w, n, k) - less_free(t, v, w, n))
    decreases n
{
    if n > 0 {
        changed_sum(m, t, v, w, n - 1, k);
        if t[n - 1] > 0 { changed_out(m, t, w, n - 1, t[n - 1]); locked_insert(changed(m, t, w, n - 1), t[n - 1], w[n - 1], k); }
    }
}
proof fn changed_zero(m: Map<NonZeroU64, Amount>, t: Seq<u64>, w: Seq<Amount>, n: int)
    ensures changed(m, t, w, n).contains_key(nz(0)) == m.contains_key(nz(0))
    decreases n
{ if n > 0 { changed_zero(m, t, w, n - 1); } }
/// the more, the less
proof fn less_mono(t: Seq<u64>, v: Seq<Amount>, w: Seq<Amount>, n: int, k: int, l: int)
    requires 0 <= n <= t.len() == w.len(), v.len() == t.len(), 0 <= k <= l, forall|j: int| #![trigger w[j]] 0 <= j < n ==> w[j].atoms <= v[j].atoms
    ensures 0 <= less(t, v, w, n, k) <= less(t, v, w, n, l), (forall|j: int| #![trigger t[j]] 0 <= j < n ==> t[j] <= k) ==> less(t, v, w, n, k) == less(t, v, w, n, l)
    decreases n
{ if n > 0 { less_mono(t, v, w, n - 1, k, l); } }
/// the parts used up one after another
pub open spec fn used(v: Seq<Amount>, n: int) -> int decreases n { if n <= 0 { 0 } else { used(v, n - 1) + v[n - 1].atoms } }
proof fn used_less(t: Seq<u64>, v: Seq<Amount>, w: Seq<Amount>, n: int, p: int, part: int)
    requires 0 <= n <= t.len() == w.len(), v.len() == t.len(), 0 <= p <= t.len(), forall|j: int| #![trigger w[j]] 0 <= j < p ==> w[j].atoms == 0, forall|j: int| #![trigger w[j]] p < j < t.len() ==> w[j] == v[j], p < t.len() ==> v[p].atoms - w[p].atoms == part, p == t.len() ==> part == 0
    ensures less(t, v, w, n, u64::MAX as int) == (if n <= p { used(v, n) } else { used(v, p) + part })
    decreases n
{ if n > 0 { used_less(t, v, w, n - 1, p, part); } }
/// what is lent out is part of one map and the other
pub open spec fn of_maps(u: Map<CoinOrTokenId, Amount>, l: Map<NonZeroU64, Amount>, t: Seq<u64>, v: Seq<Amount>) -> bool {
    forall|j: int| #![trigger t[j]] 0 <= j < t.len() ==> if t[j] > 0 { l.contains_key(nz(t[j])) && l[nz(t[j])] == v[j] } else { j == t.len() - 1 && u.contains_key(CoinOrTokenId::Coin) && u[CoinOrTokenId::Coin] == v[j] }
}
proof fn lent(u: Map<CoinOrTokenId, Amount>, l: Map<NonZeroU64, Amount>, u2: Map<CoinOrTokenId, Amount>, l2: Map<NonZeroU64, Amount>, t: Seq<u64>, v: Seq<Amount>, w: Seq<Amount>)
    requires v.len() == t.len() == w.len(), distinct(t), of_maps(u, l, t, v), of_maps(u2, l2, t, w), l2.dom() == l.dom(), !l.contains_key(nz(0)), forall|j: int| #![trigger w[j]] 0 <= j < t.len() ==> w[j].atoms <= v[j].atoms,
        forall|k: u64| #![trigger l2[nz(k)]] l.contains_key(nz(k)) && !t.contains(k) ==> l2[nz(k)] == l[nz(k)],
        u.contains_key(CoinOrTokenId::Coin) ==> t.contains(0), u2.contains_key(CoinOrTokenId::Coin) == u.contains_key(CoinOrTokenId::Coin)
    ensures forall|k: u64| #[trigger] amount_at(l2, nz(k)) <= amount_at(l, nz(k)),
        less_free(t, v, w, t.len() as int) == amount_at(u, CoinOrTokenId::Coin) - amount_at(u2, CoinOrTokenId::Coin),
        forall|k: int| 0 <= k <= u64::MAX ==> #[trigger] locked_to(l2, k) == locked_to(l, k) - (less(t, v, w, t.len() as int, k) - less_free(t, v, w, t.len() as int)),
{
    let len = t.len() as int;
    let l3 = changed(l, t, w, len);
    assert forall|k: u64| #![trigger l3.contains_key(nz(k))] #![trigger l2[nz(k)]] l3.contains_key(nz(k)) == l.contains_key(nz(k)) && (l.contains_key(nz(k)) ==> l3[nz(k)] == l2[nz(k)] && l2[nz(k)].atoms <= l[nz(k)].atoms) by {
        if k > 0 {
            if exists|j: int| 0 <= j < len && t[j] == k { let j = choose|j: int| 0 <= j < len && t[j] == k; assert(w[j].atoms <= v[j].atoms); changed_in(l, t, w, len, j); } else { assert(!t.contains(k)); changed_out(l, t, w, len, k); }
        } else { changed_zero(l, t, w, len); }
    }
    assert forall|k: NonZeroU64| l3.dom().contains(k) == l2.dom().contains(k) && (l3.dom().contains(k) ==> #[trigger] l3[k] == l2[k]) by { assert(k == nz(k.n)); assert(l3.contains_key(nz(k.n)) == l.contains_key(nz(k.n))); assert(l.dom().contains(k) == l2.dom().contains(k)); }
    assert forall|k: NonZeroU64| l3.dom().contains(k) == l2.dom().contains(k) by { assert(k == nz(k.n)); assert(l3.contains_key(nz(k.n)) == l.contains_key(nz(k.n))); assert(l.dom().contains(k) == l2.dom().contains(k)); }
    assert(l3.dom() =~= l2.dom());
    assert(l3 =~= l2);
    free_one(t, v, w, len);
    if u.contains_key(CoinOrTokenId::Coin) { let j = choose|j: int| 0 <= j < len && t[j] == 0; assert(t[j] == 0); assert(less_free(t, v, w, len) == v[j].atoms - w[j].atoms); } else { assert forall|j: int| #![trigger t[j]] 0 <= j < len implies t[j] != 0 by { } }
    assert forall|k: int| 0 <= k <= u64::MAX implies #[trigger] locked_to(l2, k) == locked_to(l, k) - (less(t, v, w, len, k) - less_free(t, v, w, len)) by { changed_sum(l, t, v, w, len, k); }
    assert forall|k: u64| #[trigger] amount_at(l2, nz(k)) <= amount_at(l, nz(k)) by { assert(l2.dom().contains(nz(k)) == l.dom().contains(nz(k))); if l.contains_key(nz(k)) { assert(l2[nz(k)] == l2[nz(k)]); } }
}
/// one more number of blocks is seen to
proof fn one_lock(l0: Map<NonZeroU64, Amount>, l: Map<NonZeroU64, Amount>, l2: Map<NonZeroU64, Amount>, ol: Map<NonZeroU64, Amount>, left: Map<NonZeroU64, Amount>, ts: Seq<u64>, v: Seq<Amount>, w: Seq<Amount>, n: u64, c: Amount)
    requires v.len() == ts.len() == w.len(), n > 0, left.contains_key(nz(n)), left[nz(n)] == c, less(ts, v, w, ts.len() as int, u64::MAX as int) == c.atoms,
        forall|j: int| #![trigger ts[j]] 0 <= j < ts.len() ==> ts[j] <= n, forall|j: int| #![trigger w[j]] 0 <= j < ts.len() ==> w[j].atoms <= v[j].atoms,
        forall|k: int| 0 <= k <= u64::MAX ==> #[trigger] locked_to(l2, k) == locked_to(l, k) - (less(ts, v, w, ts.len() as int, k) - less_free(ts, v, w, ts.len() as int)),
        forall|t: int| #![trigger locked_to(l, t)] 0 <= t <= u64::MAX ==> locked_over(l0, t) - locked_over(l, t) <= locked_over(ol, t) - locked_over(left, t)
    ensures forall|t: int| #![trigger locked_to(l2, t)] 0 <= t <= u64::MAX ==> locked_over(l0, t) - locked_over(l2, t) <= locked_over(ol, t) - locked_over(left.remove(nz(n)), t),
        locked_to(left.remove(nz(n)), u64::MAX as int) == locked_to(left, u64::MAX as int) - c.atoms, less_free(ts, v, w, ts.len() as int) >= 0
{
    let (all, len) = (u64::MAX as int, ts.len() as int);
    locked_remove(left, n, all); less_mono(ts, v, w, len, 0, all);
    assert forall|t: int| #![trigger locked_to(l2, t)] 0 <= t <= all implies locked_over(l0, t) - locked_over(l2, t) <= locked_over(ol, t) - locked_over(left.remove(nz(n)), t) by {
        assert(locked_to(l, t) == locked_to(l, t));
        less_mono(ts, v, w, len, t, all);
        locked_remove(left, n, t);
        assert(locked_to(l2, all) == locked_to(l, all) - (less(ts, v, w, len, all) - less_free(ts, v, w, len)));
    }
}
/// of free coins there is only one part
proof fn free_one(t: Seq<u64>, v: Seq<Amount>, w: Seq<Amount>, n: int)
    requires 0 <= n <= t.len() == w.len(), v.len() == t.len(), distinct(t)
    ensures forall|j: int| 0 <= j < n && t[j] == 0 ==> less_free(t, v, w, n) == (#[trigger] v[j]).atoms - w[j].atoms, (forall|j: int| #![trigger t[j]] 0 <= j < n ==> t[j] != 0) ==> less_free(t, v, w, n) == 0
    decreases n
{ if n > 0 { free_one(t, v, w, n - 1); } }
pub open spec fn all_coins(unc: Map<CoinOrTokenId, Amount>, tl: Map<NonZeroU64, Amount>) -> int { amount_at(unc, CoinOrTokenId::Coin) + locked_to(tl, u64::MAX as int) }
/// a list's sum, as std's Sum of amounts gives it
pub open spec fn sum_of(v: Seq<Amount>) -> int decreases v.len() { if v.len() == 0 { 0 } else { sum_of(v.drop_last()) + v.last().atoms } }
pub trait VfSum { spec fn all(&self) -> Seq<Amount>; fn vf_sum(self) -> (r: Option<Amount>) where Self: Sized ensures r matches Some(x) ==> x.atoms == sum_of(self.all()), r is None ==> sum_of(self.all()) > u128::MAX; }
impl VfSum for Vec<Amount> { open spec fn all(&self) -> Seq<Amount> { self@ } #[verifier::external_body] fn vf_sum(self) -> (r: Option<Amount>) { unimplemented!() } }
//@ fn F merge_amount_maps
//@ . opt fornext
//@|    ensures r matches Ok(m) ==> (forall|k: K| #[trigger] amount_at(m.map(), k) == amount_at(left.map(), k) + amount_at(right.map(), k)) && (forall|k: K| #[trigger] m.map().contains_key(k) ==> left.map().contains_key(k) || right.map().contains_key(k))
//@ . proof start
//@|    let ghost (lm, rm) = (left.map(), right.map());
//@ . loop 0
//@|    invariant forall|k: K| #[trigger] amount_at(left.map(), k) == amount_at(lm, k) + amount_at(rm, k) - amount_at(vf_it0.rest(), k), forall|k: K| #[trigger] left.map().contains_key(k) ==> lm.contains_key(k) || rm.contains_key(k), forall|k: K| #[trigger] vf_it0.rest().contains_key(k) ==> rm.contains_key(k)
//@|    ensures vf_it0.rest() == Map::<K, Amount>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ . proof loop 0 start
//@|    let ghost (was, rest) = (left.map(), vf_it0.rest());
//@ . proof loop 0 end
//@|    proof { assert forall|k: K| #[trigger] amount_at(left.map(), k) == amount_at(lm, k) + amount_at(rm, k) - amount_at(vf_it0.rest(), k) by { assert(amount_at(was, k) == amount_at(lm, k) + amount_at(rm, k) - amount_at(rest, k)); } }
//@ impl F impl AccumulatedFee
//@ fn from_data
//@|    ensures r.unconstrained_value == unconstrained_value, r.timelock_constrained == timelock_constrained
//@ fn new
//@|    ensures r.unconstrained_value.map() == Map::<CoinOrTokenId, Amount>::empty(), r.timelock_constrained.map() == Map::<NonZeroU64, Amount>::empty()
//@ . replace Default::default() =>> BTreeMap::default()
//@ fn combine
//@|    ensures r matches Ok(f) ==> (forall|c: CoinOrTokenId| #[trigger] amount_at(f.unconstrained_value.map(), c) == amount_at(self.unconstrained_value.map(), c) + amount_at(other.unconstrained_value.map(), c))
//@|        && (forall|n: NonZeroU64| #[trigger] amount_at(f.timelock_constrained.map(), n) == amount_at(self.timelock_constrained.map(), n) + amount_at(other.timelock_constrained.map(), n))
//@|        && (forall|n: NonZeroU64| #[trigger] f.timelock_constrained.map().contains_key(n) ==> self.timelock_constrained.map().contains_key(n) || other.timelock_constrained.map().contains_key(n))
//@ fn map_into_block_fees
//@ . opt fornext
//@ . opt eager
//@ . replace .sum::<Option<Amount>>() =>> .vf_sum()
//@|    requires !self.timelock_constrained.map().contains_key(nz(0))
//@|    ensures r matches Ok(x) ==> x.0.atoms == amount_at(self.unconstrained_value.map(), CoinOrTokenId::Coin) + locked_to(self.timelock_constrained.map(), chain_config.maturity(block_height) as int)
//@ . proof start
//@|    let ghost (tl, mat) = (self.timelock_constrained.map(), chain_config.maturity(block_height) as int);
//@ . loop 0
//@|    invariant !vf_it0.rest().contains_key(nz(0)), mat == maturity_distance.0, 0 <= mat <= u64::MAX, sum_of(vf_m@) == locked_to(tl, mat) - locked_to(vf_it0.rest(), mat)
//@|    ensures vf_it0.rest() == Map::<NonZeroU64, Amount>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ . proof loop 0 start
//@|    let ghost (was, rest) = (vf_m@, vf_it0.rest());
//@ . proof loop 0 end
//@|    proof {
//@|        let k = choose|k: NonZeroU64| rest.contains_key(k) && vf_it0.rest() == rest.remove(k);
//@|        assert(k == nz(k.n) && k.n > 0); locked_remove(rest, k.n, mat);
//@|        if vf_m@.len() > was.len() { assert(vf_m@.drop_last() =~= was); }
//@|    }
//@ . proof loop 0 after
//@|    proof { locked_empty(Map::empty(), mat); }
//@ endimpl
//@ impl Q impl ConstrainedValueAccumulator
//@ fn satisfy_with
//@ . opt fornext
//@ . method into_iter => vf_into
//@ . replace .map(|(_, v)| v) =>> .vf_values()
//@|    requires wf(self), wf(other)
//@|    ensures r matches Ok(f) ==> ({ let (u, l) = (f.unconstrained_value.map(), f.timelock_constrained.map());
//@|        // nothing is made or lost
//@|        &&& forall|c: CoinOrTokenId| c != CoinOrTokenId::Coin ==> #[trigger] amount_at(u, c) == free(self, c) - free(other, c)
//@|        &&& all_coins(u, l) == all_coins(self.unconstrained_value.map(), self.timelock_constrained.map()) - all_coins(other.unconstrained_value.map(), other.timelock_constrained.map())
//@|        // what is free is paid by what is free, and what is locked only by outputs locked for as long
//@|        &&& amount_at(u, CoinOrTokenId::Coin) <= free(self, CoinOrTokenId::Coin) - free(other, CoinOrTokenId::Coin)
//@|        &&& forall|t: int| 0 <= t <= u64::MAX ==> locked_over(self.timelock_constrained.map(), t) - #[trigger] locked_over(l, t) <= locked_over(other.timelock_constrained.map(), t)
//@|        &&& forall|n: u64| #[trigger] amount_at(l, nz(n)) <= locked(self, n)
//@|        &&& !l.contains_key(nz(0))
//@|    })
//@ . proof start
//@|    let ghost (u0, l0, ou, ol) = (self.unconstrained_value.map(), self.timelock_constrained.map(), other.unconstrained_value.map(), other.timelock_constrained.map());
//@ . loop 0
//@|    invariant vf_self.timelock_constrained.map() == l0, forall|c: CoinOrTokenId| #[trigger] free(vf_self, c) == amount_at(u0, c) - amount_at(ou, c) + amount_at(vf_it0.rest(), c)
//@|    ensures vf_it0.rest() == Map::<CoinOrTokenId, Amount>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ . proof loop 0 start
//@|    let ghost (was, left) = (vf_self, vf_it0.rest());
//@ . proof loop 0 end
//@|    proof {
//@|        assert forall|c: CoinOrTokenId| #[trigger] free(vf_self, c) == amount_at(u0, c) - amount_at(ou, c) + amount_at(vf_it0.rest(), c) by { assert(free(was, c) == amount_at(u0, c) - amount_at(ou, c) + amount_at(left, c)); }
//@|    }
//@ . proof loop 1 before
//@|    let ghost (u1, all) = (vf_self.unconstrained_value.map(), u64::MAX as int);
//@|    proof { assert forall|c: CoinOrTokenId| #[trigger] amount_at(u1, c) == amount_at(u0, c) - amount_at(ou, c) by { assert(free(vf_self, c) == amount_at(u0, c) - amount_at(ou, c) + 0); } }
//@ . loop 1
//@|    invariant all == u64::MAX as int, !vf_self.timelock_constrained.map().contains_key(nz(0)), !vf_it1.rest().contains_key(nz(0)), !l0.contains_key(nz(0)),
//@|        forall|c: CoinOrTokenId| c != CoinOrTokenId::Coin ==> #[trigger] amount_at(vf_self.unconstrained_value.map(), c) == amount_at(u1, c),
//@|        amount_at(vf_self.unconstrained_value.map(), CoinOrTokenId::Coin) <= amount_at(u1, CoinOrTokenId::Coin),
//@|        all_coins(vf_self.unconstrained_value.map(), vf_self.timelock_constrained.map()) == all_coins(u1, l0) - (locked_to(ol, all) - locked_to(vf_it1.rest(), all)),
//@|        forall|t: int| #![trigger locked_to(vf_self.timelock_constrained.map(), t)] 0 <= t <= u64::MAX ==> locked_over(l0, t) - locked_over(vf_self.timelock_constrained.map(), t) <= locked_over(ol, t) - locked_over(vf_it1.rest(), t),
//@|        forall|n: u64| #[trigger] amount_at(vf_self.timelock_constrained.map(), nz(n)) <= amount_at(l0, nz(n))
//@|    ensures vf_it1.rest() == Map::<NonZeroU64, Amount>::empty()
//@|    decreases vf_it1.rest().dom().len()
//@ . proof loop 1 start
//@|    let ghost (u, l, left) = (vf_self.unconstrained_value.map(), vf_self.timelock_constrained.map(), vf_it1.rest());
//@ . proof loop 2 before
//@|    let ghost (rs, ts) = (constraint_range_iter.refs(), constraint_range_iter.tags());
//@|    let ghost len = rs.len() as int;
//@|    let ghost v = Seq::new(rs.len(), |j: int| *rs[j]);
//@|    let ghost w = Seq::new(rs.len(), |j: int| *final(rs[j]));
//@|    let ghost mut n: int = 0;
//@|    let ghost mut part: int = 0;
//@ . loop 2
//@|    invariant 0 <= n <= len, len == rs.len(), v.len() == len, w.len() == len, constraint_range_iter.refs().len() == len - n,
//@|        forall|j: int| #![trigger w[j]] n <= j < len ==> *final(constraint_range_iter.refs()[j - n]) == w[j],
//@|        forall|j: int| #![trigger v[j]] n < j < len ==> *constraint_range_iter.refs()[j - n] == v[j],
//@|        part >= 0, n < len ==> v[n].atoms - constraint_range_iter.refs()[0].atoms == part, n == len ==> part == 0, output_coins.atoms > 0 ==> part == 0,
//@|        forall|j: int| #![trigger w[j]] 0 <= j < n ==> w[j].atoms == 0,
//@|        used(v, n) + part == locked_coins.atoms - output_coins.atoms
//@|    decreases (if output_coins.atoms > 0 { len - n + 1 } else { 0 })
//@ . proof loop 2 end
//@|    proof {
//@|        let ghost now = constraint_range_iter.refs();
//@|        assert(v[n].atoms >= 0 && w[n].atoms >= 0);
//@|        if now.len() < len - n { n = n + 1; part = 0; if n < len { assert(*now[0] == v[n]); } } else { part = v[n].atoms - now[0].atoms; }
//@|    }
//@ . proof loop 2 after
//@|    let ghost now = constraint_range_iter.refs();
//@|    vf_drop(constraint_range_iter);
//@|    proof {
//@|        let (u2, l2) = (vf_self.unconstrained_value.map(), vf_self.timelock_constrained.map());
//@|        assert forall|j: int| #![trigger w[j]] 0 <= j < len implies (n <= j ==> w[j] == *now[j - n]) && w[j].atoms <= v[j].atoms by { if n < j { assert(v[j] == *now[j - n]); assert(*now[j - n] == *final(now[j - n])); } if n == j { assert(*now[0] == *final(now[0])); } }
//@|        used_less(ts, v, w, len, n, part);
//@|        assert(less(ts, v, w, len, all) == locked_coins.atoms);
//@|        assert(ts.len() == len);
//@|        assert(distinct(ts));
//@|        assert forall|j: int| #![trigger ts[j]] 0 <= j < len implies ts[j] <= timelock.n && (if ts[j] > 0 { l.contains_key(nz(ts[j])) && l[nz(ts[j])] == v[j] && l2[nz(ts[j])] == w[j] } else { j == len - 1 && u.contains_key(CoinOrTokenId::Coin) && u[CoinOrTokenId::Coin] == v[j] && u2[CoinOrTokenId::Coin] == w[j] }) by { assert(v[j] == *rs[j] && w[j] == *final(rs[j])); }
//@|        assert(l2.dom() == l.dom());
//@|        assert forall|j: int| #![trigger ts[j]] 0 <= j < len && ts[j] > 0 implies l2.contains_key(nz(ts[j])) by { assert(l.dom().contains(nz(ts[j]))); assert(l2.dom().contains(nz(ts[j]))); }
//@|        assert(of_maps(u, l, ts, v)); assert(of_maps(u2, l2, ts, w));
//@|        assert forall|k: u64| #![trigger l2[nz(k)]] l.contains_key(nz(k)) && !ts.contains(k) implies l2[nz(k)] == l[nz(k)] by { }
//@|        assert(u.contains_key(CoinOrTokenId::Coin) ==> ts[len - 1] == 0);
//@|        lent(u, l, u2, l2, ts, v, w);
//@|        one_lock(l0, l, l2, ol, left, ts, v, w, timelock.n, locked_coins);
//@|        assert forall|k: u64| #[trigger] amount_at(l2, nz(k)) <= amount_at(l0, nz(k)) by { assert(amount_at(l, nz(k)) <= amount_at(l0, nz(k))); }
//@|        assert forall|c: CoinOrTokenId| c != CoinOrTokenId::Coin implies #[trigger] amount_at(u2, c) == amount_at(u1, c) by { assert(amount_at(u, c) == amount_at(u1, c)); }
//@|    }
//@ . proof loop 1 after
//@|    proof {
//@|        let l2 = vf_self.timelock_constrained.map();
//@|        assert forall|t: int| #![trigger locked_over(l2, t)] 0 <= t <= u64::MAX implies locked_over(l0, t) - locked_over(l2, t) <= locked_over(ol, t) by { locked_empty(Map::empty(), t); locked_empty(Map::empty(), all); assert(locked_to(l2, t) == locked_to(l2, t)); }
//@|        locked_empty(Map::empty(), all);
//@|        assert forall|c: CoinOrTokenId| c != CoinOrTokenId::Coin implies #[trigger] amount_at(vf_self.unconstrained_value.map(), c) == amount_at(u0, c) - amount_at(ou, c) by { assert(amount_at(u1, c) == amount_at(u0, c) - amount_at(ou, c)); }
//@|    }
//@ endimpl
}
fn main() {}
