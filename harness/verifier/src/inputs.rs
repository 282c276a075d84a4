//! C30: every input of a transaction is checked against what it spends, where it was made and what the chain is.
use chainstate_types::{storage_result, BlockIndex, BlockStatus, GenBlockIndex, TipStorageTag};
use common::{
    chain::{block::{consensus_data::ConsensusData, timestamp::BlockTimestamp, Block, BlockReward, BlockRewardTransactable}, htlc::{HashedTimelockContract, HtlcSecret, HtlcSecretHash}, output_value::OutputValue, signature::{inputsig::{authorize_hashed_timelock_contract_spend::AuthorizedHashedTimelockContractSpend, standard_signature::StandardInputSignature, InputWitness}, sighash::sighashtype::SigHashType},
        timelock::OutputTimeLock, tokens::{TokenAuxiliaryData, TokenId}, AccountNonce, AccountType, ChainConfig, DelegationId, Destination, GenBlock, OrderId, OutPointSourceId, PoolId, SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint},
    primitives::{Amount, BlockHeight, Id, Idable, H256},
    Uint256,
};
use serialization::Encode;
use std::collections::{BTreeMap, BTreeSet};
use tx_verifier::{input_check::{verify_full, verify_timelocks}, transaction_verifier::{CachedBlockUndo, CachedUtxosBlockUndo, TransactionSourceForConnect}, TransactionSource, TransactionVerifierStorageRef};
use utxo::{Utxo, UtxosView};
use vsrc::{cases, inputs, Src};

type Res<T> = Result<T, storage_result::Error>;
struct Store { blocks: BTreeMap<Id<GenBlock>, GenBlockIndex>, utxos: BTreeMap<UtxoOutPoint, Utxo>, pools: pos_accounting::InMemoryPoSAccounting, tokens: tokens_accounting::InMemoryTokensAccounting, orders: orders_accounting::InMemoryOrdersAccounting }
impl utxo::UtxosStorageRead for Store {
    type Error = storage_result::Error;
    fn get_utxo(&self, p: &UtxoOutPoint) -> Res<Option<Utxo>> { Ok(self.utxos.get(p).cloned()) }
    fn get_best_block_for_utxos(&self) -> Res<Id<GenBlock>> { unimplemented!() }
}
struct Coins<'a>(&'a Store);
impl UtxosView for Coins<'_> {
    type Error = storage_result::Error;
    fn utxo(&self, p: &UtxoOutPoint) -> Res<Option<Utxo>> { Ok(self.0.utxos.get(p).cloned()) }
    fn has_utxo(&self, p: &UtxoOutPoint) -> Res<bool> { Ok(self.0.utxos.contains_key(p)) }
    fn best_block_hash(&self) -> Res<Id<GenBlock>> { unimplemented!() }
    fn estimated_size(&self) -> Option<usize> { None }
}
impl pos_accounting::PoSAccountingStorageRead<TipStorageTag> for Store {
    type Error = storage_result::Error;
    fn get_pool_balance(&self, _: PoolId) -> Res<Option<Amount>> { unimplemented!() }
    fn get_pool_data(&self, _: PoolId) -> Res<Option<pos_accounting::PoolData>> { unimplemented!() }
    fn get_delegation_balance(&self, _: DelegationId) -> Res<Option<Amount>> { unimplemented!() }
    fn get_delegation_data(&self, _: DelegationId) -> Res<Option<pos_accounting::DelegationData>> { unimplemented!() }
    fn get_pool_delegations_shares(&self, _: PoolId) -> Res<Option<BTreeMap<DelegationId, Amount>>> { unimplemented!() }
    fn get_pool_delegation_share(&self, _: PoolId, _: DelegationId) -> Res<Option<Amount>> { unimplemented!() }
}
impl tokens_accounting::TokensAccountingStorageRead for Store {
    type Error = storage_result::Error;
    fn get_token_data(&self, _: &TokenId) -> Res<Option<tokens_accounting::TokenData>> { unimplemented!() }
    fn get_circulating_supply(&self, _: &TokenId) -> Res<Option<Amount>> { unimplemented!() }
}
impl orders_accounting::OrdersAccountingStorageRead for Store {
    type Error = storage_result::Error;
    fn get_order_data(&self, _: &OrderId) -> Res<Option<orders_accounting::OrderData>> { unimplemented!() }
    fn get_ask_balance(&self, _: &OrderId) -> Res<Option<Amount>> { unimplemented!() }
    fn get_give_balance(&self, _: &OrderId) -> Res<Option<Amount>> { unimplemented!() }
    fn get_all_order_ids(&self) -> Res<BTreeSet<OrderId>> { unimplemented!() }
}
impl TransactionVerifierStorageRef for Store {
    type Error = storage_result::Error;
    fn get_token_id_from_issuance_tx(&self, _: Id<Transaction>) -> Res<Option<TokenId>> { unimplemented!() }
    fn get_gen_block_index(&self, id: &Id<GenBlock>) -> Res<Option<GenBlockIndex>> { Ok(self.blocks.get(id).cloned()) }
    fn get_undo_data(&self, _: TransactionSource) -> Res<Option<CachedUtxosBlockUndo>> { unimplemented!() }
    fn get_token_aux_data(&self, _: &TokenId) -> Res<Option<TokenAuxiliaryData>> { unimplemented!() }
    fn get_pos_accounting_undo(&self, _: TransactionSource) -> Res<Option<CachedBlockUndo<pos_accounting::PoSAccountingUndo>>> { unimplemented!() }
    fn get_tokens_accounting_undo(&self, _: TransactionSource) -> Res<Option<CachedBlockUndo<tokens_accounting::TokenAccountingUndo>>> { unimplemented!() }
    fn get_account_nonce_count(&self, _: AccountType) -> Res<Option<AccountNonce>> { unimplemented!() }
    fn get_orders_accounting_undo(&self, _: TransactionSource) -> Res<Option<CachedBlockUndo<orders_accounting::OrdersAccountingUndo>>> { unimplemented!() }
}
fn time(x: u64) -> BlockTimestamp { BlockTimestamp::from_int_seconds(x) }
fn point(n: usize) -> UtxoOutPoint { UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(H256::from_low_u64_be(9))), n as u32) }
fn coins() -> OutputValue { OutputValue::Coin(Amount::from_atoms(5)) }
fn chain() -> &'static ChainConfig { static C: std::sync::OnceLock<ChainConfig> = std::sync::OnceLock::new(); C.get_or_init(common::chain::config::create_regtest) }
fn skip(h: u64) -> u64 { let low = |n: u64| n & n.wrapping_sub(1); if h < 2 { 0 } else if h & 1 == 1 { low(low(h - 1)) + 1 } else { low(h) } }
/// A chain of n blocks over the genesis block, and the times of its blocks
fn grow(store: &mut Store, s: &mut impl Src, n: usize, salt: u64) -> (Vec<Id<GenBlock>>, Vec<u64>, Option<BlockIndex>) {
    let g = GenBlockIndex::genesis(chain());
    let (mut ids, mut times, mut last) = (vec![g.block_id()], vec![g.block_timestamp().as_int_seconds()], None);
    store.blocks.insert(g.block_id(), g);
    for h in 1..=n as u64 {
        let t = 1000 * salt + s.below(20) as u64;
        let b = Block::new(vec![], *ids.last().unwrap(), time(t), ConsensusData::None, BlockReward::new(vec![])).unwrap();
        let i = BlockIndex::new(&b, Uint256::from_u64(h), ids[skip(h) as usize], BlockHeight::new(h), time(t), 0, BlockStatus::new());
        store.blocks.insert(b.get_id().into(), i.clone().into_gen_block_index());
        ids.push(b.get_id().into()); times.push(t); last = Some(i);
    }
    (ids, times, last)
}
/// whether a lock is open; the height of what it locks, and its time if there is such a block in this chain
fn open(l: &OutputTimeLock, src: (u64, Option<u64>), at: (u64, u64)) -> bool {
    match l {
        OutputTimeLock::UntilHeight(h) => at.0 >= h.into_int(),
        OutputTimeLock::UntilTime(t) => at.1 >= t.as_int_seconds(),
        OutputTimeLock::ForBlockCount(n) => at.0 >= src.0 + n,
        OutputTimeLock::ForSeconds(n) => src.1.is_some_and(|x| at.1 >= x + n),
    }
}

cases! {
    c30_inputs(s) {
        let mut store = Store { blocks: BTreeMap::new(), utxos: BTreeMap::new(), pools: pos_accounting::InMemoryPoSAccounting::new(), tokens: tokens_accounting::InMemoryTokensAccounting::new(), orders: orders_accounting::InMemoryOrdersAccounting::new() };
        let (n, m) = (1 + s.below(18), s.below(6));
        let (ids, times, last) = grow(&mut store, s, n, 1);
        grow(&mut store, s, m, 2);
        let (now, mempool, over) = (1000 + s.below(30) as u64, s.bool(), s.below(3) as u64);
        let at = (if mempool { n as u64 + 1 + over } else { n as u64 }, now);
        let secret = HtlcSecret::new([7; 32]);
        let (k, bad) = (s.below(4), s.below(12));
        let (mut inputs, mut witnesses, mut good, mut opens) = (vec![], vec![], true, true);
        let mut shown = vec![];
        for i in 0..k {
            let src_h = s.below(n + 2) as u64;
            let from_pool = s.below(4) == 0;
            let src = if from_pool { (at.0, Some(at.1)) } else { (src_h, times.get(src_h as usize).copied()) };
            // close to the end of the lock
            let x = s.below(4) as u64;
            let (h0, t0) = (at.0.saturating_sub(1) + x.min(2), now.saturating_sub(1) + x.min(2));
            let lock = match s.below(4) { 0 => OutputTimeLock::UntilHeight(BlockHeight::new(h0)), 1 => OutputTimeLock::UntilTime(time(t0)), 2 => OutputTimeLock::ForBlockCount(h0.saturating_sub(src.0)), _ => OutputTimeLock::ForSeconds(t0.saturating_sub(src.1.unwrap_or(0))) };
            let kind = s.below(5);
            let signer = s.below(12) == 0;
            let who = if signer { Destination::ScriptHash(Id::new(H256::zero())) } else { Destination::AnyoneCanSpend };
            let right = s.below(6) != 0;
            let plain = InputWitness::NoSignature(None);
            let htlc = |hash| TxOutput::Htlc(coins(), Box::new(HashedTimelockContract { secret_hash: hash, spend_key: who.clone(), refund_timelock: lock, refund_key: Destination::AnyoneCanSpend }));
            let claim = |c: AuthorizedHashedTimelockContractSpend| InputWitness::Standard(StandardInputSignature::new(SigHashType::all(), c.encode()));
            // (the output, the witness; whether all but the locks is right; whether its locks count)
            let (out, w, ok, locked) = match kind {
                0 => (TxOutput::Transfer(coins(), who.clone()), plain, !signer, None),
                1 => (TxOutput::LockThenTransfer(coins(), who.clone(), lock), plain, !signer, Some(lock)),
                // a burnt output can not be spent: nothing opens it
                2 if s.below(6) == 0 => (TxOutput::Burn(coins()), plain, false, None),
                // nobody can sign with AnyoneCanSpend's key, so the claims of a contract fail as a whole; the lock counts
                3 => (htlc(if right { secret.hash() } else { HtlcSecretHash::from([1; 20]) }), claim(AuthorizedHashedTimelockContractSpend::Spend(secret.clone(), vec![])), false, None),
                4 => (htlc(secret.hash()), claim(AuthorizedHashedTimelockContractSpend::Refund(vec![])), false, Some(lock)),
                _ => (TxOutput::LockThenTransfer(coins(), who.clone(), lock), plain, !signer, Some(lock)),
            };
            let burnt = matches!(out, TxOutput::Burn(_));
            shown.push(format!("{out:?} from {src:?}"));
            good &= ok; opens &= !burnt && locked.map_or(true, |l| open(&l, src, at));
            if bad != i { store.utxos.insert(point(i), if from_pool { Utxo::new_for_mempool(out) } else { Utxo::new_for_blockchain(out, BlockHeight::new(src_h)) }); } else { good = false; opens = false; }
            inputs.push(TxInput::Utxo(point(i))); witnesses.push(w);
        }
        inputs!(s, n, m, now, mempool, over, bad, shown);
        let tx = SignedTransaction::new(Transaction::new(0, inputs, vec![]).unwrap(), witnesses).unwrap();
        let (db, tdb, odb) = (pos_accounting::PoSAccountingDB::<_, pos_accounting::DefaultStorageTag>::new(&store.pools), tokens_accounting::TokensAccountingDB::new(&store.tokens), orders_accounting::OrdersAccountingDB::new(&store.orders));
        let (p, t, o) = (pos_accounting::PoSAccountingDelta::new(&db), tokens_accounting::TokensAccountingCache::new(&tdb), orders_accounting::OrdersAccountingCache::new(&odb));
        let tip = GenBlockIndex::Block(last.clone().unwrap());
        let src = if mempool { TransactionSourceForConnect::for_mempool_with_height(&tip, BlockHeight::new(at.0)) } else { TransactionSourceForConnect::for_chain(last.as_ref().unwrap()) };
        let full = verify_full(&tx, chain(), &Coins(&store), &p, &t, &o, &store, &src, time(now), BlockHeight::new(at.0));
        assert_eq!(full.is_ok(), good && opens, "{full:?}");
        let locks = verify_timelocks(&tx, chain(), &Coins(&store), &store, ids[n], BlockHeight::new(at.0), time(now));
        assert_eq!(locks.is_ok(), opens, "{locks:?}");
    }
    c30_witness_count(s) {
        let mut store = Store { blocks: BTreeMap::new(), utxos: BTreeMap::new(), pools: pos_accounting::InMemoryPoSAccounting::new(), tokens: tokens_accounting::InMemoryTokensAccounting::new(), orders: orders_accounting::InMemoryOrdersAccounting::new() };
        let (_, _, last) = grow(&mut store, s, 1, 1);
        let (k, w) = (s.below(4), s.below(4));
        let (given, wit) = (s.below(5) != 0, s.below(5) != 0);
        inputs!(s, k, w, given, wit);
        let vrf = { static K: std::sync::OnceLock<crypto::vrf::VRFPublicKey> = std::sync::OnceLock::new(); K.get_or_init(|| crypto::vrf::VRFPrivateKey::new_from_entropy(crypto::vrf::VRFKeyKind::Schnorrkel).1).clone() };
        for i in 0..k { let id = PoolId::new(H256::zero()); let out = if i % 2 == 0 { TxOutput::ProduceBlockFromStake(Destination::AnyoneCanSpend, id) } else { TxOutput::CreateStakePool(id, Box::new(common::chain::stakelock::StakePoolData::new(Amount::from_atoms(1), Destination::AnyoneCanSpend, vrf.clone(), Destination::PublicKeyHash((&crypto::key::PrivateKey::new_from_entropy(crypto::key::KeyKind::Secp256k1Schnorr).1).into()), common::primitives::per_thousand::PerThousand::new(1).unwrap(), Amount::ZERO))) }; store.utxos.insert(point(i), Utxo::new_for_blockchain(out, BlockHeight::new(0))); }
        let inputs: Vec<_> = (0..k).map(|i| TxInput::Utxo(point(i))).collect();
        let witness = vec![InputWitness::NoSignature(None); w];
        let reward = BlockRewardTransactable::new(given.then_some(&inputs[..]), Some(&[]), wit.then_some(&witness[..]));
        let (db, tdb, odb) = (pos_accounting::PoSAccountingDB::<_, pos_accounting::DefaultStorageTag>::new(&store.pools), tokens_accounting::TokensAccountingDB::new(&store.tokens), orders_accounting::OrdersAccountingDB::new(&store.orders));
        let (p, t, o) = (pos_accounting::PoSAccountingDelta::new(&db), tokens_accounting::TokensAccountingCache::new(&tdb), orders_accounting::OrdersAccountingCache::new(&odb));
        let r = verify_full(&reward, chain(), &Coins(&store), &p, &t, &o, &store, &TransactionSourceForConnect::for_chain(last.as_ref().unwrap()), time(0), BlockHeight::new(1));
        assert_eq!(r.is_ok(), (if given { k } else { 0 }) == (if wit { w } else { 0 }), "{r:?}");
    }
}
