//! C27: the set of unspent outputs: caches over caches over the database, and undoing what was connected.
use common::chain::block::{BlockReward, BlockRewardTransactable};
use common::chain::htlc::{HashedTimelockContract, HtlcSecretHash};
use common::chain::output_value::OutputValue;
use common::chain::stakelock::StakePoolData;
use common::chain::timelock::OutputTimeLock;
use common::chain::{AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, DelegationId, Destination, GenBlock, OrderAccountCommand, OrderData, OrderId, OutPointSourceId, PoolId, Transaction, TxInput, TxOutput, UtxoOutPoint};
use common::chain::tokens::TokenId;
use common::primitives::{per_thousand::PerThousand, Amount, BlockHeight, Id, Idable, H256};
use serialization::{Decode, Encode};
use std::collections::BTreeMap;
use utxo::{flush_to_base, ConsumedUtxoCache, FlushableUtxoView, Utxo, UtxoSource, UtxosBlockRewardUndo, UtxosBlockUndo, UtxosCache, UtxosDB, UtxosDBInMemoryImpl, UtxosStorageRead, UtxosTxUndo, UtxosTxUndoWithSources, UtxosView};
use vsrc::{cases, inputs, Src};

type Set = BTreeMap<UtxoOutPoint, Utxo>;
fn h(x: u64) -> H256 { H256::from_low_u64_be(x) }
fn any() -> Destination { Destination::AnyoneCanSpend }
fn coin(x: u8) -> OutputValue { OutputValue::Coin(Amount::from_atoms(x as u128)) }
/// the kinds of output that can be spent are those below 6
fn output(k: u8, x: u8) -> TxOutput {
    match k % 12 {
        0 => TxOutput::Transfer(coin(x), any()),
        1 => TxOutput::LockThenTransfer(coin(x), any(), OutputTimeLock::ForBlockCount(3)),
        2 => TxOutput::CreateStakePool(PoolId::new(h(x as u64)), Box::new(StakePoolData::new(Amount::from_atoms(x as u128), any(), crate::pools::vrf(), any(), PerThousand::new(1).unwrap(), Amount::ZERO))),
        3 => TxOutput::ProduceBlockFromStake(any(), PoolId::new(h(x as u64))),
        4 => crate::values::nft(1),
        5 => TxOutput::Htlc(coin(x), Box::new(HashedTimelockContract { secret_hash: HtlcSecretHash([1; 20]), spend_key: any(), refund_timelock: OutputTimeLock::ForBlockCount(9), refund_key: any() })),
        6 => TxOutput::CreateDelegationId(any(), PoolId::new(h(1))),
        7 => TxOutput::DelegateStaking(Amount::from_atoms(x as u128), DelegationId::new(h(1))),
        8 => TxOutput::Burn(coin(x)),
        9 => TxOutput::IssueFungibleToken(Box::new(crate::tokens::issuance(0, x as u128, true))),
        10 => TxOutput::DataDeposit(vec![x]),
        _ => TxOutput::CreateOrder(Box::new(OrderData::new(any(), coin(x), coin(1)))),
    }
}
fn spendable(o: &TxOutput) -> bool { use TxOutput as O; matches!(o, O::Transfer(..) | O::LockThenTransfer(..) | O::CreateStakePool(..) | O::ProduceBlockFromStake(..) | O::IssueNft(..) | O::Htlc(..)) }
fn account(k: u8) -> TxInput {
    let n = AccountNonce::new(k as u64);
    match k % 3 {
        0 => TxInput::Account(AccountOutPoint::new(n, AccountSpending::DelegationBalance(DelegationId::new(h(k as u64)), Amount::from_atoms(3)))),
        1 => TxInput::AccountCommand(n, AccountCommand::LockTokenSupply(TokenId::new(h(k as u64)))),
        _ => TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(OrderId::new(h(k as u64)))),
    }
}
fn source(k: u8) -> UtxoSource { if k % 4 == 0 { UtxoSource::Mempool } else { UtxoSource::Blockchain(BlockHeight::new(k as u64)) } }
/// outpoints that are not of any transaction made here
fn slot(k: u8) -> UtxoOutPoint { let k = k % 6; UtxoOutPoint::new(if k & 1 == 0 { OutPointSourceId::Transaction(Id::new(h(900 + (k as u64 >> 2)))) } else { OutPointSourceId::BlockReward(Id::new(h(900 + (k as u64 >> 2)))) }, k as u32) }

#[derive(Debug, Clone)]
enum Op { Add(u8, u8, u8, u8, bool), Spend(u8), Missing(u8), Tx(Vec<(u8, u8)>, Vec<u8>, u8), Again, Reward(Vec<u8>, Vec<u8>, u8), Undo, Uncache(u8), Push, Flush, Drop, Best(u8), Outputs(Vec<u8>, u8, bool) }
fn ops(s: &mut impl Src) -> Vec<Op> {
    let n = 1 + s.below(30);
    let kinds = |s: &mut _, top: usize| -> Vec<u8> { let n = Src::below(s, 4); (0..n).map(|_| if Src::below(s, 3) == 0 { Src::below(s, top) as u8 } else { 0 }).collect() };
    (0..n).map(|_| match s.below(32) {
        0..=3 => Op::Add(s.u8(), s.below(6) as u8, s.u8(), s.u8(), s.below(3) == 0),
        4..=6 => Op::Spend(s.u8()),
        7 => Op::Missing(s.u8()),
        8..=13 => { let n = s.below(4); let i = (0..n).map(|_| (if s.below(4) == 0 { 1 } else if s.below(24) == 0 { 2 } else { 0 }, s.u8())).collect(); Op::Tx(i, kinds(s, 12), s.u8()) }
        14 => Op::Again,
        15..=17 => { let n = s.below(3); let i = (0..n).map(|_| s.u8()).collect(); let k = if s.below(8) == 0 { 12 } else { 6 }; Op::Reward(i, kinds(s, k), s.u8()) }
        18..=21 => Op::Undo,
        22 => Op::Uncache(s.u8()),
        23..=25 => Op::Push,
        26..=28 => Op::Flush,
        29 => Op::Drop,
        30 => Op::Best(s.u8()),
        _ => Op::Outputs(kinds(s, 12), s.u8(), s.bool()),
    }).collect()
}
#[derive(Clone)]
enum Done { Tx(Transaction, UtxosTxUndo), Reward(Option<Vec<TxInput>>, Vec<TxOutput>, Id<GenBlock>, Option<UtxosBlockRewardUndo>) }
#[derive(Clone)]
struct State { set: Set, best: Id<GenBlock>, done: Vec<(Done, Set)>, undone: Vec<Transaction> }

type Db = UtxosDB<UtxosDBInMemoryImpl>;
/// what can be done on the uppermost cache, whatever is below it
trait Act { type Out; fn act<P: UtxosView>(self, c: &mut UtxosCache<P>) -> Self::Out; }
fn on_top<A: Act>(db: &Db, layers: &mut [ConsumedUtxoCache], a: A) -> A::Out {
    fn next<P: UtxosView, A: Act>(below: &P, layers: &mut [ConsumedUtxoCache], a: A, deep: usize) -> A::Out {
        let (first, rest) = layers.split_first_mut().unwrap();
        let mut c = UtxosCache::from_data(below, first.clone()).ok().unwrap();
        if rest.is_empty() { let r = a.act(&mut c); *first = c.consume(); return r }
        // the depth of types must be bounded
        match deep { 0 => next1(&c, rest, a), _ => unreachable!() }
    }
    fn next1<P: UtxosView, A: Act>(below: &P, layers: &mut [ConsumedUtxoCache], a: A) -> A::Out {
        let (first, rest) = layers.split_first_mut().unwrap();
        let mut c = UtxosCache::from_data(below, first.clone()).ok().unwrap();
        if rest.is_empty() { let r = a.act(&mut c); *first = c.consume(); return r }
        let mut d = UtxosCache::from_data(&c, rest[0].clone()).ok().unwrap();
        let r = a.act(&mut d);
        rest[0] = d.consume();
        r
    }
    next(db, layers, a, 0)
}
const DEEPEST: usize = 3;
struct Look<'a> { want: &'a State, seen: &'a [UtxoOutPoint], what: &'a str }
fn look(v: &impl UtxosView, l: &Look) {
    for o in l.seen {
        let want = l.want.set.get(o);
        assert_eq!(v.utxo(o).ok().unwrap().as_ref(), want, "{o:?} {}", l.what);
        assert_eq!(v.has_utxo(o).ok().unwrap(), want.is_some(), "presence of {o:?} {}", l.what);
    }
    assert_eq!(v.best_block_hash().ok().unwrap(), l.want.best, "the best block {}", l.what);
}
impl Act for Look<'_> { type Out = (); fn act<P: UtxosView>(self, c: &mut UtxosCache<P>) { look(c, &self) } }
struct Step<'a> { st: &'a mut State, op: &'a Op, serial: u64, seen: &'a mut Vec<UtxoOutPoint> }
fn make(tx: &Transaction, set: &Set) -> Vec<UtxoOutPoint> { let _ = set; (0..tx.outputs().len()).map(|i| UtxoOutPoint::new(tx.get_id().into(), i as u32)).collect() }
impl Step<'_> {
    fn pick(&self, k: u8, used: &[UtxoOutPoint]) -> Option<UtxoOutPoint> { let l: Vec<_> = self.st.set.keys().filter(|o| !used.contains(o)).collect(); if l.is_empty() { None } else { Some(l[k as usize % l.len()].clone()) } }
    fn saw(&mut self, o: &UtxoOutPoint) { if !self.seen.contains(o) { self.seen.push(o.clone()) } }
    fn connect<P: UtxosView>(&mut self, c: &mut UtxosCache<P>, tx: Transaction, k: u8) {
        let before = self.st.set.clone();
        let (mut after, mut undo, mut ids) = (before.clone(), vec![], vec![]);
        let mut bad = false;
        for i in tx.inputs() { if let TxInput::Utxo(o) = i { match after.remove(o) { Some(u) => undo.push(Some(u)), None => bad = true } ids.push(o.source_id()); } else { undo.push(None) } }
        if bad {
            // what is left of the cache is of no use then
            let mut d = UtxosCache::new(&*c).ok().unwrap();
            assert!(d.connect_transaction(&tx, source(k)).is_err(), "what is not there cannot be spent");
            return;
        }
        for (o, out) in make(&tx, &after).into_iter().zip(tx.outputs()) { self.saw(&o); if spendable(out) { after.insert(o, Utxo::new(out.clone(), source(k))); } }
        let u = c.connect_transaction(&tx, source(k)).expect("the inputs are there");
        let (u, sources) = u.consume();
        assert_eq!((u.inner(), &sources), (&undo[..], &ids), "what is kept to undo a transaction");
        self.st.set = after;
        self.st.done.push((Done::Tx(tx, u), before));
    }
}
impl Act for Step<'_> {
    type Out = ();
    fn act<P: UtxosView>(mut self, c: &mut UtxosCache<P>) {
        match self.op {
            Op::Add(k, o, x, src, over) => {
                let p = slot(*k);
                self.saw(&p);
                let u = Utxo::new(output(*o, *x), source(*src));
                match (self.st.set.contains_key(&p), over) {
                    (true, false) if c.has_utxo_in_cache(&p) => assert!(c.add_utxo(&p, u, false).is_err(), "an output is not made twice"),
                    (true, false) => {}
                    _ => { c.add_utxo(&p, u.clone(), *over).expect("an output can be added"); self.st.set.insert(p, u); self.st.done.clear(); self.st.undone.clear() }
                }
            }
            Op::Spend(k) => if let Some(p) = self.pick(*k, &[]) { assert_eq!(c.spend_utxo(&p).expect("it is there"), self.st.set.remove(&p).unwrap()); self.st.done.clear(); self.st.undone.clear() },
            Op::Missing(k) => { let p = if self.seen.is_empty() { slot(*k) } else { self.seen[*k as usize % self.seen.len()].clone() }; self.saw(&p); if !self.st.set.contains_key(&p) { assert!(c.spend_utxo(&p).is_err(), "what is not there is not spent") } }
            Op::Tx(ins, outs, k) => {
                let (mut inputs, mut used) = (vec![], vec![]);
                for (kind, k) in ins { match kind { 0 => if let Some(p) = self.pick(*k, &used) { used.push(p.clone()); inputs.push(TxInput::Utxo(p)) }, 1 => inputs.push(account(*k)), _ => inputs.push(TxInput::Utxo(slot(*k))) } }
                let mut outputs: Vec<_> = outs.iter().enumerate().map(|(i, o)| output(*o, k.wrapping_add(i as u8))).collect();
                outputs.push(TxOutput::DataDeposit(self.serial.to_le_bytes().to_vec()));
                if k % 3 == 0 { outputs.rotate_right(1) }
                let twice = { let l: Vec<_> = inputs.iter().filter_map(|i| if let TxInput::Utxo(o) = i { Some(o.clone()) } else { None }).collect(); (1..l.len()).any(|i| l[..i].contains(&l[i])) };
                if !twice { self.connect(c, Transaction::new(0, inputs, outputs).unwrap(), *k); self.st.undone.clear() }
            }
            Op::Again => if let Some(tx) = self.st.undone.pop() { self.connect(c, tx, 5) },
            Op::Reward(ins, outs, k) => {
                let mut used = vec![];
                for k in ins { if let Some(p) = self.pick(*k, &used) { used.push(p) } }
                let inputs: Vec<_> = used.iter().cloned().map(TxInput::Utxo).collect();
                let outputs: Vec<_> = outs.iter().enumerate().map(|(i, o)| output(*o, k.wrapping_add(i as u8))).collect();
                let id: Id<GenBlock> = Id::new(h(5000 + self.serial));
                let given = if inputs.is_empty() { None } else { Some(&inputs[..]) };
                let r = BlockRewardTransactable::new(given, Some(&outputs), None);
                if !outputs.iter().all(spendable) { let mut d = UtxosCache::new(&*c).ok().unwrap(); assert!(d.connect_block_transactable(&r, &id, BlockHeight::new(*k as u64)).is_err(), "a reward is something to be spent"); return }
                let before = self.st.set.clone();
                let undo = c.connect_block_transactable(&r, &id, BlockHeight::new(*k as u64)).expect("the inputs are there");
                let want: Vec<_> = used.iter().map(|o| self.st.set.remove(o).unwrap()).collect();
                assert_eq!(undo.as_ref().map(|u| u.inner().to_vec()), if want.is_empty() { None } else { Some(want) }, "what is kept to undo a reward");
                for (i, o) in outputs.iter().enumerate() { let p = UtxoOutPoint::new(OutPointSourceId::BlockReward(id), i as u32); self.saw(&p); self.st.set.insert(p, Utxo::new_for_blockchain(o.clone(), BlockHeight::new(*k as u64))); }
                self.st.done.push((Done::Reward(given.map(|x| x.to_vec()), outputs, id, undo), before));
            }
            Op::Undo => if let Some((d, before)) = self.st.done.pop() {
                match d {
                    Done::Tx(tx, undo) => {
                        let stored = UtxosTxUndo::decode(&mut &undo.encode()[..]).unwrap();
                        c.disconnect_transaction(&tx, stored).expect("the last thing done can be undone");
                        self.st.undone.push(tx);
                    }
                    Done::Reward(ins, outs, id, undo) => {
                        if ins.is_some() { let mut d = UtxosCache::new(&*c).ok().unwrap(); assert!(d.disconnect_block_transactable(&BlockRewardTransactable::new(ins.as_deref(), Some(&outs), None), &id, None).is_err(), "nothing to undo a reward with") }
                        c.disconnect_block_transactable(&BlockRewardTransactable::new(ins.as_deref(), Some(&outs), None), &id, undo).expect("the last thing done can be undone");
                    }
                }
                self.st.set = before;
            },
            Op::Uncache(k) => if !self.seen.is_empty() { let p = self.seen[*k as usize % self.seen.len()].clone(); let _ = c.uncache(&p); },
            Op::Best(k) => { self.st.best = Id::new(h(*k as u64)); c.set_best_block(self.st.best) }
            Op::Outputs(outs, k, check) => {
                let mut outputs: Vec<_> = outs.iter().map(|o| output(*o, *k)).collect();
                if *check {
                    // a reward: all its outputs
                    outputs.retain(spendable);
                    let id: Id<GenBlock> = Id::new(h(7000 + self.serial));
                    c.add_utxos_from_block_reward(&BlockReward::new(outputs.clone()), source(*k), &id, k % 2 == 0).expect("new outputs");
                    for (i, o) in outputs.into_iter().enumerate() { let p = UtxoOutPoint::new(OutPointSourceId::BlockReward(id), i as u32); self.saw(&p); self.st.set.insert(p, Utxo::new(o, source(*k))); }
                } else {
                    outputs.push(TxOutput::DataDeposit(self.serial.to_le_bytes().to_vec()));
                    outputs.reverse();
                    let tx = Transaction::new(0, vec![], outputs).unwrap();
                    c.add_utxos_from_tx(&tx, source(*k), k % 2 == 0).expect("new outputs");
                    for (p, o) in make(&tx, &self.st.set).into_iter().zip(tx.outputs()) { self.saw(&p); if spendable(o) { self.st.set.insert(p, Utxo::new(o.clone(), source(*k))); } }
                }
                self.st.done.clear();
                self.st.undone.clear();
            }
            Op::Push | Op::Flush | Op::Drop => unreachable!(),
        }
    }
}
struct New;
impl Act for New { type Out = ConsumedUtxoCache; fn act<P: UtxosView>(self, c: &mut UtxosCache<P>) -> ConsumedUtxoCache { UtxosCache::new(&*c).ok().unwrap().consume() } }
struct Take(ConsumedUtxoCache);
impl Act for Take { type Out = (); fn act<P: UtxosView>(self, c: &mut UtxosCache<P>) { c.batch_write(self.0).expect("a cache can be flushed") } }

cases! {
    // what a view answers is what was put in and not yet spent, however many caches lie over each other
    c27_histories(s) {
        let ops = ops(s);
        let start: Vec<(u8, u8)> = (0..s.below(4)).map(|_| (s.u8(), s.u8())).collect();
        inputs!(s, start, ops);
        let best: Id<GenBlock> = Id::new(h(1));
        let set: Set = start.iter().map(|(k, x)| (slot(*k), Utxo::new(output(x % 6, *x), source(*x)))).collect();
        let mut db = UtxosDB::new(UtxosDBInMemoryImpl::new(best, set.clone()));
        let mut seen: Vec<_> = (0..6).map(slot).collect();
        let mut layers: Vec<ConsumedUtxoCache> = vec![UtxosCache::new(&db).ok().unwrap().consume()];
        // below[i] is what is to be seen when the caches above i are thrown away
        let mut below: Vec<State> = vec![State { set, best, done: vec![], undone: vec![] }];
        let mut st = below[0].clone();
        for (serial, op) in ops.iter().enumerate() {
            match op {
                Op::Push => if layers.len() < DEEPEST { let l = on_top(&db, &mut layers, New); layers.push(l); below.push(st.clone()) },
                Op::Flush => {
                    let top = layers.pop().unwrap();
                    below.pop();
                    if layers.is_empty() {
                        { let nothing = UtxosDB::new(UtxosDBInMemoryImpl::new(best, Set::new())); let c = UtxosCache::from_data(&nothing, top).ok().unwrap(); flush_to_base(c, &mut db).expect("a cache can be flushed") }
                        look(&db, &Look { want: &st, seen: &seen, what: "in the database after a flush" });
                        let stored: Set = seen.iter().filter_map(|o| db.get_utxo(o).unwrap().map(|u| (o.clone(), u))).collect();
                        assert_eq!(stored, st.set);
                        layers.push(UtxosCache::new(&db).ok().unwrap().consume());
                        below.push(st.clone());
                    } else { on_top(&db, &mut layers, Take(top)) }
                }
                Op::Drop => if layers.len() > 1 { layers.pop(); st = below.pop().unwrap() } else { layers[0] = UtxosCache::new(&db).ok().unwrap().consume(); st = below[0].clone() },
                op => on_top(&db, &mut layers, Step { st: &mut st, op, serial: serial as u64, seen: &mut seen }),
            }
            let what = format!("after {op:?}, number {serial}");
            on_top(&db, &mut layers, Look { want: &st, seen: &seen, what: &what });
            look(&db, &Look { want: &below[0], seen: &seen, what: "in the database" });
        }
    }
    // an undo of a coin where the transaction spends from an account is refused
    c27_wrong_undo(s) {
        let (k, n, at) = (s.u8(), 1 + s.below(3), s.below(3));
        inputs!(s, k, n, at);
        let db = UtxosDB::new(UtxosDBInMemoryImpl::new(Id::new(h(1)), Set::new()));
        let mut c = UtxosCache::new(&db).ok().unwrap();
        let tx = Transaction::new(0, (0..n).map(|i| account(k.wrapping_add(i as u8))).collect(), vec![output(0, k)]).unwrap();
        let u = c.connect_transaction(&tx, source(k)).unwrap();
        assert_eq!(u.utxos(), vec![None; n]);
        let mut wrong = vec![None; n];
        wrong[at % n] = Some(Utxo::new(output(0, 1), source(1)));
        assert!(c.disconnect_transaction(&tx, UtxosTxUndo::new(wrong)).is_err());
    }
    // what is kept to undo a block keeps every transaction's part and who depends on whom
    c27_block_undo(s) {
        let n = s.below(5);
        let txs: Vec<(u8, Vec<(bool, u8)>)> = (0..n).map(|_| (s.below(4) as u8, { let n = s.below(3); (0..n).map(|_| (s.bool(), s.below(4) as u8)).collect() })).collect();
        let reward = s.bool();
        inputs!(s, txs, reward);
        let id = |k: u8| -> Id<Transaction> { Id::new(h(k as u64)) };
        let tx_undo = |k: u8, sources: &[(bool, u8)]| UtxosTxUndoWithSources::new(vec![Some(Utxo::new(output(0, k), source(k))), None], sources.iter().map(|(t, k)| if *t { OutPointSourceId::Transaction(id(*k)) } else { OutPointSourceId::BlockReward(Id::new(h(*k as u64))) }).collect());
        let reward = reward.then(|| UtxosBlockRewardUndo::new(vec![Utxo::new(output(3, 3), source(3))]));
        let mut b = UtxosBlockUndo::new(reward.clone(), BTreeMap::new()).unwrap();
        let (mut kept, mut deps) = (BTreeMap::new(), std::collections::BTreeSet::new());
        for (k, sources) in &txs {
            let fresh = !kept.contains_key(&id(*k));
            assert_eq!(b.insert_tx_undo(id(*k), tx_undo(*k, sources)).is_ok(), fresh);
            if fresh { kept.insert(id(*k), tx_undo(*k, sources).consume().0); for (t, x) in sources { if *t { deps.insert((id(*k), id(*x))); } } }
        }
        let b = UtxosBlockUndo::decode(&mut &b.encode()[..]).unwrap();
        let c = b.clone().consume();
        assert_eq!((&c.reward_undo, &c.tx_undos, &c.child_parent_dependencies), (&reward, &kept, &deps));
        assert_eq!(c.parent_child_dependencies, deps.iter().map(|(a, b)| (*b, *a)).collect());
        assert_eq!(UtxosBlockUndo::from_data(c.reward_undo, c.tx_undos, c.child_parent_dependencies, c.parent_child_dependencies), b);
        // the same from all of them at once
        let first: BTreeMap<_, _> = txs.iter().rev().map(|(k, s)| (id(*k), tx_undo(*k, s))).collect();
        assert_eq!(UtxosBlockUndo::new(reward, first).unwrap(), b);
    }
}
