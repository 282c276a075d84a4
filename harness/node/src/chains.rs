//! C31: histories of blocks given to a node: honest branches with transactions of every kind, blocks that spend what is spent,
//! blocks out of order, invalidated and forgiven blocks, a storage that fails. The oracle is the tree of the blocks and,
//! for the state at a tip, a node that was only ever given the blocks of that tip's chain.
use chainstate::{BlockSource, ChainstateConfig, ChainstateError};
use chainstate::chainstate_interface::ChainstateInterface;
use chainstate_storage::{schema::Schema, Transactional};
use chainstate_test_framework::{storage::Builder as StoreBuilder, TestFramework, TestStore};
use common::chain::{block::{consensus_data::ConsensusData, timestamp::BlockTimestamp, BlockReward}, config::ChainConfig, Block, GenBlock};
use common::primitives::{BlockDistance, BlockHeight, Id, Idable};
use randomness::CryptoRng;
use std::collections::{BTreeMap, BTreeSet};
use test_utils::random::{make_seedable_rng, Seed};
use vsrc::*;

type Dump = storage::raw::StorageContents<Schema>;
type G = Id<GenBlock>;

fn all_of(tf: &TestFramework) -> Dump { tf.storage.transaction_ro().expect("tx").dump_raw().expect("dump") }
/// What is stored, except the blocks and their index (which keep the blocks of other branches too).
fn state(tf: &TestFramework) -> Dump {
    let mut d: Dump = all_of(tf).into_iter().filter(|(k, _)| k.name() != "DBBlock" && k.name() != "DBBlockIndex").collect();
    // kept apart: how deep a branch may still start (it depends on the heights the node has seen)
    for (_, v) in d.iter_mut().filter(|(k, _)| k.name() == "DBValue") { v.retain(|k, _| !k.windows(9).any(|w| w == b"MinHeight")) }
    // a delta that was undone may leave entries that change nothing
    for (k, v) in d.iter_mut().filter(|(k, _)| k.name() == "DBAccountingEpochDelta") { let _ = k; *v = std::mem::take(v).into_iter().filter_map(|(k, v)| essence(&v).map(|v| (k, v))).collect() }
    d
}
fn essence(v: &[u8]) -> Option<Vec<u8>> {
    use serialization::DecodeAll;
    let d = pos_accounting::PoSAccountingDeltaData::decode_all(&mut &v[..]).expect("a delta");
    fn dat<K: Copy + Ord + std::fmt::Debug, T: Clone + Eq + std::fmt::Debug>(m: &accounting::DeltaDataCollection<K, T>, o: &mut String) { for (k, x) in m.data() { let (a, b) = x.clone().consume(); if a != b { *o += &format!("{k:?} {a:?} {b:?};") } } *o += "|" }
    fn amt<K: Copy + Ord + std::fmt::Debug>(m: &accounting::DeltaAmountCollection<K>, o: &mut String) { for (k, x) in m.data() { if x.into_atoms() != 0 { *o += &format!("{k:?} {x:?};") } } *o += "|" }
    let mut o = String::new();
    dat(&d.pool_data, &mut o);
    dat(&d.delegation_data, &mut o);
    amt(&d.pool_balances, &mut o);
    amt(&d.pool_delegation_shares, &mut o);
    amt(&d.delegation_balances, &mut o);
    if o == "|||||" { None } else { Some(o.into_bytes()) }
}
fn differ(a: &Dump, b: &Dump) -> Vec<String> { a.iter().filter(|(k, v)| b.get(k) != Some(*v)).map(|(k, _)| k.name()).collect() }

fn config(depth: u64) -> ChainConfig { common::chain::config::create_unit_test_config_builder().max_depth_for_reorg(BlockDistance::new(depth as i64)).build() }
fn node(rng: &mut impl CryptoRng, c: &ChainConfig, store: Option<TestStore>, heavy: bool) -> TestFramework {
    let b = TestFramework::builder(rng).with_chain_config(c.clone()).with_chainstate_config(ChainstateConfig::new().with_heavy_checks_enabled(heavy).with_max_db_commit_attempts(2));
    match store { Some(s) => b.with_storage(s), None => b }.build()
}

/// A block as the test knows it.
#[derive(Clone)]
struct B { block: Block, parent: G, height: u64, /// spends only what its chain has
    valid: bool }
#[derive(Default)]
struct World { blocks: Vec<B>, at: BTreeMap<G, usize>, states: BTreeMap<G, Dump> }
impl World {
    fn height(&self, g: &G) -> u64 { self.at.get(g).map_or(0, |i| self.blocks[*i].height) }
    fn add(&mut self, block: Block, valid: bool) -> G {
        let (id, parent): (G, G) = (block.get_id().into(), block.prev_block_id());
        let height = self.height(&parent) + 1;
        if !self.at.contains_key(&id) { self.at.insert(id, self.blocks.len()); self.blocks.push(B { block, parent, height, valid }); }
        id
    }
    fn parent(&self, g: &G) -> Option<G> { self.at.get(g).map(|i| self.blocks[*i].parent) }
    /// from genesis to g
    fn chain(&self, g: &G) -> Vec<G> { let mut v = vec![*g]; while let Some(p) = self.parent(v.last().expect("some")) { v.push(p) } v.reverse(); v }
    fn sound(&self, g: &G) -> bool { self.chain(g).iter().all(|x| self.at.get(x).is_none_or(|i| self.blocks[*i].valid)) }
    fn below(&self, g: &G, root: &G) -> bool { self.chain(g).contains(root) }
}

/// The keys go from one test node to the other.
fn keys(a: &mut TestFramework, b: &mut TestFramework) { std::mem::swap(&mut a.key_manager, &mut b.key_manager); std::mem::swap(&mut a.staking_pools, &mut b.staking_pools) }
/// Extends the node's tip by n blocks with random transactions; remembers the blocks and the states.
fn grow(w: &mut World, tf: &mut TestFramework, rng: &mut impl CryptoRng, n: usize, txs: usize) -> Vec<G> {
    (0..n).map(|_| {
        let mut b = tf.make_block_builder();
        for _ in 0..txs { b = b.add_test_transaction(rng) }
        let block = b.build(rng);
        tf.process_block(block.clone(), BlockSource::Local).expect("an honest block").expect("is the tip");
        let id = w.add(block, true);
        w.states.insert(id, state(tf));
        id
    }).collect()
}
fn replay(w: &World, tf: &mut TestFramework, g: &G) { for x in w.chain(g) { if let Some(i) = w.at.get(&x) { tf.process_block(w.blocks[*i].block.clone(), BlockSource::Peer).expect("an honest block"); } } }
fn rebuilt(b: &Block, parent: G, txs: Vec<common::chain::SignedTransaction>, stamp: u64) -> Block {
    Block::new(txs, parent, BlockTimestamp::from_int_seconds(b.timestamp().as_int_seconds() + stamp), ConsensusData::None, BlockReward::new(vec![])).expect("a block")
}

/// What the node is expected to know.
struct View { known: BTreeSet<G>, bad: BTreeSet<G>, stored: BTreeSet<G>, tip: G, depth: u64, floor: u64 }
impl View {
    fn new(genesis: G, depth: u64) -> Self { View { depth, floor: 0, known: BTreeSet::from([genesis]), bad: BTreeSet::new(), stored: BTreeSet::from([genesis]), tip: genesis } }
    /// The block is given to the node: is it taken, and is it the new tip?
    fn give(&mut self, w: &World, g: G) -> (bool, bool) {
        let p = w.parent(&g).expect("not genesis");
        if self.known.contains(&g) { return (false, false) }
        // the parent is not there, or the branch starts too deep
        let (cp, ct) = (w.chain(&p), w.chain(&self.tip));
        let fork = cp.iter().zip(&ct).take_while(|(x, y)| x == y).count() as u64 - 1;
        if !self.known.contains(&p) { return (false, false) }
        if self.bad.contains(&p) { self.known.insert(g); self.bad.insert(g); return (false, false) }
        if fork < self.floor { return (false, false) }
        self.known.insert(g);
        if w.height(&g) <= w.height(&self.tip) { self.stored.insert(g); return (true, false) }
        match w.chain(&g).into_iter().find(|x| w.at.get(x).is_some_and(|i| !w.blocks[*i].valid)) {
            None => { self.stored.insert(g); self.tip = g; self.floor = self.floor.max(w.height(&g).saturating_sub(self.depth)); (true, true) }
            Some(x) => { let all: Vec<G> = self.known.iter().filter(|y| w.below(y, &x)).copied().collect(); self.bad.extend(all); (false, false) }
        }
    }
}

fn check(w: &World, v: &View, tf: &TestFramework, genesis_state: &Dump) {
    let c = &tf.chainstate;
    assert_eq!(c.get_best_block_id().expect("ok"), v.tip, "the tip");
    let chain = w.chain(&v.tip);
    assert_eq!(c.get_min_height_with_allowed_reorg().expect("ok").into_int(), v.floor, "the least height of a branch");
    assert_eq!(c.get_best_block_height().expect("ok").into_int() as usize, chain.len() - 1);
    for (i, x) in chain.iter().enumerate() {
        assert_eq!(c.get_block_id_from_height(BlockHeight::new(i as u64)).expect("ok"), Some(*x), "the block at height {i}");
    }
    assert_eq!(c.get_block_id_from_height(BlockHeight::new(chain.len() as u64)).expect("ok"), None);
    for x in &v.known {
        let at = chain.iter().position(|y| y == x);
        assert_eq!(c.is_block_in_main_chain(x).expect("ok"), at.is_some(), "in the chain");
        assert_eq!(c.get_block_height_in_main_chain(x).expect("ok"), at.map(|i| BlockHeight::new(i as u64)));
        if let Some(i) = w.at.get(x) {
            let idx = c.get_block_index_for_any_block(&w.blocks[*i].block.get_id()).expect("ok");
            if let Some(idx) = &idx {
                assert_eq!((idx.block_height().into_int(), *idx.prev_block_id()), (w.blocks[*i].height, w.blocks[*i].parent));
                assert_eq!(idx.status().is_ok(), !v.bad.contains(x), "the status of a block");
            }
            assert_eq!(c.get_block(&w.blocks[*i].block.get_id()).expect("ok").is_some(), v.stored.contains(x), "blocks are kept");
            if v.stored.contains(x) { assert!(idx.is_some()) }
        }
    }
    let want = w.states.get(&v.tip).unwrap_or(genesis_state);
    let got = state(tf);
    if std::env::var("VF_SHOW").is_ok() { for (k, a) in &got { let b = &want[k]; if a != b { eprintln!("{}: {a:?}\n  {b:?}", k.name()) } } }
    assert!(got == *want, "the state at the tip is not that of its chain: {:?}", differ(&got, want));
}
fn ancestors(w: &World, v: &View, tf: &TestFramework, a: G, b: G) {
    let c = &tf.chainstate;
    let (ca, cb) = (w.chain(&a), w.chain(&b));
    let n = ca.iter().zip(&cb).take_while(|(x, y)| x == y).count();
    if v.stored.contains(&a) && v.stored.contains(&b) {
        assert_eq!(c.last_common_ancestor_by_id(&a, &b).expect("ok"), Some((ca[n - 1], BlockHeight::new(n as u64 - 1))), "the last common ancestor");
        if let Some(i) = w.at.get(&a) {
            let idx = c.get_gen_block_index_for_any_block(&a).expect("ok").expect("stored");
            assert_eq!(idx.block_height().into_int(), w.blocks[*i].height);
            for h in 0..ca.len() { assert_eq!(c.get_ancestor(&idx, BlockHeight::new(h as u64)).expect("ok").block_id(), ca[h], "the ancestor") }
        }
    }
}

/// Two or three branches of honest blocks over a common part, and dishonest copies of some of them.
fn world(s: &mut impl Src, rng: &mut impl CryptoRng, c: &ChainConfig, bad: bool) -> (World, Vec<Vec<G>>, Dump, G) {
    let (p, a, b, k) = (s.below(3), 1 + s.below(4), s.below(5), 1 + s.below(4));
    let third = if s.below(3) == 0 { 1 + s.below(4) } else { 0 };
    let mut w = World::default();
    let mut one = node(rng, c, None, false);
    let genesis: G = c.genesis_block_id();
    let gs = state(&one);
    let common = grow(&mut w, &mut one, rng, p, k);
    let mut branches = vec![];
    let base = common.last().copied().unwrap_or(genesis);
    let mut two = node(rng, c, None, false);
    replay(&w, &mut two, &base);
    // different times, so that empty blocks of the branches differ as well
    two.progress_time_seconds_since_epoch(1);
    let x = grow(&mut w, &mut one, rng, a, k);
    keys(&mut one, &mut two);
    let y = grow(&mut w, &mut two, rng, b, k);
    let mut three = node(rng, c, None, false);
    let z = if third > 0 { let at = *x.get(s.below(a)).unwrap_or(&base); replay(&w, &mut three, &at); three.progress_time_seconds_since_epoch(2); keys(&mut two, &mut three); grow(&mut w, &mut three, rng, third, k) } else { vec![] };
    branches.push([common, x].concat());
    branches.push(y);
    branches.push(z);
    if bad {
        for _ in 0..s.below(3) {
            // a block that repeats the transactions of its parent, and empty blocks on it
            let br = &branches[s.below(2)];
            if br.is_empty() { continue }
            let i = w.at[&br[s.below(br.len())]];
            let h = &w.blocks[i].block.clone();
            if h.transactions().is_empty() { continue }
            let mut v = vec![w.add(rebuilt(h, h.get_id().into(), h.transactions().to_vec(), 1), false)];
            for j in 0..s.below(4) as u64 { let l = *v.last().expect("some"); v.push(w.add(rebuilt(h, l, vec![], 2 + j), true)) }
            branches.push(v);
        }
    }
    (w, branches, gs, genesis)
}
/// Blocks of the branches in some order, parents first.
fn order(s: &mut impl Src, w: &World, branches: &[Vec<G>], genesis: G) -> Vec<G> {
    let mut at = vec![0; branches.len()];
    let mut known = BTreeSet::from([genesis]);
    let mut out = vec![];
    let total: usize = branches.iter().map(|b| b.len()).sum();
    let mut i = s.below(branches.len());
    while out.len() < total {
        if s.below(3) == 0 { i = s.below(branches.len()) }
        let ready = |i: usize| at[i] < branches[i].len() && known.contains(&w.parent(&branches[i][at[i]]).expect("some"));
        if !ready(i) { i = (0..branches.len()).find(|j| ready(*j)).expect("one is ready") }
        let g = branches[i][at[i]];
        at[i] += 1;
        known.insert(g);
        out.push(g);
    }
    out
}
fn is_storage(e: &ChainstateError) -> bool { let t = format!("{e:?}"); t.contains("StorageError") || t.contains("DbCommitError") || t.contains("Recoverable") }

cases! {
    c31_reorganizations(s) {
        let seed = s.u64();
        let mut rng = make_seedable_rng(Seed::from_u64(seed));
        let c = config(1000);
        let (w, branches, gs, genesis) = world(s, &mut rng, &c, false);
        let seq = order(s, &w, &branches, genesis);
        let heavy = s.below(4) == 0;
        let mut tf = node(&mut rng, &c, None, heavy);
        let mut v = View::new(genesis, 1000);
        inputs!(s, seed, seq);
        check(&w, &v, &tf, &gs);
        for (n, g) in seq.iter().enumerate() {
            let r = tf.process_block(w.blocks[w.at[g]].block.clone(), BlockSource::Peer);
            let (ok, new) = v.give(&w, *g);
            assert_eq!(r.as_ref().map(|x| x.is_some()).ok(), ok.then_some(new), "{r:?}");
            check(&w, &v, &tf, &gs);
            assert!(tf.process_block(w.blocks[w.at[g]].block.clone(), BlockSource::Local).is_err(), "a block is taken once");
            if n % 3 == 2 { tf = tf.reload(); check(&w, &v, &tf, &gs) }
        }
        for _ in 0..4 { let (a, b) = (seq[s.below(seq.len())], seq[s.below(seq.len())]); ancestors(&w, &v, &tf, a, b) }
    }
    c31_deep_branches(s) {
        let seed = s.u64();
        let mut rng = make_seedable_rng(Seed::from_u64(seed));
        let depth = 1 + s.below(4) as u64;
        let (w, branches, gs, genesis) = world(s, &mut rng, &config(1000), false);
        let c = config(depth);
        let seq = order(s, &w, &branches, genesis);
        let mut tf = node(&mut rng, &c, None, false);
        let mut v = View::new(genesis, depth);
        inputs!(s, seed, depth, seq);
        for g in seq.iter() {
            let r = tf.process_block(w.blocks[w.at[g]].block.clone(), BlockSource::Peer);
            let (ok, new) = v.give(&w, *g);
            assert_eq!(r.as_ref().map(|x| x.is_some()).ok(), ok.then_some(new), "{r:?}");
            check(&w, &v, &tf, &gs);
        }
    }
    c31_dishonest_blocks(s) {
        let seed = s.u64();
        let mut rng = make_seedable_rng(Seed::from_u64(seed));
        let c = config(1000);
        let (w, branches, gs, genesis) = world(s, &mut rng, &c, true);
        let seq = order(s, &w, &branches, genesis);
        let mut tf = node(&mut rng, &c, None, false);
        let mut v = View::new(genesis, 1000);
        inputs!(s, seed, seq);
        for g in seq.iter() {
            let r = tf.process_block(w.blocks[w.at[g]].block.clone(), BlockSource::Peer);
            let (ok, new) = v.give(&w, *g);
            assert_eq!(r.as_ref().map(|x| x.is_some()).ok(), ok.then_some(new), "{r:?}");
            check(&w, &v, &tf, &gs);
        }
        // blocks are invalidated and forgiven
        let mut roots: Vec<G> = vec![];
        for _ in 0..s.below(4) {
            if roots.is_empty() || s.below(3) > 0 {
                let g = seq[s.below(seq.len())];
                if !v.stored.contains(&g) || v.bad.contains(&g) { continue }
                let id = w.blocks[w.at[&g]].block.get_id();
                tf.chainstate.invalidate_block(&id).expect("ok");
                let was = w.below(&v.tip, &g);
                let all: Vec<G> = v.known.iter().filter(|y| w.below(y, &g)).copied().collect();
                v.bad.extend(all);
                roots.push(g);
                if was { v.tip = w.parent(&g).expect("some") } else { check(&w, &v, &tf, &gs); continue }
            } else {
                let g = roots.remove(s.below(roots.len()));
                if w.parent(&g).is_some_and(|p| v.bad.contains(&p)) { continue }
                let id = w.blocks[w.at[&g]].block.get_id();
                tf.chainstate.reset_block_failure_flags(&id).expect("ok");
                let all: Vec<G> = v.known.iter().filter(|y| w.below(y, &g)).copied().collect();
                for x in all { v.bad.remove(&x); roots.retain(|r| *r != x); if !v.stored.contains(&x) { v.known.remove(&x); } }
            }
            // the best of what may still be followed
            let best = v.stored.iter().filter(|x| !v.bad.contains(*x) && w.sound(x)).map(|x| w.height(x)).max().expect("genesis");
            let tip = tf.chainstate.get_best_block_id().expect("ok");
            if best == w.height(&v.tip) { assert_eq!(tip, v.tip, "as good as the tip is not better") }
            assert!(v.stored.contains(&tip) && !v.bad.contains(&tip) && w.sound(&tip) && w.height(&tip) == best, "the best valid chain is followed: height {} of {best}", w.height(&tip));
            v.tip = tip;
            // blocks found to be bad on the way
            let found: Vec<G> = v.stored.iter().filter(|x| !w.sound(x) && !v.bad.contains(*x)).copied().filter(|x| { let id = w.blocks[w.at[x]].block.get_id(); !tf.chainstate.get_block_index_for_any_block(&id).expect("ok").expect("stored").status().is_ok() }).collect();
            v.bad.extend(found);
            check(&w, &v, &tf, &gs);
        }
        tf = tf.reload();
        check(&w, &v, &tf, &gs);
    }
    c31_failing_storage(s) {
        let seed = s.u64();
        let mut rng = make_seedable_rng(Seed::from_u64(seed));
        let c = config(1000);
        let (w, branches, gs, genesis) = world(s, &mut rng, &c, false);
        let seq = order(s, &w, &branches, genesis);
        // a good store first (the genesis is written to it), which then starts to fail
        let (pw, pd, pc) = ([0.002f32, 0.02, 0.1][s.below(3)], [0.0f32, 0.02, 0.1][s.below(3)], [0.0f32, 0.3][s.below(2)]);
        let n = 1 + s.below(40) as u32;
        inputs!(s, seed, seq, pw, pd, pc, n);
        // the genesis block has to be written first
        let made = (0..30).find_map(|k| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| node(&mut make_seedable_rng(Seed::from_u64(seed ^ k)), &c, Some(failing(pw, pd, pc, n, seed ^ k)), false))).ok());
        assume!(s, made.is_some());
        let mut tf = made.expect("some");
        let mut v = View::new(genesis, 1000);
        check(&w, &v, &tf, &gs);
        for g in seq.iter() {
            let before = all_of(&tf);
            let mut tries = 0;
            loop {
                tries += 1;
                assert!(tries < 60);
                match tf.process_block(w.blocks[w.at[g]].block.clone(), BlockSource::Peer) {
                    Err(e) if is_storage(&e) => { let now = all_of(&tf); assert!(now == before, "a failed attempt changed {:?}", differ(&now, &before)) }
                    r => { let (ok, new) = v.give(&w, *g); assert_eq!(r.as_ref().map(|x| x.is_some()).ok(), ok.then_some(new), "{r:?}"); break }
                }
            }
            check(&w, &v, &tf, &gs);
        }
    }
}

fn failing(w: f32, d: f32, c: f32, n: u32, seed: u64) -> TestStore {
    use storage_core::error::Recoverable as E;
    let errs = || [E::TransactionFailed, E::TemporarilyUnavailable, E::MemMapFull].into_iter().collect::<storage_failing::ErrorSet>();
    StoreBuilder::new(|b| b.max_failures_total(n).max_failures_per_transaction(3).background_write_errors(w, errs()).background_del_errors(d, errs()).commit_errors(c, errs())).build(Seed::from_u64(seed))
}
