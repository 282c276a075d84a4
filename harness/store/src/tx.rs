use std::collections::BTreeMap;
use storage_core::backend::{Backend, BackendImpl, ReadOps, TxRw, WriteOps};
use storage_core::{Data, DbMapId};
use vsrc::{assume, cases, inputs, Src};

type Model = Vec<BTreeMap<Data, Data>>;
const MAPS: usize = 3;

/// Keys that share prefixes, with the bytes at which a range ends wrongly
fn key(s: &mut impl Src) -> Data {
    let n = if s.below(4) == 0 { 4 + s.below(4) } else { s.below(4) };
    (0..n).map(|_| [0u8, 1, 7, 0x7f, 0x80, 0xfe, 0xff][s.below(7)]).collect()
}
fn val(s: &mut impl Src) -> Data { let n = s.below(3); (0..n).map(|_| s.u8()).collect() }
fn desc() -> storage_core::DbDesc { storage_core::types::construct::db_desc((0..MAPS).map(|i| storage_core::DbMapDesc::new(format!("map{i}")))) }

/// The whole content, by every way of reading it
fn compare(tx: &impl ReadOps, m: &Model, probes: &[Data]) {
    for (i, m) in m.iter().enumerate() {
        let id = DbMapId::new(i);
        for k in probes.iter().chain(m.keys()) {
            assert_eq!(tx.get(id, k).unwrap().map(|x| x.to_vec()), m.get(k).cloned(), "get {k:?} of map {i}");
        }
        for p in probes.iter().chain(std::iter::once(&vec![])).chain(m.keys()) {
            let want: Vec<_> = m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect();
            assert_eq!(tx.prefix_iter(id, p.clone()).unwrap().collect::<Vec<_>>(), want, "entries of map {i} with the prefix {p:?}");
            let want: Vec<_> = m.iter().filter(|(k, _)| *k >= p).map(|(k, v)| (k.clone(), v.clone())).collect();
            assert_eq!(tx.greater_equal_iter(id, p.clone()).unwrap().collect::<Vec<_>>(), want, "entries of map {i} from {p:?} on");
        }
    }
}

enum Op { Put(usize, Data, Data), Del(usize, Data), Look }
impl std::fmt::Debug for Op { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Op::Put(m, k, v) => write!(f, "put({m},{k:?},{v:?})"), Op::Del(m, k) => write!(f, "del({m},{k:?})"), Op::Look => write!(f, "look") } } }

fn history(s: &mut impl Src) -> Vec<(Vec<Op>, bool, bool)> {
    let n = 1 + s.below(4);
    (0..n).map(|_| {
        let n = s.below(6);
        let ops = (0..n).map(|_| match s.below(7) { 0..=3 => Op::Put(s.below(MAPS), key(s), val(s)), 4 | 5 => Op::Del(s.below(MAPS), key(s)), _ => Op::Look }).collect();
        (ops, s.below(4) != 0, s.bool())
    }).collect()
}

fn apply(w: &mut (impl ReadOps + WriteOps), m: &mut Model, ops: &[Op], probes: &[Data]) {
    for op in ops {
        match op {
            Op::Put(i, k, v) => { w.put(DbMapId::new(*i), k.clone(), v.clone()).unwrap(); m[*i].insert(k.clone(), v.clone()); }
            Op::Del(i, k) => { w.del(DbMapId::new(*i), k).unwrap(); m[*i].remove(k); }
            Op::Look => compare(w, m, probes),
        }
    }
    compare(w, m, probes);
}

fn run<B: BackendImpl>(b: &mut B, m: &mut Model, h: &[(Vec<Op>, bool, bool)], probes: &[Data]) {
    for (ops, commit, read) in h {
        let mut own = m.clone();
        let mut w = b.transaction_rw(None).unwrap();
        apply(&mut w, &mut own, ops, probes);
        if *commit { w.commit().unwrap(); *m = own; } else { drop(w) }
        if *read {
            let r1 = b.transaction_ro().unwrap();
            compare(&r1, m, probes);
            let r2 = b.transaction_ro().unwrap();
            drop(r1);
            compare(&r2, m, probes);
        }
    }
    compare(&b.transaction_ro().unwrap(), m, probes);
}

fn fresh() -> Model { vec![BTreeMap::new(); MAPS] }

/// A scratch directory that is removed again
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("vf_store_{}_{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

cases! {
    c19_memory_transactions(s) {
        let h = history(s);
        let probes: Vec<Data> = (0..3).map(|_| key(s)).collect();
        inputs!(s, h, probes);
        let mut b = storage_inmemory::InMemory::new().open(desc()).unwrap();
        run(&mut b, &mut fresh(), &h, &probes);
    }

    c19_sqlite_transactions(s) {
        let h = history(s);
        let probes: Vec<Data> = (0..2).map(|_| key(s)).collect();
        inputs!(s, h, probes);
        let mut b = storage_sqlite::Sqlite::new_in_memory().open(desc()).unwrap();
        run(&mut b, &mut fresh(), &h, &probes);
    }

    // what is committed is there after the file is opened again; what is not is gone
    c19_sqlite_reopened(s) {
        let (h1, h2) = (history(s), history(s));
        let probes: Vec<Data> = (0..2).map(|_| key(s)).collect();
        inputs!(s, h1, h2, probes);
        let d = Scratch::new();
        let open = || storage_sqlite::Sqlite::new(d.0.join("sub").join("db")).with_options(storage_sqlite::Options { disable_fsync: true }).open(desc()).unwrap();
        let mut m = fresh();
        run(&mut open(), &mut m, &h1, &probes);
        let mut b = open();
        compare(&b.transaction_ro().unwrap(), &m, &probes);
        run(&mut b, &mut m, &h2, &probes);
        drop(b);
        compare(&open().transaction_ro().unwrap(), &m, &probes);
    }

    // clones of a backend share the store
    c19_memory_shared(s) {
        let h = history(s);
        let probes: Vec<Data> = (0..2).map(|_| key(s)).collect();
        inputs!(s, h, probes);
        assume!(s, h.len() > 1);
        use storage_core::backend::SharedBackendImpl;
        let mut m = fresh();
        let mut b = storage_inmemory::InMemory::new().open(desc()).unwrap();
        let c = b.clone();
        run(&mut b, &mut m, &h[..1], &probes);
        compare(&c.transaction_ro().unwrap(), &m, &probes);
        let mut w = SharedBackendImpl::transaction_rw(&c, None).unwrap();
        apply(&mut w, &mut m, &h[1].0, &probes);
        w.commit().unwrap();
        drop(c);
        compare(&b.transaction_ro().unwrap(), &m, &probes);
    }

    // numbers used as keys sort as numbers do, and read back
    c19_ordered_numbers(s) {
        let (a, b) = (s.u64() >> s.below(64), if s.bool() { s.u64() } else { s.u64() >> s.below(64) });
        inputs!(s, a, b);
        use serialization::{Decode, Encode};
        use storage::OrderPreservingValue as O;
        macro_rules! check { ($($t:ty)*) => { $(
            let (x, y) = (O::new(a as $t), O::new(b as $t));
            let (xe, ye) = (x.encode(), y.encode());
            assert_eq!((xe.cmp(&ye), x.cmp(&y)), ((a as $t).cmp(&(b as $t)), (a as $t).cmp(&(b as $t))));
            assert_eq!(O::<$t>::decode(&mut &xe[..]).unwrap().inner(), a as $t);
            assert_eq!(xe.len(), std::mem::size_of::<$t>());
        )* } }
        check!(u16 u32 u64);
    }
}
