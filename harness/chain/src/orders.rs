use common::chain::{output_value::OutputValue, Destination, OrderId, OrdersVersion};
use common::primitives::{Amount, H256};
use orders_accounting::*;
use std::collections::BTreeMap;
use vsrc::{assume, cases, inputs, Src};

type St = BTreeMap<OrderId, (OrderData, u128, u128)>;
const N: usize = 3;
fn id(i: usize) -> OrderId { OrderId::new(H256::from_low_u64_be(i as u64 + 1)) }
fn amt(x: u128) -> Amount { Amount::from_atoms(x) }

#[derive(Debug, Clone)]
enum Op { Create(usize, u128, u128, bool), Fill(usize, u128, bool), Conclude(usize), Freeze(usize), Push, Flush, Drop, UndoLast, Down }

fn small(s: &mut impl Src) -> u128 { match s.below(6) { 0 => s.below(4) as u128, 1 | 2 => s.below(100) as u128, 3 => s.u64() as u128, 4 => s.u128() >> 1, _ => s.u128() >> (1 + s.below(127)) } }

/// Exact product and quotient
pub(crate) fn share(ask: u128, give: u128, fill: u128) -> Option<u128> {
    if ask == 0 { return None }
    // (hi, lo) = give * fill
    let m = u64::MAX as u128;
    let (a, b, c, d) = (give >> 64, give & m, fill >> 64, fill & m);
    let (bd, ad, bc, ac) = (b * d, a * d, b * c, a * c);
    let mid = (bd >> 64) + (ad & m) + (bc & m);
    let (lo, hi) = ((bd & m) | (mid << 64), ac + (ad >> 64) + (bc >> 64) + (mid >> 64));
    // binary long division
    let (mut rem, mut q, mut over) = (0u128, 0u128, false);
    for i in (0..256).rev() {
        let bit = if i >= 128 { hi >> (i - 128) & 1 } else { lo >> i & 1 };
        let top = rem >> 127 == 1;
        rem = rem << 1 | bit;
        let ge = top || rem >= ask;
        if ge { rem = rem.wrapping_sub(ask); }
        if q >> 127 == 1 { over = true }
        q = q << 1 | ge as u128;
    }
    if over { None } else { Some(q) }
}

fn ops(s: &mut impl Src) -> Vec<Op> {
    let n = 1 + s.below(9);
    (0..n).map(|_| match s.below(13) {
        0..=2 => Op::Create(s.below(N), small(s), small(s), s.bool()),
        3..=6 => Op::Fill(s.below(N), small(s), s.bool()),
        7 => Op::Conclude(s.below(N)),
        8 => Op::Freeze(s.below(N)),
        9 => Op::Push,
        10 => Op::Flush,
        11 => Op::UndoLast,
        _ => if s.bool() { Op::Drop } else { Op::Down },
    }).collect()
}

fn value(a: u128, token: bool) -> OutputValue { if token { OutputValue::TokenV1(common::chain::tokens::TokenId::new(H256::from_low_u64_be(7)), amt(a)) } else { OutputValue::Coin(amt(a)) } }
fn side(v: &OutputValue) -> u128 { match v { OutputValue::Coin(a) | OutputValue::TokenV1(_, a) => a.into_atoms(), OutputValue::TokenV0(_) => unreachable!() } }

fn compare(v: &impl OrdersAccountingView, st: &St, what: &str) {
    for i in 0..N {
        let i = id(i);
        assert_eq!(v.get_order_data(&i).ok().unwrap(), st.get(&i).map(|x| x.0.clone()), "data {what}");
        assert_eq!(v.get_ask_balance(&i).ok().unwrap().into_atoms(), st.get(&i).map_or(0, |x| x.1), "ask balance {what}");
        assert_eq!(v.get_give_balance(&i).ok().unwrap().into_atoms(), st.get(&i).map_or(0, |x| x.2), "give balance {what}");
    }
    assert_eq!(v.get_all_order_ids().ok().unwrap().into_iter().collect::<Vec<_>>(), st.keys().copied().collect::<Vec<_>>(), "ids {what}");
}

/// what an operation does to the state, if it is allowed
fn model(st: &St, op: &Op) -> Option<St> {
    let mut n = st.clone();
    match op {
        Op::Create(i, a, g, t) => {
            if st.contains_key(&id(*i)) || *a == 0 || *g == 0 { return None }
            n.insert(id(*i), (OrderData::new(Destination::AnyoneCanSpend, value(*a, *t), value(*g, !*t)), *a, *g));
        }
        Op::Fill(i, f, v1) => {
            let (o, a, g) = st.get(&id(*i))?;
            if o.is_frozen() || f > a { return None }
            let x = if *v1 { share(side(o.ask()), side(o.give()), *f)? } else { share(*a, *g, *f)? };
            if *v1 && x == 0 { return None }
            n.insert(id(*i), (o.clone(), a - f, g.checked_sub(x).expect("an order gives no more than it has")));
        }
        Op::Conclude(i) => { n.remove(&id(*i))?; }
        Op::Freeze(i) => { let o = n.get_mut(&id(*i))?; o.0 = o.0.clone().try_freeze().ok()?; }
        _ => unreachable!(),
    }
    Some(n)
}
fn act(c: &mut impl OrdersAccountingOperations, op: &Op) -> Result<OrdersAccountingUndo, orders_accounting::Error> {
    match op {
        Op::Create(i, a, g, t) => c.create_order(id(*i), OrderData::new(Destination::AnyoneCanSpend, value(*a, *t), value(*g, !*t))),
        Op::Fill(i, f, v1) => c.fill_order(id(*i), amt(*f), if *v1 { OrdersVersion::V1 } else { OrdersVersion::V0 }),
        Op::Conclude(i) => c.conclude_order(id(*i)),
        Op::Freeze(i) => c.freeze_order(id(*i)),
        _ => unreachable!(),
    }
}
fn step(c: &mut (impl OrdersAccountingView + OrdersAccountingOperations), st: &mut St, undos: &mut Vec<(OrdersAccountingUndo, St)>, op: &Op) {
    match op {
        Op::UndoLast => if let Some((u, before)) = undos.pop() { c.undo(u).expect("the last operation can be undone"); *st = before; },
        op => match (act(c, op), model(st, op)) {
            (Ok(u), Some(n)) => { undos.push((u, st.clone())); *st = n; }
            (Err(_), None) => {}
            (r, m) => panic!("{op:?} in {st:?}: {r:?}, expected {m:?}"),
        },
    }
    compare(c, st, "after an operation");
}
/// An operation that is refused may leave the cache half changed, so it is made on a scratch copy first
fn refused(st: &St, op: &Op) -> bool { !matches!(op, Op::UndoLast | Op::Push | Op::Flush | Op::Drop | Op::Down) && model(st, op).is_none() }

cases! {
    // the amount that a fill gives is the share of what is given, rounded down
    c20_filled_amount(s) {
        let (a, g, f) = (small(s), small(s), small(s));
        inputs!(s, a, g, f);
        assert_eq!(calculate_filled_amount(amt(a), amt(g), amt(f)).map(|x| x.into_atoms()), share(a, g, f));
    }

    // histories of operations over a store, with a cache over a cache; undoing in reverse order
    c20_histories(s) {
        let h = ops(s);
        inputs!(s, h);
        let mut store = InMemoryOrdersAccounting::new();
        let mut st = St::new();
        let mut base_undo = None;
        let mut before = st.clone();
        for part in h.split(|o| matches!(o, Op::Down)) {
            before = st.clone();
            let db = OrdersAccountingDB::new(&store);
            let mut c = OrdersAccountingCache::new(&db);
            let (mut cst, mut undos) = (st.clone(), vec![]);
            let mut rest = part.iter();
            while let Some(op) = rest.next() {
                match op {
                    Op::Push => {
                        let (mut k, mut kst, mut ku) = (OrdersAccountingCache::new(&c), cst.clone(), vec![]);
                        let mut flush = false;
                        for op in rest.by_ref() {
                            match op {
                                Op::Flush => { flush = true; break }
                                Op::Drop | Op::Push => break,
                                op => if refused(&kst, op) { let mut x = OrdersAccountingCache::new(&k); assert!(act(&mut x, op).is_err(), "{op:?} in {kst:?} is not refused"); } else { step(&mut k, &mut kst, &mut ku, op) },
                            }
                        }
                        if flush { let d = k.consume(); c.batch_write_orders_data(d).expect("flush"); cst = kst; undos.clear(); }
                        compare(&c, &cst, "after a child cache");
                    }
                    Op::Flush | Op::Drop => {}
                    op => if refused(&cst, op) { let mut x = OrdersAccountingCache::new(&c); assert!(act(&mut x, op).is_err(), "{op:?} in {cst:?} is not refused"); } else { step(&mut c, &mut cst, &mut undos, op) },
                }
            }
            let d = c.consume();
            base_undo = Some(OrdersAccountingDB::new(&mut store).batch_write_orders_data(d).expect("write"));
            st = cst;
            compare(&OrdersAccountingDB::new(&store), &st, "of the store");
            let held: Vec<_> = st.iter().filter(|(_, v)| v.1 > 0).map(|(k, v)| (*k, amt(v.1))).collect();
            assert_eq!(store.ask_balances().iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), held, "no empty balances are stored");
        }
        let _ = (base_undo, before);
    }

    // any number of fills never takes more than the order has, and a complete fill at the remaining price empties it
    c20_fills_in_any_order(s) {
        let (a, g) = (1 + (small(s) >> 1), 1 + (small(s) >> 1));
        let n = 1 + s.below(8);
        let fills: Vec<(u128, bool)> = (0..n).map(|_| (if s.bool() { small(s) } else { 1 + a / (1 + s.below(5) as u128) }, s.bool())).collect();
        inputs!(s, a, g, fills);
        let store = InMemoryOrdersAccounting::new();
        let mut c = OrdersAccountingCache::new(OrdersAccountingDB::new(&store));
        let _u = c.create_order(id(0), OrderData::new(Destination::AnyoneCanSpend, value(a, false), value(g, true))).unwrap();
        for (f, v1) in fills {
            let (a1, g1) = (c.get_ask_balance(&id(0)).unwrap().into_atoms(), c.get_give_balance(&id(0)).unwrap().into_atoms());
            let v = if v1 { OrdersVersion::V1 } else { OrdersVersion::V0 };
            let x = calculate_fill_order(&c, id(0), amt(f), v);
            match (c.fill_order(id(0), amt(f), v), x) {
                (Ok(_), Ok(x)) => {
                    assert_eq!((c.get_ask_balance(&id(0)).unwrap().into_atoms(), c.get_give_balance(&id(0)).unwrap().into_atoms()), (a1 - f, g1 - x.into_atoms()));
                    assert!(v1 || f < a1 || x.into_atoms() == g1, "the last fill leaves {} of {g1}", g1 - x.into_atoms());
                }
                (Err(_), Err(_)) => assert!(f > a1 || a1 == 0 || (v1 && share(a, g, f).unwrap() == 0), "a fill of {f} of {a1} is refused"),
                (r, x) => panic!("{r:?}, {x:?}"),
            }
        }
    }
}
