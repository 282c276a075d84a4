//! C10: amounts and signed deltas of amounts, against a model over wide integers.
use accounting::*;
use common::primitives::amount::SignedAmount;
use common::primitives::Amount;
use std::collections::BTreeMap;
use vsrc::*;

type C = DeltaAmountCollection<u8>;
fn fit(x: Option<i128>) -> Option<i128> { x }
fn model_of(c: &C) -> BTreeMap<u8, i128> { c.data().iter().map(|(k, v)| (*k, v.into_atoms())).collect() }
fn amt(s: &mut impl Src) -> i128 { match s.below(4) { 0 => s.i128(), 1 => s.below(7) as i128 - 3, 2 => i128::MAX - s.below(3) as i128, _ => s.i64() as i128 } }

cases! {
    c10_combining_an_amount_with_a_delta(s) [unwind 2] {
        let (a, some, x) = (s.u128(), s.bool(), s.i128());
        inputs!(s, a, some, x);
        let r = combine_amount_delta(Amount::from_atoms(a), if some { Some(SignedAmount::from_atoms(x)) } else { None });
        if !some { assert!(matches!(r, Ok(v) if v.into_atoms() == a)); return }
        let want = if a <= i128::MAX as u128 { fit((a as i128).checked_add(x)).filter(|v| *v >= 0) } else { None };
        match (r, want) { (Ok(v), Some(w)) => assert!(v.into_atoms() == w as u128), (Err(_), None) => {} _ => panic!("wrong result") }
    }
    c10_histories_of_one_collection(s) {
        let n = s.below(12) + 1;
        let hist: Vec<(u8, u8, u128, i128)> = (0..n).map(|_| (s.below(3) as u8, s.below(4) as u8, { let x = amt(s); if s.below(8) == 0 { s.u128() } else { x.unsigned_abs() } }, amt(s))).collect();
        inputs!(s, hist);
        let mut c = C::new();
        let mut m: BTreeMap<u8, i128> = BTreeMap::new();
        let zero = |m: &mut BTreeMap<u8, i128>, k: u8, v: i128| { if v == 0 { m.remove(&k); } else { m.insert(k, v); } };
        for (op, k, u, d) in hist {
            let cur = m.get(&k).copied().unwrap_or(0);
            let (r, want) = match op {
                0 => (c.merge_delta_amount_element(k, SignedAmount::from_atoms(d)), cur.checked_add(d)),
                1 => (c.add_unsigned(k, Amount::from_atoms(u)), i128::try_from(u).ok().and_then(|u| cur.checked_add(u))),
                _ => (c.sub_unsigned(k, Amount::from_atoms(u)), i128::try_from(u).ok().and_then(|u| cur.checked_sub(u))),
            };
            assert_eq!(r.is_ok(), want.is_some());
            if let Some(w) = want { zero(&mut m, k, w) }
            assert_eq!(model_of(&c), m, "an accepted delta adds exactly, a refused one changes nothing, no zero is kept");
        }
        assert_eq!(c.clone().consume().into_iter().map(|(k, v)| (k, v.into_atoms())).collect::<BTreeMap<_, _>>(), m);
    }
    c10_merging_and_undoing(s) {
        let mut gen = |s: &mut _| -> BTreeMap<u8, i128> { let mut m = BTreeMap::new(); for k in 0..4u8 { if Src::bool(s) { let v = amt(s); if v != 0 { m.insert(k, v); } } } m };
        let (a, b) = (gen(s), gen(s));
        inputs!(s, a, b);
        let mk = |m: &BTreeMap<u8, i128>| m.iter().map(|(k, v)| (*k, SignedAmount::from_atoms(*v))).collect::<C>();
        let mut c = mk(&a);
        let mut want = a.clone();
        let ok = b.iter().all(|(k, v)| a.get(k).copied().unwrap_or(0).checked_add(*v).is_some());
        assert_eq!(c.merge_delta_amounts(mk(&b)).is_ok(), ok);
        if !ok { return }
        for (k, v) in &b { let x = want.get(k).copied().unwrap_or(0) + v; if x == 0 { want.remove(k); } else { want.insert(*k, x); } }
        assert_eq!(model_of(&c), want);
        let undoable = b.values().all(|v| *v != i128::MIN);
        assert_eq!(c.undo_merge_delta_amounts(mk(&b)).is_ok(), undoable);
        if undoable { assert_eq!(model_of(&c), a) }
    }
}
