//! C09: deltas of data, against a model that keeps maps of optional values.
use accounting::*;
use std::collections::BTreeMap;
use vsrc::*;

type M = BTreeMap<u8, (Option<u8>, Option<u8>)>;
type C = DeltaDataCollection<u8, u8>;

fn val(s: &mut impl Src) -> Option<u8> { match s.below(5) { 0 | 1 => None, v => Some(v as u8) } }
/// Mostly a delta that fits what is there
fn delta(s: &mut impl Src, cur: Option<u8>) -> (Option<u8>, Option<u8>) { let old = if s.below(6) == 0 { val(s) } else { cur }; (old, val(s)) }
fn model_of(c: &C) -> M { c.data().iter().map(|(k, d)| (*k, d.clone().consume())).collect() }
fn d(x: (Option<u8>, Option<u8>)) -> DataDelta<u8> { DataDelta::new(x.0, x.1) }
fn merge(m: &mut M, k: u8, x: (Option<u8>, Option<u8>)) -> bool {
    match m.get(&k) { Some(c) if c.1 != x.0 => false, Some(c) => { let n = (c.0, x.1); m.insert(k, n); true } None => { m.insert(k, x); true } }
}
fn apply(base: &BTreeMap<u8, u8>, m: &M) -> Option<BTreeMap<u8, u8>> {
    let mut b = base.clone();
    for (k, (old, new)) in m { if b.get(k).copied() != *old { return None } match new { Some(v) => { b.insert(*k, *v); } None => { b.remove(k); } } }
    Some(b)
}
fn apply_real(base: &BTreeMap<u8, u8>, c: &C) -> Option<BTreeMap<u8, u8>> {
    let mut b = base.clone();
    for k in 0..8u8 {
        match combine_data_with_delta(base.get(&k).copied(), c.data().get(&k).cloned()) { Ok(Some(v)) => { b.insert(k, v); } Ok(None) => { b.remove(&k); } Err(_) => return None }
    }
    Some(b)
}
/// A collection that is applicable to the base
fn coll(s: &mut impl Src, base: &BTreeMap<u8, u8>) -> (C, M) {
    let (mut c, mut m) = (C::new(), M::new());
    for k in 0..4u8 { if s.below(3) != 0 { let x = (base.get(&k).copied(), val(s)); let _ = c.merge_delta_data_element(k, d(x)).expect("first delta of a key"); m.insert(k, x); } }
    (c, m)
}

cases! {
    c09_combining_data_with_a_delta(s) {
        let (lhs, some, x) = (val(s), s.below(5) != 0, (val(s), val(s)));
        let x = if s.bool() { (lhs, x.1) } else { x };
        inputs!(s, lhs, some, x);
        let r = combine_data_with_delta(lhs, some.then(|| d(x)));
        if !some { assert_eq!(r, Ok(lhs)) } else if lhs == x.0 { assert_eq!(r, Ok(x.1)) } else { assert!(r.is_err()) }
        assert_eq!(d(x).invert(), DataDeltaUndo::new(d((x.1, x.0))));
    }
    c09_histories_of_one_collection(s) {
        let n = s.below(12) + 1;
        let (mut c, mut m): (C, M) = (C::new(), M::new());
        let mut hist = vec![];
        for _ in 0..n { let k = s.below(4) as u8; let cur = m.get(&k).and_then(|x| x.1); let x = delta(s, cur); let mut t = m.clone(); if merge(&mut t, k, x) { m = t } hist.push((k, x)); }
        inputs!(s, hist);
        let mut m = M::new();
        let mut undos = vec![];
        for (k, x) in hist {
            let before = c.clone();
            let r = c.merge_delta_data_element(k, d(x));
            if merge(&mut m, k, x) {
                let u = r.expect("a delta that continues the present one is accepted");
                assert_eq!(u.as_delta(), &d((x.1, x.0)));
                undos.push((k, u, before));
            } else { assert!(r.is_err()); assert!(c == before, "a refused delta changes nothing"); }
            assert_eq!(model_of(&c), m);
            for k in 0..5u8 {
                let want = match m.get(&k) { None => GetDataResult::Missing, Some((_, None)) => GetDataResult::Deleted, Some((_, Some(v))) => GetDataResult::Present(v) };
                assert!(c.get_data(&k) == want);
            }
        }
        for (k, u, before) in undos.into_iter().rev() {
            c.undo_merge_delta_data_element(k, u).expect("the newest merge can be undone");
            let (now, b) = (model_of(&c), model_of(&before));
            for j in 0..5u8 {
                if j == k && !b.contains_key(&k) { assert_eq!(now[&k].0, now[&k].1, "undone to no change") } else { assert!(now.get(&j) == b.get(&j) || (now.get(&j).is_some_and(|x| x.0 == x.1) && !b.contains_key(&j))) }
            }
        }
    }
    c09_merging_collections(s) {
        let base: BTreeMap<u8, u8> = (0..4u8).filter_map(|k| val(s).map(|v| (k, v))).collect();
        let (mut a, ma) = coll(s, &base);
        let mid = apply(&base, &ma).expect("applicable");
        let exact = s.below(4) != 0;
        let other: BTreeMap<u8, u8> = if exact { mid.clone() } else { (0..4u8).filter_map(|k| val(s).map(|v| (k, v))).collect() };
        let (b, mb) = coll(s, &other);
        inputs!(s, base, ma, mb);
        assert_eq!(apply_real(&base, &a), Some(mid.clone()));
        assert_eq!(model_of(&a), ma);
        assert!(C::from_iter(ma.iter().map(|(k, x)| (*k, d(*x)))) == a);
        let before = a.clone();
        let r = a.merge_delta_data(b.clone());
        let can = mb.iter().all(|(k, x)| ma.get(k).is_none_or(|c| c.1 == x.0));
        assert_eq!(r.is_ok(), can);
        let Ok(undo) = r else { return };
        let mut want = ma.clone();
        for (k, x) in &mb { assert!(merge(&mut want, *k, *x)); }
        assert_eq!(model_of(&a), want);
        let um: M = undo.data().iter().map(|(k, u)| (*k, u.as_delta().clone().consume())).collect();
        assert_eq!(um, mb.iter().map(|(k, x)| (*k, (x.1, x.0))).collect::<M>());
        // one after the other is the same as both at once
        if let Some(end) = apply(&mid, &mb) { assert_eq!(apply_real(&mid, &b), Some(end.clone())); assert_eq!(apply_real(&base, &a), Some(end)); }
        a.undo_merge_delta_data(undo).expect("can be undone");
        if exact { assert_eq!(apply_real(&base, &a), Some(mid)); }
        for (k, x) in model_of(&a) { assert!(before.data().get(&k).map(|y| y.clone().consume()) == Some(x) || (!ma.contains_key(&k) && x.0 == x.1)); }
    }
    c09_merging_is_associative(s) {
        let base: BTreeMap<u8, u8> = (0..4u8).filter_map(|k| val(s).map(|v| (k, v))).collect();
        let (a, ma) = coll(s, &base);
        let b1 = apply(&base, &ma).unwrap();
        let (b, mb) = coll(s, &b1);
        let b2 = apply(&b1, &mb).unwrap();
        let (c, mc) = coll(s, &b2);
        inputs!(s, base, ma, mb, mc);
        let mut l = a.clone();
        let u1 = l.merge_delta_data(b.clone()).unwrap();
        let u2 = l.merge_delta_data(c.clone()).unwrap();
        let mut bc = b.clone();
        let _ = bc.merge_delta_data(c.clone()).unwrap();
        let mut r = a.clone();
        let _ = r.merge_delta_data(bc).unwrap();
        assert!(l == r);
        assert_eq!(apply_real(&base, &l), apply(&b2, &mc));
        l.undo_merge_delta_data(u2).unwrap();
        l.undo_merge_delta_data(u1).unwrap();
        assert_eq!(apply_real(&base, &l), Some(b1));
    }
}
