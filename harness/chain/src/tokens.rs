//! C22: tokens.
use common::chain::tokens::{IsTokenFreezable, IsTokenFrozen, IsTokenUnfreezable, TokenId, TokenIssuance, TokenIssuanceV1, TokenTotalSupply};
use common::chain::Destination;
use common::primitives::{Amount, H256};
use std::collections::BTreeMap;
use tokens_accounting::*;
use vsrc::{cases, inputs, Src};

const N: usize = 3;
/// the ends of the order of ids are among them
fn id(i: usize) -> TokenId { match i { 0 => TokenId::new(H256::zero()), 1 => TokenId::new(H256::repeat_byte(0xFF)), i => TokenId::new(H256::from_low_u64_be(i as u64)) } }
fn amt(x: u128) -> Amount { Amount::from_atoms(x) }
fn dest(k: u8) -> Destination { if k == 0 { Destination::AnyoneCanSpend } else { Destination::ScriptHash(common::primitives::Id::new(H256::repeat_byte(k))) } }

#[derive(Debug, Clone, PartialEq)]
pub(crate) struct Tok { ticker: Vec<u8>, decimals: u8, uri: Vec<u8>, limit: TokenTotalSupply, locked: bool, frozen: IsTokenFrozen, authority: Destination }
impl Tok { pub(crate) fn data(&self) -> TokenData { TokenData::FungibleToken(FungibleTokenData::new_unchecked(self.ticker.clone(), self.decimals, self.uri.clone(), self.limit, self.locked, self.frozen, self.authority.clone())) } }
#[derive(Debug, Clone, Default, PartialEq)]
struct St { toks: BTreeMap<TokenId, Tok>, supply: BTreeMap<TokenId, u128> }
#[derive(Debug, Clone)]
enum Op { Issue(usize, u8, u128, bool), Mint(usize, u128), MintRest(usize), Unmint(usize, u128), UnmintAll(usize), Lock(usize), Freeze(usize, bool), Unfreeze(usize), Authority(usize, u8), Uri(usize, u8), UndoLast, Push, Flush, Drop, Down }
fn small(s: &mut impl Src) -> u128 { match s.below(5) { 0 => s.below(3) as u128, 1 | 2 => s.below(100) as u128, 3 => s.u64() as u128, _ => s.u128() >> (8 + s.below(110)) } }
fn ops(s: &mut impl Src) -> Vec<Op> {
    let n = 1 + s.below(16);
    (0..n).map(|_| match s.below(24) {
        0..=3 => Op::Issue(s.below(N), s.below(3) as u8, small(s), s.below(3) > 0),
        4..=6 => Op::Mint(s.below(N), small(s)),
        7 => Op::MintRest(s.below(N)),
        8 | 9 => Op::Unmint(s.below(N), small(s)),
        10 => Op::UnmintAll(s.below(N)),
        11 => Op::Lock(s.below(N)),
        12 | 13 => Op::Freeze(s.below(N), s.below(3) > 0),
        14 => Op::Unfreeze(s.below(N)),
        15 => Op::Authority(s.below(N), s.u8() % 3),
        16 => Op::Uri(s.below(N), s.u8() % 3),
        17 | 18 => Op::Push, 19 => Op::Flush, 20 => Op::Drop, 21 => Op::Down,
        _ => Op::UndoLast,
    }).collect()
}
pub(crate) fn issued(kind: u8, limit: u128, freezable: bool) -> Tok {
    Tok { ticker: vec![b'A' + kind; 3], decimals: kind, uri: vec![kind], limit: match kind { 0 => TokenTotalSupply::Fixed(amt(limit)), 1 => TokenTotalSupply::Lockable, _ => TokenTotalSupply::Unlimited },
        locked: false, frozen: IsTokenFrozen::No(if freezable { IsTokenFreezable::Yes } else { IsTokenFreezable::No }), authority: dest(kind) }
}
pub(crate) fn issuance(kind: u8, limit: u128, freezable: bool) -> TokenIssuance {
    let t = issued(kind, limit, freezable);
    TokenIssuance::V1(TokenIssuanceV1 { token_ticker: t.ticker, number_of_decimals: t.decimals, metadata_uri: t.uri, total_supply: t.limit, authority: t.authority, is_freezable: if freezable { IsTokenFreezable::Yes } else { IsTokenFreezable::No } })
}
fn is_frozen(t: &Tok) -> bool { matches!(t.frozen, IsTokenFrozen::Yes(_)) }
/// What the operation does; none if it is refused
fn model(st: &St, op: &Op) -> Option<St> {
    let mut n = st.clone();
    let have = |i: usize| st.supply.get(&id(i)).copied().unwrap_or(0);
    let mut put = |i: usize, x: u128| if x == 0 { n.supply.remove(&id(i)); } else { n.supply.insert(id(i), x); };
    match op {
        Op::Issue(i, k, l, f) => { if n.toks.insert(id(*i), issued(*k, *l, *f)).is_some() { return None } }
        Op::Mint(i, x) => {
            let t = st.toks.get(&id(*i))?;
            if is_frozen(t) { return None }
            let y = have(*i) + x;
            match t.limit { TokenTotalSupply::Fixed(l) => if y > l.into_atoms() { return None }, TokenTotalSupply::Lockable => if t.locked { return None }, TokenTotalSupply::Unlimited => {} }
            put(*i, y)
        }
        Op::Unmint(i, x) => { let t = st.toks.get(&id(*i))?; if is_frozen(t) || t.locked || *x > have(*i) { return None } put(*i, have(*i) - x) }
        Op::Lock(i) => { let t = n.toks.get_mut(&id(*i))?; if is_frozen(t) || t.locked || t.limit != TokenTotalSupply::Lockable { return None } t.locked = true; }
        Op::Freeze(i, un) => { let t = n.toks.get_mut(&id(*i))?; if t.frozen != IsTokenFrozen::No(IsTokenFreezable::Yes) { return None } t.frozen = IsTokenFrozen::Yes(if *un { IsTokenUnfreezable::Yes } else { IsTokenUnfreezable::No }); }
        Op::Unfreeze(i) => { let t = n.toks.get_mut(&id(*i))?; if t.frozen != IsTokenFrozen::Yes(IsTokenUnfreezable::Yes) { return None } t.frozen = IsTokenFrozen::No(IsTokenFreezable::Yes); }
        Op::Authority(i, k) => { let t = n.toks.get_mut(&id(*i))?; if is_frozen(t) { return None } t.authority = dest(*k); }
        Op::Uri(i, k) => { let t = n.toks.get_mut(&id(*i))?; if is_frozen(t) { return None } t.uri = vec![*k; *k as usize]; }
        _ => unreachable!(),
    }
    Some(n)
}
fn bounded(st: &St, op: &Op) -> Op {
    let have = |i: &usize| st.supply.get(&id(*i)).copied().unwrap_or(0);
    match op {
        Op::MintRest(i) => Op::Mint(*i, match st.toks.get(&id(*i)) { Some(Tok { limit: TokenTotalSupply::Fixed(l), .. }) => l.into_atoms() - have(i), _ => 1 }),
        Op::UnmintAll(i) => Op::Unmint(*i, have(i)),
        o => o.clone(),
    }
}
fn act(c: &mut impl TokensAccountingOperations, op: &Op) -> Result<TokenAccountingUndo, tokens_accounting::Error> {
    match op {
        Op::Issue(i, k, l, f) => c.issue_token(id(*i), TokenData::FungibleToken(issuance(*k, *l, *f).into())),
        Op::Mint(i, x) => c.mint_tokens(id(*i), amt(*x)),
        Op::Unmint(i, x) => c.unmint_tokens(id(*i), amt(*x)),
        Op::Lock(i) => c.lock_circulating_supply(id(*i)),
        Op::Freeze(i, un) => c.freeze_token(id(*i), if *un { IsTokenUnfreezable::Yes } else { IsTokenUnfreezable::No }),
        Op::Unfreeze(i) => c.unfreeze_token(id(*i)),
        Op::Authority(i, k) => c.change_authority(id(*i), dest(*k)),
        Op::Uri(i, k) => c.change_metadata_uri(id(*i), vec![*k; *k as usize]),
        _ => unreachable!(),
    }
}
fn compare(v: &impl TokensAccountingView, st: &St, what: &str) {
    for i in 0..N {
        assert_eq!(v.get_token_data(&id(i)).ok().unwrap(), st.toks.get(&id(i)).map(|t| t.data()), "a token {what}");
        assert_eq!(v.get_circulating_supply(&id(i)).ok().unwrap().into_atoms(), st.supply.get(&id(i)).copied().unwrap_or(0), "a supply {what}");
    }
    for (k, x) in &st.supply { if let TokenTotalSupply::Fixed(l) = st.toks.get(k).expect("only tokens have a supply").limit { assert!(*x <= l.into_atoms()) } }
}
fn one<P: TokensAccountingView>(c: &mut TokensAccountingCache<P>, st: &mut St, undos: &mut Vec<(TokenAccountingUndo, St)>, op: &Op) {
    let op = bounded(st, op);
    match &op {
        Op::UndoLast => if let Some((u, before)) = undos.pop() { c.undo(u).expect("the last operation can be undone"); *st = before; },
        op => match (act(c, op), model(st, op)) {
            (Ok(u), Some(n)) => { undos.push((u, st.clone())); *st = n; }
            (Err(_), None) => {}
            (r, m) => panic!("{op:?} in {st:?}: {r:?}, expected {m:?}"),
        },
    }
    compare(c, st, "after an operation");
}

cases! {
    // histories over a store with a cache over a cache; undoing in reverse order
    c22_histories(s) {
        let h = ops(s);
        inputs!(s, h);
        let mut store = InMemoryTokensAccounting::new();
        let mut st = St::default();
        for part in h.split(|o| matches!(o, Op::Down)) {
            let db = TokensAccountingDB::new(&store);
            let mut c = TokensAccountingCache::new(&db);
            let (mut cst, mut undos) = (st.clone(), vec![]);
            let mut rest = part.iter();
            while let Some(op) = rest.next() {
                match op {
                    Op::Push => {
                        let (mut k, mut kst, mut ku) = (TokensAccountingCache::new(&c), cst.clone(), vec![]);
                        let mut flush = false;
                        for op in rest.by_ref() {
                            match op {
                                Op::Flush => { flush = true; break }
                                Op::Drop | Op::Push => break,
                                op => one(&mut k, &mut kst, &mut ku, op),
                            }
                        }
                        if flush { let d = k.consume(); c.batch_write_tokens_data(d).expect("flush"); cst = kst; undos.clear(); }
                        compare(&c, &cst, "after a child");
                    }
                    Op::Flush | Op::Drop => {}
                    op => one(&mut c, &mut cst, &mut undos, op),
                }
            }
            let d = c.consume();
            let mut written = TokensAccountingDB::new(&mut store);
            written.batch_write_tokens_data(d).expect("write");
            st = cst;
            compare(&TokensAccountingDB::new(&store), &st, "of the store");
            assert_eq!(store.tokens_data(), &st.toks.iter().map(|(k, t)| (*k, t.data())).collect::<BTreeMap<_, _>>());
            assert_eq!(store.circulating_supply(), &st.supply.iter().map(|(k, x)| (*k, amt(*x))).collect::<BTreeMap<_, _>>(), "no empty supplies are stored");
        }
    }

    // amounts up to the largest: a supply is the sum exactly, or minting, looking or writing fails
    c22_large_supplies(s) {
        let (limit, kind, mints) = (s.u128(), s.below(3) as u8, [s.u128() >> s.below(128), s.u128() >> s.below(128), s.u128() >> s.below(128)]);
        let (split, nth) = (s.bool(), s.below(3));
        inputs!(s, limit, kind, mints, split, nth);
        let mut store = InMemoryTokensAccounting::new();
        let mut c = TokensAccountingCache::new(TokensAccountingDB::new(&store));
        let _ = c.issue_token(id(0), TokenData::FungibleToken(issuance(kind, limit, true).into())).unwrap();
        let mut sum = 0u128;
        for (i, m) in mints.into_iter().enumerate() {
            if split && i == nth { let d = c.consume(); if TokensAccountingDB::new(&mut store).batch_write_tokens_data(d).is_err() { return } c = TokensAccountingCache::new(TokensAccountingDB::new(&store)); }
            let r = c.mint_tokens(id(0), amt(m));
            let Ok(now) = c.get_circulating_supply(&id(0)) else { let d = c.consume(); assert!(TokensAccountingDB::new(&mut store).batch_write_tokens_data(d).is_err(), "what cannot be read can be written"); return };
            match r { Ok(_) => { sum = sum.checked_add(m).expect("the sum fits"); assert!(kind != 0 || sum <= limit, "{sum} is over the limit") } Err(_) => assert!(kind == 0 && sum.checked_add(m).map_or(true, |x| x > limit) || sum.checked_add(m).map_or(true, |x| x > i128::MAX as u128)) }
            assert_eq!(now.into_atoms(), sum);
        }
    }

    // the data of a token and its states
    c22_token_data(s) {
        let (kind, limit, locked, state, un, k) = (s.below(3) as u8, s.u128(), s.bool(), s.below(4), s.bool(), s.u8() % 4);
        inputs!(s, kind, limit, locked, state, un, k);
        let mut t = issued(kind, limit, true);
        t.locked = locked;
        t.frozen = match state { 0 => IsTokenFrozen::No(IsTokenFreezable::No), 1 => IsTokenFrozen::No(IsTokenFreezable::Yes), 2 => IsTokenFrozen::Yes(IsTokenUnfreezable::No), _ => IsTokenFrozen::Yes(IsTokenUnfreezable::Yes) };
        let TokenData::FungibleToken(d) = t.data();
        let same = |d: &FungibleTokenData, t: &Tok| assert_eq!((d.token_ticker(), d.number_of_decimals(), d.metadata_uri(), *d.total_supply(), d.is_locked(), d.frozen_state(), d.authority()), (&t.ticker[..], t.decimals, &t.uri[..], t.limit, t.locked, t.frozen, &t.authority));
        same(&d, &t);
        assert_eq!((d.is_frozen(), d.can_be_frozen(), d.can_be_unfrozen()), (state >= 2, state == 1, state == 3));
        let with = |f: &dyn Fn(&mut Tok)| { let mut t = t.clone(); f(&mut t); t };
        let u = if un { IsTokenUnfreezable::Yes } else { IsTokenUnfreezable::No };
        match d.clone().try_lock() { Ok(x) => { assert!(kind == 1); same(&x, &with(&|t| t.locked = true)) } Err(x) => { assert!(kind != 1); same(&x, &t) } }
        match d.clone().try_freeze(u) { Ok(x) => { assert!(state == 1); same(&x, &with(&|t| t.frozen = IsTokenFrozen::Yes(u))) } Err(x) => { assert!(state != 1); same(&x, &t) } }
        match d.clone().try_unfreeze() { Ok(x) => { assert!(state == 3); same(&x, &with(&|t| t.frozen = IsTokenFrozen::No(IsTokenFreezable::Yes))) } Err(x) => { assert!(state != 3); same(&x, &t) } }
        same(&d.clone().change_authority(dest(k)), &with(&|t| t.authority = dest(k)));
        same(&d.clone().change_metadata_uri(vec![k; k as usize]), &with(&|t| t.uri = vec![k; k as usize]));
        same(&issuance(kind, limit, un).into(), &issued(kind, limit, un));
    }
}
