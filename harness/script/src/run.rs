//! C13: running scripts, against an independent interpreter.
use crate::encoding::{kind, number, parse, truth, value, I, K};
use ::script::context::ParseResult;
use ::script::{Builder, Context, Error, Script, Stack, run_pushdata, run_script, verify_witness_lock};
use vsrc::*;

/// Keys: two bytes; the first decides the format (0: wrong, 1: reserved). A signature is the key's second byte,
/// the separator position and the length of the subscript.
struct Ctx { height: i64, minimal_push: bool, minimal_if: bool }
impl Context for Ctx {
    const MAX_STACK_ELEMENTS: usize = 20;
    const MAX_SCRIPT_ELEMENT_SIZE: usize = 90;
    const MAX_PUBKEYS_PER_MULTISIG: usize = 4;
    const MAX_SCRIPT_SIZE: usize = 400;
    type Public = u8;
    type SignatureData = (u8, Vec<u8>);
    fn parse_pubkey(&self, pk: &[u8]) -> ParseResult<u8> { match pk { [1, _] => ParseResult::Reserved, [k, x] if *k > 1 => ParseResult::Ok(*x), _ => ParseResult::Err } }
    fn parse_signature(&self, pk: u8, sig: &[u8]) -> Option<(u8, Vec<u8>)> { if sig.is_empty() { None } else { Some((pk, sig.to_vec())) } }
    fn verify_signature(&self, d: &(u8, Vec<u8>), sub: &[u8], sep: u32) -> bool { good(d.0, &d.1, sub, sep) }
    fn check_lock_time(&self, t: i64) -> bool { self.height >= t }
    fn check_sequence(&self, t: i64) -> bool { self.height >= 2 * t }
    fn enforce_minimal_push(&self) -> bool { self.minimal_push }
    fn enforce_minimal_if(&self) -> bool { self.minimal_if }
}
/// A signature [k] is good for key k; [k, sep] and [k, sep, len] are good if the separator and the subscript are those as well.
fn good(k: u8, sig: &[u8], sub: &[u8], sep: u32) -> bool { match sig { [x] => *x == k, [x, a] => *x == k && *a % 4 == (sep % 4) as u8, [x, a, l] => *x == k && *a % 2 == (sep % 2) as u8 && *l % 4 == (sub.len() % 4) as u8, _ => false } }

type St = Vec<Vec<u8>>;
type R<T> = std::result::Result<T, Error>;
fn pop(s: &mut St) -> R<Vec<u8>> { s.pop().ok_or(Error::NotEnoughElementsOnStack) }
fn int(v: &[u8], max: usize) -> R<i128> { if v.len() > max { Err(Error::NumericOverflow) } else { Ok(value(v)) } }
fn popi(s: &mut St) -> R<i128> { let v = pop(s)?; int(&v, 4) }
fn need(s: &St, n: usize) -> R<()> { if s.len() < n { Err(Error::NotEnoughElementsOnStack) } else { Ok(()) } }
fn b(x: bool) -> Vec<u8> { if x { vec![1] } else { vec![] } }

fn checkmulti(c: &Ctx, sigs: &[Vec<u8>], keys: &[Vec<u8>], sub: &[u8], sep: u32) -> R<bool> {
    let (mut i, mut k) = (0, 0);
    while i < sigs.len() {
        if keys.len() - k < sigs.len() - i { return Ok(false) }
        match c.parse_pubkey(&keys[k]) { ParseResult::Err => return Err(Error::PubkeyFormat), ParseResult::Reserved => i += 1, ParseResult::Ok(p) => if !sigs[i].is_empty() && good(p, &sigs[i], sub, sep) { i += 1 } }
        k += 1;
    }
    Ok(true)
}

fn ordinary(c: u8, s: &mut St) -> R<()> {
    let l = s.len();
    match c {
        105 => { if !truth(&pop(s)?) { return Err(Error::VerifyFail) } }
        109 => { need(s, 2)?; s.truncate(l - 2) }
        110 => { need(s, 2)?; s.extend([s[l - 2].clone(), s[l - 1].clone()]) }
        111 => { need(s, 3)?; s.extend([s[l - 3].clone(), s[l - 2].clone(), s[l - 1].clone()]) }
        112 => { need(s, 4)?; s.extend([s[l - 4].clone(), s[l - 3].clone()]) }
        113 => { need(s, 6)?; let a = s.remove(l - 6); let b = s.remove(l - 6); s.push(a); s.push(b) }
        114 => { need(s, 4)?; s.swap(l - 4, l - 2); s.swap(l - 3, l - 1) }
        115 => { need(s, 1)?; if truth(&s[l - 1]) { s.push(s[l - 1].clone()) } }
        116 => s.push(number(l as i64)),
        117 => { pop(s)?; }
        118 => { need(s, 1)?; s.push(s[l - 1].clone()) }
        119 => { need(s, 2)?; s.remove(l - 2); }
        120 => { need(s, 2)?; s.push(s[l - 2].clone()) }
        121 | 122 => {
            let n = popi(s)?;
            if n < 0 { return Err(Error::InvalidOperand) }
            need(s, n as usize + 1)?;
            let at = s.len() - 1 - n as usize;
            let x = if c == 121 { s[at].clone() } else { s.remove(at) };
            s.push(x)
        }
        123 => { need(s, 3)?; let x = s.remove(l - 3); s.push(x) }
        124 => { need(s, 2)?; s.swap(l - 1, l - 2) }
        125 => { need(s, 2)?; let x = s[l - 1].clone(); s.insert(l - 2, x) }
        130 => { need(s, 1)?; s.push(number(s[l - 1].len() as i64)) }
        135 | 136 => { need(s, 2)?; let e = s[l - 1] == s[l - 2]; s.truncate(l - 2); if c == 135 { s.push(b(e)) } else if !e { return Err(Error::VerifyFail) } }
        139..=146 => { let x = popi(s)?; let y = match c { 139 => x + 1, 140 => x - 1, 143 => -x, 144 => x.abs(), 145 => (x == 0) as i128, _ => (x != 0) as i128 }; s.push(number(y as i64)) }
        147 | 148 | 154..=164 => {
            let y = popi(s)?;
            let x = popi(s)?;
            let r = match c { 147 => x + y, 148 => x - y, 154 => (x != 0 && y != 0) as i128, 155 => (x != 0 || y != 0) as i128, 156 | 157 => (x == y) as i128, 158 => (x != y) as i128, 159 => (x < y) as i128, 160 => (x > y) as i128, 161 => (x <= y) as i128, 162 => (x >= y) as i128, 163 => x.min(y), _ => x.max(y) };
            if c == 157 { if r == 0 { return Err(Error::VerifyFail) } } else { s.push(number(r as i64)) }
        }
        165 => { let hi = popi(s)?; let lo = popi(s)?; let x = popi(s)?; s.push(b(lo <= x && x < hi)) }
        166..=170 => {
            use crypto::hash::{hash, Ripemd160, Sha1, Sha256};
            let x = pop(s)?;
            let sha = |x: &[u8]| -> Vec<u8> { hash::<Sha256, _>(x).to_vec() };
            let rip = |x: &[u8]| -> Vec<u8> { hash::<Ripemd160, _>(x).to_vec() };
            s.push(match c { 166 => rip(&x), 167 => hash::<Sha1, _>(&x[..]).to_vec(), 168 => sha(&x), 169 => rip(&sha(&x)), _ => sha(&sha(&x)) })
        }
        _ => panic!("not ordinary"),
    }
    Ok(())
}

fn model(c: &Ctx, sc: &[u8], mut s: St) -> R<St> {
    if sc.len() > Ctx::MAX_SCRIPT_SIZE { return Err(Error::ScriptSize) }
    let (mut at, mut n, mut sub, mut sep) = (0, 0u32, 0, u32::MAX);
    let mut alt: St = vec![];
    let mut ifs: Vec<bool> = vec![];
    while at < sc.len() {
        let (i, used) = parse(&sc[at..], c.minimal_push);
        let (here, exec) = (at, ifs.iter().all(|x| *x));
        at += used;
        match i {
            I::Bad(e) => return Err(e),
            I::Push(o, l) => { if l > Ctx::MAX_SCRIPT_ELEMENT_SIZE { return Err(Error::PushSize) } if exec { s.push(sc[here + o..here + o + l].to_vec()) } }
            I::Op(op) => match kind(op) {
                K::Nop => {}
                K::Illegal => return Err(Error::IllegalOp),
                K::Flow => match op {
                    99 | 100 => {
                        let v = exec && { let x = pop(&mut s)?; let v = if c.minimal_if { match &x[..] { [] => false, [1] => true, _ => return Err(Error::InvalidOperand) } } else { truth(&x) }; v == (op == 99) };
                        ifs.push(v)
                    }
                    103 => { let x = ifs.last_mut().ok_or(Error::UnbalancedIfElse)?; *x = !*x }
                    104 => { ifs.pop().ok_or(Error::UnbalancedIfElse)?; }
                    _ => if exec { sub = at; sep = n },
                },
                _ if !exec => {}
                K::Ret => return Err(Error::VerifyFail),
                K::Num(x) => s.push(number(x as i64)),
                K::Alt => if op == 107 { let x = pop(&mut s)?; alt.push(x) } else { let x = pop(&mut alt)?; s.push(x) },
                K::Lock => { need(&s, 1)?; let t = int(&s[s.len() - 1], 5)? as i64; if !(if op == 177 { c.height >= t } else { c.height >= 2 * t }) { return Err(Error::TimeLock) } }
                K::Sig => {
                    let r = if op < 174 {
                        let k = pop(&mut s)?;
                        let g = pop(&mut s)?;
                        checkmulti(c, &[g], &[k], &sc[sub..], sep)?
                    } else {
                        let nk = popi(&mut s)?;
                        if !(0..=Ctx::MAX_PUBKEYS_PER_MULTISIG as i128).contains(&nk) { return Err(Error::PubkeyCount) }
                        let nk = nk as usize;
                        need(&s, nk + 1)?;
                        let l = s.len();
                        let ns = int(&s[l - 1 - nk], 4)?;
                        if ns < 0 || ns > nk as i128 { return Err(Error::SigCount) }
                        let ns = ns as usize;
                        need(&s, nk + 1 + ns)?;
                        let r = checkmulti(c, &s[l - 1 - nk - ns..l - 1 - nk], &s[l - nk..], &sc[sub..], sep)?;
                        s.truncate(l - 1 - nk - ns);
                        if !pop(&mut s)?.is_empty() { return Err(Error::NullDummy) }
                        r
                    };
                    if op & 1 == 0 { s.push(b(r)) } else if !r { return Err(Error::VerifyFail) }
                }
                K::Ord => ordinary(op, &mut s)?,
                K::Push(_) | K::PushLen(_) => unreachable!(),
            },
        }
        if s.len() + alt.len() > Ctx::MAX_STACK_ELEMENTS { return Err(Error::StackSize) }
        n += 1;
    }
    if ifs.is_empty() { Ok(s) } else { Err(Error::UnbalancedIfElse) }
}

/// Errors are compared up to the kind for the cases where more than one applies
fn same(got: &R<St>, want: &R<St>) -> bool { match (got, want) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false } }
fn items(s: Stack<'_>) -> St {
    let mut v = vec![];
    while let Ok(x) = s.top(v.len()) { v.push(x.to_vec()) }
    v.reverse();
    v
}

fn num_item(s: &mut impl Src) -> Vec<u8> { match s.below(6) { 0 => s.bytes(5), 1 => number(s.i32() as i64), 2 => vec![0x80], _ => number(s.below(9) as i64 - 2) } }
/// long items that are zero up to one byte, or a few; items around the limit of size
fn long(s: &mut impl Src) -> Vec<u8> { let n = [9, 12, 20, 33, 70, 80, 88, 89, 90, 91, 92][s.below(11)] + s.below(3); let mut v = vec![0; n]; for _ in 0..s.below(3) { let i = if s.bool() { n - 1 } else { s.below(n) }; v[i] = if s.bool() { 0x80 } else { s.u8() } } v }
fn item(s: &mut impl Src) -> Vec<u8> { if s.below(12) == 0 { return long(s) } match s.below(6) { 0 => s.bytes(4), 1 => vec![2 + s.below(2) as u8, s.below(3) as u8], 2 => vec![s.below(3) as u8], 3 => vec![s.below(3) as u8, s.below(8) as u8, s.below(12) as u8], _ => num_item(s) } }
fn push(o: &mut Vec<u8>, x: &[u8]) { if x.len() < 76 { o.push(x.len() as u8) } else { o.extend([76, x.len() as u8]) } o.extend(x) }
fn push_min(o: &mut Vec<u8>, x: &[u8]) { match x { [0x81] => o.push(79), [k] if (1..=16).contains(k) => o.push(80 + k), _ => push(o, x) } }
fn piece(s: &mut impl Src, o: &mut Vec<u8>, depth: usize) {
    match s.below(16) {
        0..=4 => { let x = item(s); if s.below(8) == 0 { push(o, &x) } else { push_min(o, &x) } }
        5..=8 => o.push([105, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 130, 135, 136][s.below(21)]),
        9 => { push_min(o, &num_item(s)); push_min(o, &num_item(s)); o.push([139, 140, 143, 144, 145, 146, 147, 148, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165][s.below(20)]) }
        10 => o.push([107, 108, 107, 108, 171, 171, 171, 97, 176, 177, 178, 166, 167, 168, 169, 170][s.below(16)]),
        11 | 12 if depth < 3 => {
            if s.below(4) != 0 { o.push([0, 81][s.below(2)]) }
            o.push(99 + s.below(2) as u8);
            for _ in 0..s.below(3) { piece(s, o, depth + 1) }
            for _ in 0..s.below(2) + (s.below(6) == 0) as usize { o.push(103); for _ in 0..s.below(3) { piece(s, o, depth + 1) } }
            if s.below(20) != 0 { o.push(104) }
        }
        13 => { let k = s.below(3) as u8; let g = [vec![s.below(3) as u8], vec![k, s.below(4) as u8], vec![k, s.below(2) as u8, s.below(4) as u8]][s.below(3)].clone(); push_min(o, &g); push(o, &[2, k]); o.push(172 + s.below(2) as u8) }
        14 => {
            let nk = s.below(5); let ns = s.below(nk + 1);
            if s.below(8) == 0 { o.push(81) } else { o.push(0) }
            for _ in 0..ns { let x = if s.below(3) == 0 { vec![s.below(3) as u8, s.below(8) as u8, s.below(30) as u8] } else { vec![s.below(3) as u8] }; push_min(o, &x) }
            push_min(o, &number(ns as i64));
            for _ in 0..nk { push(o, &[2 - (s.below(12) == 0) as u8 - (s.below(24) == 0) as u8, s.below(3) as u8]) }
            push_min(o, &number(nk as i64));
            o.push(174 + s.below(2) as u8)
        }
        _ => o.push(s.u8()),
    }
}
fn ctx(s: &mut impl Src) -> Ctx { Ctx { height: s.below(20) as i64, minimal_push: s.below(4) != 0, minimal_if: s.below(3) != 0 } }

cases! {
    c13_running_a_script(s) {
        let c = ctx(s);
        let init: St = (0..s.below(6)).map(|_| item(s)).collect();
        let mut sc = vec![];
        for _ in 0..s.below(9) + 1 { piece(s, &mut sc, 0) }
        if s.below(30) == 0 { sc.extend(std::iter::repeat(97).take(400 - sc.len().min(400) + s.below(3))) }
        inputs!(s, c.height, c.minimal_push, c.minimal_if, init, sc);
        let want = model(&c, &sc, init.clone());
        let script = Script::from(sc);
        let stack = Stack::from(init.iter().map(|x| std::borrow::Cow::Owned(x.clone())).collect::<Vec<_>>());
        let got = run_script(&c, &script, stack).map(items);
        assert!(same(&got, &want), "{got:?} instead of {want:?}");
        if let Ok(st) = want {
            let v = Stack::from(st.iter().map(|x| std::borrow::Cow::Owned(x.clone())).collect::<Vec<_>>()).verify();
            assert_eq!(v.is_ok(), st.len() == 1 && truth(&st[0]));
        }
    }
    c13_one_opcode(s) {
        // each opcode on stacks of every small depth
        let c = ctx(s);
        let op = 79 + s.below(177) as u8;
        let init: St = (0..s.below(8)).map(|_| item(s)).collect();
        inputs!(s, op, init);
        let want = model(&c, &[op], init.clone());
        let stack = Stack::from(init.iter().map(|x| std::borrow::Cow::Owned(x.clone())).collect::<Vec<_>>());
        let script = Script::from(vec![op]);
        let got = run_script(&c, &script, stack).map(items);
        assert!(same(&got, &want), "{got:?} instead of {want:?}");
        if let (Err(a), Err(b)) = (&got, &want) { if !matches!(kind(op), K::Sig) { assert!(a == b || matches!((a, b), (Error::NotEnoughElementsOnStack | Error::NumericOverflow, Error::NotEnoughElementsOnStack | Error::NumericOverflow))) } }
    }
    c13_witness_and_lock(s) {
        let c = ctx(s);
        let mut w = vec![];
        for _ in 0..s.below(4) { if s.below(10) == 0 { w.push(s.u8()) } else { let x = item(s); push_min(&mut w, &x) } }
        let mut l = vec![];
        for _ in 0..s.below(4) { piece(s, &mut l, 0) }
        if s.below(20) == 0 { for _ in 0..s.below(30) { w.push(81) } }
        if s.below(40) == 0 { let x = vec![7; 85 + s.below(10)]; push(&mut w, &x) }
        inputs!(s, c.height, c.minimal_push, c.minimal_if, w, l);
        // the witness holds data only
        let mut at = 0;
        let mut st: R<St> = if w.len() > Ctx::MAX_SCRIPT_SIZE { Err(Error::ScriptSize) } else { Ok(vec![]) };
        while let (Ok(v), true) = (&mut st, at < w.len()) {
            let (i, n) = parse(&w[at..], c.minimal_push);
            match i { I::Push(o, k) if k <= Ctx::MAX_SCRIPT_ELEMENT_SIZE => v.push(w[at + o..at + o + k].to_vec()), I::Op(x) if matches!(kind(x), K::Num(_)) => v.push(number(x as i64 - 80)), _ => { st = Err(Error::PushOnly); break } }
            if v.len() > Ctx::MAX_STACK_ELEMENTS { st = Err(Error::StackSize) }
            at += n;
        }
        let (ws, ls) = (Script::from(w), Script::from(l.clone()));
        assert!(same(&run_pushdata(&c, &ws).map(items), &st));
        let want = st.and_then(|v| model(&c, &l, v)).is_ok_and(|v| v.len() == 1 && truth(&v[0]));
        assert_eq!(verify_witness_lock(&c, &ws, &ls).is_ok(), want);
    }
}
