//! C12: numbers, opcodes, instructions and builders of scripts, against the description of the Bitcoin script encoding.
use ::script::opcodes::{self, all, All, Class};
use ::script::script::{build_scriptint, read_scriptbool, read_scriptint, read_scriptint_size, read_uint, Instruction};
use ::script::{Builder, Context, Error, Script, Stack, run_pushdata, run_script, verify_witness_lock};
use vsrc::*;

/// value and minimal bytes of a script number, from its definition: little endian magnitude, sign in the last top bit
pub fn number(n: i64) -> Vec<u8> {
    let mut m = n.unsigned_abs();
    let mut v = vec![];
    while m != 0 { v.push(m as u8); m >>= 8; }
    if let Some(l) = v.last().copied() { if l & 0x80 != 0 { v.push(0) } }
    if n < 0 { let l = v.len() - 1; v[l] |= 0x80; }
    v
}
pub fn value(v: &[u8]) -> i128 {
    let mut x = 0i128;
    for (i, b) in v.iter().enumerate() { let b = if i + 1 == v.len() { b & 0x7f } else { *b }; x += (b as i128) << (8 * i); }
    if v.last().is_some_and(|b| b & 0x80 != 0) { -x } else { x }
}
pub fn truth(v: &[u8]) -> bool { value16(v) }
fn value16(v: &[u8]) -> bool { v.iter().enumerate().any(|(i, b)| if i + 1 == v.len() { *b != 0 && *b != 0x80 } else { *b != 0 }) }

/// The kinds of opcodes by their codes
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum K { Push(u32), PushLen(usize), Num(i32), Ret, Illegal, Nop, Flow, Alt, Sig, Lock, Ord }
pub fn kind(c: u8) -> K {
    match c {
        0..=75 => K::Push(c as u32),
        76 => K::PushLen(1), 77 => K::PushLen(2), 78 => K::PushLen(4),
        79 => K::Num(-1), 81..=96 => K::Num(c as i32 - 80),
        80 | 98 | 106 | 137 | 138 => K::Ret,
        97 | 176 | 179..=185 => K::Nop,
        101 | 102 | 126..=129 | 131..=134 | 141 | 142 | 149..=153 => K::Illegal,
        99 | 100 | 103 | 104 | 171 => K::Flow,
        107 | 108 => K::Alt,
        172..=175 => K::Sig,
        177 | 178 => K::Lock,
        186..=255 => K::Ret,
        105 | 109..=125 | 130 | 135 | 136 | 139 | 140 | 143..=148 | 154..=170 => K::Ord,
    }
}
/// One instruction of the bytes: (opcode or pushed range, bytes used), or the error
pub enum I { Push(usize, usize), Op(u8), Bad(Error) }
pub fn parse(b: &[u8], minimal: bool) -> (I, usize) {
    let (off, n) = match kind(b[0]) {
        K::Push(n) => (1, n as usize),
        K::PushLen(k) => {
            if b.len() < 1 + k { return (I::Bad(Error::EarlyEndOfScript), b.len()) }
            let n = (0..k).map(|i| (b[1 + i] as usize) << (8 * i)).sum::<usize>();
            if b.len() - 1 - k < n { return (I::Bad(Error::EarlyEndOfScript), b.len()) }
            let least = match k { 1 => 76, 2 => 256, _ => 65536 };
            if minimal && n < least { return (I::Bad(Error::NonMinimalPush), b.len()) }
            (1 + k, n)
        }
        _ => return (I::Op(b[0]), 1),
    };
    if b.len() < off + n { return (I::Bad(Error::EarlyEndOfScript), b.len()) }
    if minimal && off == 1 && n == 1 && (b[1] == 0x81 || (1..=16).contains(&b[1])) { return (I::Bad(Error::NonMinimalPush), b.len()) }
    (I::Push(off, n), off + n)
}
pub fn check_instructions(b: &[u8], minimal: bool) {
    let sc = Script::from(b.to_vec());
    let mut it = sc.instructions_iter(minimal);
    let mut at = 0;
    loop {
        assert!(it.subscript() == &b[at..]);
        let got = it.next();
        if at == b.len() { assert!(got.is_none()); return }
        let (want, used) = parse(&b[at..], minimal);
        match (got, want) {
            (Some(Ok(Instruction::PushBytes(x))), I::Push(o, n)) => assert!(x == &b[at + o..at + o + n]),
            (Some(Ok(Instruction::Op(o))), I::Op(c)) => assert!(o.into_u8() == c),
            (Some(Err(e)), I::Bad(w)) => { assert!(e == w); assert!(it.next().is_none() && it.subscript().is_empty()); return }
            _ => panic!("wrong instruction"),
        }
        at += used;
    }
}
/// A push with the shortest opcode for the length
#[cfg(not(kani))]
fn push(b: &mut Vec<u8>, x: &[u8]) {
    let n = x.len();
    if n < 76 { b.push(n as u8) } else if n < 256 { b.extend([76, n as u8]) } else if n < 65536 { b.push(77); b.extend((n as u16).to_le_bytes()) } else { b.push(78); b.extend((n as u32).to_le_bytes()) }
    b.extend(x);
}
#[cfg(not(kani))]
fn chunk(s: &mut impl Src) -> Vec<u8> {
    let n = match s.below(12) { 0 => 75, 1 => 76, 2 => 77, 3 => 255, 4 => 256, 5 => 257, 6 => 1, 7 if s.below(40) == 0 => 65535 + s.below(3), _ => s.below(40) };
    let x = s.u8();
    (0..n).map(|i| x.wrapping_add((i * 7) as u8)).collect()
}
/// Bytes with instructions that are mostly well formed
#[cfg(not(kani))]
pub fn some_script(s: &mut impl Src, max: usize) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..s.below(max) + 1 {
        match s.below(8) { 0 | 1 => push(&mut b, &chunk(s)), 2 => b.extend([1, s.u8()]), 3 => { let k = [1usize, 2, 4][s.below(3)]; let n = match s.below(4) { 0 => 75, 1 => 76, 2 => 256, _ => s.below(300) }; b.push(75 + [1, 2, 3][(k > 1) as usize + (k > 2) as usize]); b.extend(&(n as u32).to_le_bytes()[..k]); let x = s.u8(); b.extend(std::iter::repeat(x).take(if s.below(6) == 0 { n / 2 } else { n })); } _ => b.push(s.u8()) }
    }
    if s.below(5) == 0 { let k = s.below(b.len()); b.truncate(k) }
    b
}

cases! {
    c12_writing_numbers(s) [unwind 11] {
        let n = s.i64();
        inputs!(s, n);
        let v = build_scriptint(n);
        let l = v.len();
        assert!(l <= 9);
        // minimal: no magnitude byte could be left out
        if l > 0 { assert!(v[l - 1] & 0x7f != 0 || (l > 1 && v[l - 2] & 0x80 != 0)); }
        assert!(value(&v) == n as i128);
        let fits = l <= 8;
        match read_scriptint_size(&v, 8) { Ok(x) => assert!(fits && x == n), Err(e) => assert!(!fits && e == Error::NumericOverflow) }
        match read_scriptint(&v) { Ok(x) => assert!(l <= 4 && x == n), Err(e) => assert!(l > 4 && e == Error::NumericOverflow) }
    }
    c12_reading_numbers(s) [unwind 10] {
        let (a, n, max) = (s.arr::<9>(), s.below(10), s.below(9));
        inputs!(s, a, n, max);
        let v = &a[..n];
        match read_scriptint_size(v, max) { Ok(x) => assert!(n <= max && x as i128 == value(v)), Err(e) => assert!(n > max && e == Error::NumericOverflow) }
        assert!(read_scriptbool(v) == value16(v));
        if !s.symbolic() { let mut w = vec![0; s.below(40)]; if !w.is_empty() { for _ in 0..s.below(3) { let l = w.len(); let i = if s.bool() { l - 1 } else { s.below(l) }; w[i] = [0x80, 1, 0, s.u8()][s.below(4)] } } inputs!(s, a, n, max, w); assert!(read_scriptbool(&w) == value16(&w)); }
        let size = s.below(9);
        match read_uint(v, size) { Ok(x) => { assert!(size <= n); let mut w = 0usize; for i in 0..size { w |= (v[i] as usize) << (8 * i); } assert!(x == w) } Err(e) => assert!(size > n && e == Error::EarlyEndOfScript) }
    }
    c12_opcodes(s) [unwind 2] {
        let c = s.u8();
        inputs!(s, c);
        let o = All::from(c);
        assert!(o.into_u8() == c);
        let got = o.classify();
        let ok = match kind(c) {
            K::Push(n) => got == Class::PushBytes(n),
            K::PushLen(k) => matches!(got, Class::PushData(p) if p as u8 == c && p.data_size_bytes() == k && p.data_size_min() == (match k { 1 => 76, 2 => 256, _ => 65536 })),
            K::Num(n) => got == Class::PushNum(n),
            K::Ret => got == Class::ReturnOp,
            K::Illegal => got == Class::IllegalOp,
            K::Nop => got == Class::NoOp,
            K::Flow => matches!(got, Class::ControlFlow(x) if x as u8 == c),
            K::Alt => matches!(got, Class::AltStack(x) if x as u8 == c),
            K::Sig => matches!(got, Class::Signature(x) if x as u8 == c && x.is_verify() == (c == 173 || c == 175)),
            K::Lock => matches!(got, Class::TimeLock(x) if x as u8 == c),
            K::Ord => matches!(got, Class::Ordinary(x) if x as u8 == c && x.is_verify() == (c == 105 || c == 136 || c == 157)),
        };
        assert!(ok, "class of the opcode");
        let d = s.u8();
        assert!((All::from(c) == All::from(d)) == (c == d));
        assert!(opcodes::OP_FALSE.into_u8() == 0 && opcodes::OP_TRUE.into_u8() == 81);
    }
    c12_one_instruction(s) [unwind 10] {
        // every short script, and the header of every long push
        let (a, n, minimal) = (s.arr::<6>(), s.below(7), s.bool());
        inputs!(s, a, n, minimal);
        let b = &a[..n];
        let sc = Script::from(b.to_vec());
        let mut it = sc.instructions_iter(minimal);
        let got = it.next();
        if n == 0 { assert!(got.is_none()); return }
        let (want, used) = parse(b, minimal);
        match (got, want) {
            (Some(Ok(Instruction::PushBytes(x))), I::Push(o, l)) => { assert!(x.len() == l); for i in 0..l { assert!(x[i] == b[o + i]) } }
            (Some(Ok(Instruction::Op(o))), I::Op(c)) => assert!(o.into_u8() == c),
            (Some(Err(e)), I::Bad(w)) => assert!(e == w),
            _ => panic!("wrong instruction"),
        }
        assert!(it.subscript().len() == n - used);
    }
    c12_instructions(s) {
        #[cfg(not(kani))] {
            let (b, minimal) = (some_script(s, 6), s.bool());
            inputs!(s, b, minimal);
            check_instructions(&b, minimal);
            let sc = Script::from(b.clone());
            assert_eq!(sc.instructions().count(), sc.instructions_iter(false).count());
            assert_eq!(sc.instructions_minimal().count(), sc.instructions_iter(true).count());
            assert!(sc.len() == b.len() && sc.is_empty() == b.is_empty() && sc.as_bytes() == b && sc.to_bytes() == b && sc.clone().into_bytes() == b);
            assert_eq!(format!("{sc:x}"), b.iter().map(|x| format!("{x:02x}")).collect::<String>());
            assert_eq!(format!("{sc:X}"), b.iter().map(|x| format!("{x:02X}")).collect::<String>());
            assert_eq!(sc.is_provably_unspendable(), b.first().is_some_and(|c| matches!(kind(*c), K::Ret | K::Illegal)));
            assert_eq!(sc.is_op_return(), b.first() == Some(&106));
            // a builder over existing bytes knows the last opcode
            let (mut last, mut at) = (None, 0);
            while at < b.len() { let (i, n) = parse(&b[at..], false); last = if let I::Op(c) = i { Some(c) } else { None }; at += n; }
            let v = Builder::from(b.clone()).push_verify().into_script().into_bytes();
            let mut w = b.clone();
            match last { Some(c @ (135 | 156 | 172 | 174)) => { w.pop(); w.push(c + 1) } _ => w.push(105) }
            assert_eq!(v, w);
        }
        let _ = s;
    }
    c12_building(s) {
        #[cfg(not(kani))] {
            let n = s.below(5) + 1;
            let mut b = Builder::new();
            let mut want: Vec<u8> = vec![];
            let mut last: Option<u8> = None;
            let mut what = vec![];
            for _ in 0..n {
                match s.below(6) {
                    0 => { let x = chunk(s); what.push(format!("slice {}", x.len())); push(&mut want, &x); b = b.push_slice(&x); last = None }
                    1 => { let x = if s.below(3) == 0 { vec![s.u8()] } else { chunk(s) }; what.push(format!("minimal {:?}", x)); match x[..] { [0x81] => { want.push(79); last = Some(79) } [k] if (1..=16).contains(&k) => { want.push(80 + k); last = Some(80 + k) } _ => { push(&mut want, &x); last = None } } b = b.push_slice_minimal(&x) }
                    2 => { let x = if s.bool() { s.i64() } else { s.below(40) as i64 - 3 }; what.push(format!("int {x}")); b = b.push_int(x); match x { -1 | 1..=16 => { want.push((80 + x) as u8); last = Some((80 + x) as u8) } 0 => { want.push(0); last = Some(0) } _ => { push(&mut want, &number(x)); last = None } } }
                    3 => { let x = s.i64(); what.push(format!("scriptint {x}")); push(&mut want, &number(x)); b = b.push_scriptint(x); last = None }
                    4 => { let c = [135u8, 156, 172, 174, 118, 97, s.u8()][s.below(7)]; what.push(format!("op {c}")); want.push(c); b = b.push_opcode(All::from(c)); last = Some(c) }
                    _ => { what.push("verify".into()); match last { Some(c @ (135 | 156 | 172 | 174)) => { want.pop(); want.push(c + 1); last = Some(c + 1) } _ => { want.push(105); last = Some(105) } } b = b.push_verify() }
                }
                assert!(b.len() == want.len() && b.is_empty() == want.is_empty());
            }
            inputs!(s, what);
            let sc = b.into_script();
            assert_eq!(sc.as_bytes(), want);
            if want.len() < 3000 { check_instructions(&want, false) }
        }
        let _ = s;
    }
    c12_templates(s) {
        #[cfg(not(kani))] {
            let k = s.below(8);
            let n = match s.below(3) { 0 => [20, 32, 33, 65][s.below(4)], _ => s.below(70) };
            let x = s.u8();
            let d: Vec<u8> = (0..n).map(|i| x.wrapping_add(i as u8)).collect();
            let sc = match k {
                0 => Script::new_p2pk(&d), 1 => Script::new_p2pkh(&d), 2 => Script::new_p2sh(&d), 3 => Script::new_op_return(&d),
                4 => Builder::new().push_int(s.below(20) as i64 - 2).push_slice(&d).into_script(),
                5 => Builder::new().push_slice(&d).push_opcode(All::from([172, 171, 173][s.below(3)])).into_script(),
                6 => { let mut b = [Script::new_p2pkh(&d), Script::new_p2sh(&d), Script::new_p2pk(&d)][s.below(3)].to_bytes(); let i = s.below(b.len()); b[i] = s.u8(); Script::from(b) }
                _ => Script::from(some_script(s, 3)),
            };
            inputs!(s, k, d, sc.as_bytes());
            let b = sc.as_bytes();
            let shape = |pre: &[u8], n: usize, post: &[u8]| b.len() == pre.len() + n + post.len() && b.starts_with(pre) && b.ends_with(post);
            assert_eq!(sc.is_p2sh(), shape(&[169, 20], 20, &[135]));
            assert_eq!(sc.is_p2pkh(), shape(&[118, 169, 20], 20, &[136, 172]));
            assert_eq!(sc.is_p2pk(), shape(&[65], 65, &[172]) || shape(&[33], 33, &[172]));
            assert_eq!(sc.is_v0_p2wsh(), shape(&[0, 32], 32, &[]));
            assert_eq!(sc.is_v0_p2wpkh(), shape(&[0, 20], 20, &[]));
            assert_eq!(sc.is_witness_program(), b.len() >= 4 && b.len() <= 42 && (b[0] == 0 || (81..=96).contains(&b[0])) && b[1] as usize == b.len() - 2);
            if k == 0 { assert_eq!(sc.is_p2pk(), n == 33 || n == 65) }
            if k == 1 { assert_eq!(sc.is_p2pkh(), n == 20) }
            if k == 2 { assert_eq!(sc.is_p2sh(), n == 20) }
            if k == 3 { assert!(sc.is_op_return() && sc.is_provably_unspendable()) }
        }
        let _ = s;
    }
    c12_text(s) {
        #[cfg(not(kani))] {
            let b = some_script(s, 5);
            inputs!(s, b);
            let (mut want, mut at, mut bad) = (String::new(), 0, false);
            while at < b.len() {
                let (i, n) = parse(&b[at..], false);
                let name = if b[at] == 0 { "OP_0".to_string() } else { format!("{:?}", All::from(b[at])) };
                if !want.is_empty() { want.push(' ') }
                match i {
                    I::Op(_) => want += &name,
                    I::Push(o, l) => { want += &name; if l > 0 { want.push(' '); want += &b[at + o..at + o + l].iter().map(|x| format!("{x:02x}")).collect::<String>() } }
                    I::Bad(_) => { bad = true; break }
                }
                at += n;
            }
            let got = Script::bytes_to_asm(&b);
            if bad { assert!(got.trim().starts_with(want.trim()) && (got.ends_with("<push past end>") || got.ends_with("<unexpected end>"))) } else { assert_eq!(got.trim(), want.trim()) }
            assert_eq!(format!("{:?}", Script::from(b.clone())), format!("Script({got})"));
        }
        let _ = s;
    }
    c12_opcode_names(s) {
        #[cfg(not(kani))] {
            let (c, d) = (s.u8(), s.u8());
            inputs!(s, c, d);
            let n = |c: u8| format!("{}", All::from(c));
            assert!(n(c).starts_with("OP_") && (c == d || n(c) != n(d)), "names are unique");
            for (o, w) in [(all::OP_DUP, "DUP"), (all::OP_HASH160, "HASH160"), (all::OP_EQUALVERIFY, "EQUALVERIFY"), (all::OP_CHECKSIG, "CHECKSIG"), (all::OP_RETURN, "RETURN"), (all::OP_CLTV, "CLTV"), (all::OP_CSV, "CSV")] { assert_eq!(o.to_string(), format!("OP_{w}")) }
            match kind(c) { K::Push(k) => assert_eq!(n(c), format!("OP_PUSHBYTES_{k}")), K::Num(k) => assert_eq!(n(c), if k < 0 { "OP_PUSHNUM_NEG1".into() } else { format!("OP_PUSHNUM_{k}") }), K::Ret if c >= 186 => assert_eq!(n(c), format!("OP_RETURN_{c}")), _ => {} }
        }
        let _ = s;
    }
}
