//! The native driver: `driver run SEED SECONDS CASE..`, `driver replay CASE VALUES..`, `driver list`.
use super::Src;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Nat { state: u64, replay: Option<Vec<u128>>, pub drawn: Vec<u128>, discarded: bool, note: Option<String>, noting: bool, mode: u64 }

impl Nat {
    fn rnd(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn rnd128(&mut self) -> u128 { (self.rnd() as u128) << 64 | self.rnd() as u128 }
    fn pick(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let r = self.rnd();
        let v = match if self.mode == 0 { r % 12 } else { 6 + r % 2 } {
            0 => (r >> 8) as u128 % 4,
            1 => mask.wrapping_sub((r >> 8) as u128 % 3),
            2 => (1u128 << ((r >> 8) as u32 % bits)).wrapping_add(((r >> 40) % 3) as u128).wrapping_sub(1),
            3 if !self.drawn.is_empty() => { let k = (r >> 8) as usize % self.drawn.len(); self.drawn[k].wrapping_add(((r >> 40) % 5) as u128).wrapping_sub(2) }
            4 if !self.drawn.is_empty() => { let k = (r >> 8) as usize % self.drawn.len(); let x = self.drawn[k]; if r >> 40 & 1 == 0 { mask.wrapping_sub(x).wrapping_add(((r >> 41) % 3) as u128) } else { x } }
            5 => mask / ((r >> 8) as u128 % 64 + 1),
            6 | 7 => self.rnd128(),
            8 => 10u128.wrapping_pow((r >> 8) as u32 % 39).wrapping_add(((r >> 40) % 3) as u128).wrapping_sub(1),
            9 => (r >> 8) as u128 % 256,
            _ => { let k = (r >> 8) as u32 % bits + 1; self.rnd128() >> (128 - k) }
        };
        v & mask
    }
}
impl Src for Nat {
    fn draw(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v = match &self.replay { Some(r) => r.get(self.drawn.len()).copied().unwrap_or(0) & mask, None => self.pick(bits) };
        self.drawn.push(v);
        v
    }
    fn ok(&mut self, c: bool) -> bool { if !c { self.discarded = true } c }
    fn note(&mut self, f: &dyn Fn() -> String) { if self.noting { self.note = Some(f()) } }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}

struct Out { failed: Option<String>, drawn: Vec<u128>, discarded: bool, note: Option<String> }
thread_local! { static MSG: std::cell::RefCell<String> = Default::default(); }
fn once(f: fn(&mut Nat), seed: u64, replay: Option<Vec<u128>>, noting: bool) -> Out {
    let mut n = Nat { state: seed, replay, drawn: vec![], discarded: false, note: None, noting, mode: 0 };
    if n.replay.is_none() && n.rnd() % 8 == 0 { n.mode = 1 }
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut n)));
    Out { failed: r.err().map(|_| MSG.with(|m| m.borrow().clone())), drawn: n.drawn, discarded: n.discarded, note: n.note }
}
fn hash(v: &[u128]) -> u64 { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut h); h.finish() }

/// Makes a failing input smaller: each value towards 0, while the case still fails.
fn shrink(f: fn(&mut Nat), mut v: Vec<u128>) -> Vec<u128> {
    let end = Instant::now() + Duration::from_secs(5);
    let fails = |v: &Vec<u128>| { let o = once(f, 0, Some(v.clone()), false); o.failed.is_some() && !o.discarded };
    loop {
        let mut better = false;
        for i in 0..v.len() {
            for c in [0, v[i] >> 64, v[i] >> 16, v[i] / 10, v[i] / 2, v[i].saturating_sub(1)] {
                if c >= v[i] || Instant::now() > end { continue; }
                let mut w = v.clone();
                w[i] = c;
                if fails(&w) { v = w; better = true; break; }
            }
        }
        if !better || Instant::now() > end { return v; }
    }
}

pub fn main(cases: &'static [(&'static str, fn(&mut Nat))]) {
    std::panic::set_hook(Box::new(|i| { let s = i.to_string(); MSG.with(|m| *m.borrow_mut() = s); }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for (n, _) in cases { println!("{n}") },
        Some("replay") => {
            let f = cases.iter().find(|c| c.0 == a[2]).unwrap_or_else(|| { println!("no such case"); std::process::exit(4) }).1;
            let v = a[3..].iter().map(|s| s.parse().expect("value")).collect();
            let o = once(f, 0, Some(v), true);
            println!("case {} inputs {}", a[2], o.note.unwrap_or_default());
            match o.failed { Some(m) => { println!("FAILS: {m}"); std::process::exit(1) } None if o.discarded => println!("outside the precondition"), None => println!("holds") }
        }
        Some("run") => {
            let seed: u64 = a[2].parse().expect("seed");
            let secs: f64 = a[3].parse().expect("seconds");
            let sel: Vec<_> = cases.iter().filter(|c| a[4..].iter().any(|n| c.0 == n || (n.ends_with('*') && c.0.starts_with(n.trim_end_matches('*'))))).collect();
            let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
            let per = Duration::from_secs_f64(secs * threads as f64 / sel.len().max(1) as f64);
            let next = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|s| {
                for _ in 0..threads.min(sel.len().max(1)) {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let Some((name, f)) = sel.get(i).copied() else { return };
                        let end = Instant::now() + per;
                        let (mut n, mut disc, mut seen, mut samples, mut fail) = (0u64, 0u64, HashSet::new(), vec![], None);
                        let h = hash(&name.bytes().map(|b| b as u128).collect::<Vec<_>>());
                        while (n < 64 || Instant::now() < end) && n < 3_000_000 {
                            let o = once(*f, seed.wrapping_mul(0x5851F42D4C957F2D).wrapping_add(h).wrapping_add(n.wrapping_mul(0xD1342543DE82EF95)), None, samples.len() < 2);
                            n += 1;
                            if o.failed.is_some() && !o.discarded { fail = Some(o.drawn); break; }
                            if o.discarded { disc += 1 } else { if seen.len() < 400_000 { seen.insert(hash(&o.drawn)); } if samples.len() < 2 { if let Some(x) = o.note { samples.push(x) } } }
                        }
                        let mut line = format!("{{\"case\":{},\"evaluations\":{n},\"discarded\":{disc},\"distinct\":{},\"samples\":[{}]", esc(name), seen.len(), samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
                        if let Some(v) = fail {
                            let v = shrink(*f, v);
                            let o = once(*f, 0, Some(v.clone()), true);
                            line += &format!(",\"failure\":{{\"values\":[{}],\"message\":{},\"inputs\":{}}}", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","), esc(&o.failed.unwrap_or_default()), esc(&o.note.unwrap_or_default()));
                        }
                        println!("{line}}}");
                    });
                }
            });
        }
        _ => { eprintln!("usage: run SEED SECONDS CASE.. | replay CASE VALUES.. | list"); std::process::exit(2) }
    }
}
