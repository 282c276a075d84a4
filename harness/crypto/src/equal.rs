//! C17: comparison of slices.
use crypto::util::eq::SliceEqualityCheckMethod as M;
use vsrc::*;

cases! {
    c17_equal_slices_small(s) [unwind 6] {
        let (n, m) = (s.below(5), s.below(5));
        let (a, b) = (s.arr::<4>(), s.arr::<4>());
        inputs!(s, n, m, a, b);
        let (x, y) = (&a[..n], &b[..m]);
        let mut same = n == m;
        for i in 0..n { if n == m && x[i] != y[i] { same = false } }
        assert!(M::timing_resistant_equal(x, y) == same);
    }
    c17_equal_slices(s) {
        let a = s.bytes(80);
        let mut b = if s.below(4) == 0 { s.bytes(80) } else { a.clone() };
        match s.below(8) { 0 if !b.is_empty() => { let i = s.below(b.len()); b[i] ^= s.u8() } 1 => b.push(s.u8()), 2 => { b.pop(); } 3 => { let c = b.clone(); b.extend(c) } 4 => b.clear(), _ => {} }
        let swap = s.bool();
        inputs!(s, a, b, swap);
        let (a, b) = if swap { (b, a) } else { (a, b) };
        assert!(M::timing_resistant_equal(&a, &b) == (a == b));
        assert!(M::TimingResistant.are_equal(&a, &b) == (a == b) && M::Normal.are_equal(&a, &b) == (a == b));
    }
    c17_equal_words(s) {
        let a: Vec<usize> = { let n = s.below(9); (0..n).map(|_| s.usize()).collect() };
        let mut b = if s.below(4) == 0 { let n = s.below(9); (0..n).map(|_| s.usize()).collect() } else { a.clone() };
        if s.bool() && !b.is_empty() { let i = s.below(b.len()); b[i] ^= 1usize << s.below(64); }
        inputs!(s, a, b);
        assert!(M::timing_resistant_equal(&a, &b) == (a == b) && M::TimingResistant.are_equal(&a, &b) == (a == b) && M::Normal.are_equal(&a, &b) == (a == b));
    }
}
