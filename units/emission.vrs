// How many coins there are at which height.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::ops::{Add, Sub, Mul, Range};
//@ source E common/src/chain/config/emission_schedule.rs
//@ source C common/src/chain/coin_unit.rs
//@ source H common/src/primitives/height.rs
//@ path std::ops::Add => Add
//@ path std::ops::Sub => Sub
//@ path std::ops::Mul => Mul
verus! {
global size_of usize == 8;
//@ include amount.vrs
//@ type H HeightIntType
//@ struct H BlockHeight derive Copy,Clone,PartialEq,Eq,Structural
impl PartialOrdSpecImpl for BlockHeight { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &BlockHeight) -> Option<Ordering> { Some(if self.0 < o.0 { Ordering::Less } else if self.0 > o.0 { Ordering::Greater } else { Ordering::Equal }) } }
impl core::cmp::PartialOrd for BlockHeight { #[verifier::external_body] fn partial_cmp(&self, o: &BlockHeight) -> (r: Option<Ordering>) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<BlockHeight> for u64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: BlockHeight) -> u64 { x.0 } }
impl core::convert::From<BlockHeight> for u64 { fn from(x: BlockHeight) -> (r: u64) { x.0 } }
//@ impl H impl BlockHeight
//@ implconst ZERO ensures BlockHeight::ZERO.0 == 0
//@ fn zero
//@|    ensures r.0 == 0
//@ fn prev_height
//@|    ensures match r { Some(x) => x.0 == self.0 - 1, None => self.0 == 0 }
//@ endimpl
//@ struct C CoinUnit derive Clone,Copy,PartialEq,Eq,Structural
pub open spec fn coin(x: int) -> Option<CoinUnit> { if 0 <= x <= u128::MAX { Some(CoinUnit(Amount { atoms: x as u128 })) } else { None } }
pub open spec fn atoms(c: CoinUnit) -> int { c.0.atoms as int }
//@ impl C impl CoinUnit
//@ implconst ZERO ensures CoinUnit::ZERO.0.atoms == 0
//@ fn from_atoms
//@ . opt const
//@|    ensures r.0.atoms == n
//@ fn to_amount_atoms
//@|    ensures r == self.0
//@ endimpl
impl AddSpecImpl<CoinUnit> for CoinUnit { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: CoinUnit) -> bool { true } open spec fn add_spec(self, o: CoinUnit) -> Option<CoinUnit> { coin(atoms(self) + atoms(o)) } }
impl SubSpecImpl<CoinUnit> for CoinUnit { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: CoinUnit) -> bool { true } open spec fn sub_spec(self, o: CoinUnit) -> Option<CoinUnit> { coin(atoms(self) - atoms(o)) } }
impl MulSpecImpl<u128> for CoinUnit { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: u128) -> bool { true } open spec fn mul_spec(self, o: u128) -> Option<CoinUnit> { coin(atoms(self) * o) } }
//@ impl C impl std::ops::Add for CoinUnit
//@ fn add
//@ endimpl
//@ impl C impl std::ops::Sub for CoinUnit
//@ fn sub
//@ endimpl
//@ impl C impl std::ops::Mul<u128> for CoinUnit
//@ fn mul
//@ endimpl

/// std's map by its entries in order
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct BTreeMap<K, V> { k: Vec<(K, V)> }
pub open spec fn ordered<V>(s: Seq<(BlockHeight, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.0 < (#[trigger] s[j]).0.0 }
/// how many entries are below a height
pub open spec fn below<V>(s: Seq<(BlockHeight, V)>, h: int) -> int decreases s.len() { if s.len() == 0 { 0 } else if s.last().0.0 < h { s.len() as int } else { below(s.drop_last(), h) } }
proof fn below_ok<V>(s: Seq<(BlockHeight, V)>, h: int)
    requires ordered(s)
    ensures 0 <= below(s, h) <= s.len(), h <= 0 ==> below(s, h) == 0, below(s, h) > 0 ==> s[below(s, h) - 1].0.0 < h, below(s, h) < s.len() ==> s[below(s, h)].0.0 >= h
    decreases s.len()
{ if s.len() > 0 { assert(ordered(s.drop_last())); below_ok(s.drop_last(), h); } }
impl<V> BTreeMap<BlockHeight, V> {
    pub uninterp spec fn list(&self) -> Seq<(BlockHeight, V)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.list() == Seq::<(BlockHeight, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub broadcast proof fn in_order(&self) ensures #[trigger] ordered(self.list()) { }
    #[verifier::external_body]
    pub fn insert(&mut self, k: BlockHeight, v: V) -> (r: Option<V>) ensures (forall|i: int| 0 <= i < old(self).list().len() ==> (#[trigger] old(self).list()[i]).0.0 < k.0) ==> final(self).list() == old(self).list().push((k, v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_iter(&self) -> (r: MapIter<'_, V>) ensures r.rest() == self.list() { unimplemented!() }
    #[verifier::external_body]
    pub fn range(&self, g: Range<BlockHeight>) -> (r: MapIter<'_, V>) requires g.start.0 <= g.end.0 ensures r.rest() == self.list().subrange(below(self.list(), g.start.0 as int), below(self.list(), g.end.0 as int)) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct MapIter<'a, V> { k: &'a [V] }
impl<'a, V> MapIter<'a, V> {
    pub uninterp spec fn rest(&self) -> Seq<(BlockHeight, V)>;
    pub fn vf_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<(&'a BlockHeight, &'a V)>) ensures match r { Some(x) => old(self).rest().len() > 0 && (*x.0, *x.1) == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<(&'a BlockHeight, &'a V)>) ensures match r { Some(x) => old(self).rest().len() > 0 && (*x.0, *x.1) == old(self).rest().last() && final(self).rest() == old(self).rest().drop_last(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
}
//@ struct E EmissionScheduleTabular
/// what the block at a height adds: the subsidy of the last period that starts before it
pub open spec fn rate(first: int, p: Seq<(BlockHeight, CoinUnit)>, b: int) -> int decreases p.len() { if p.len() == 0 { first } else if p.last().0.0 < b { atoms(p.last().1) } else { rate(first, p.drop_last(), b) } }
/// all that the blocks up to a height add
pub open spec fn added(first: int, p: Seq<(BlockHeight, CoinUnit)>, h: int) -> int decreases h { if h <= 0 { 0 } else { added(first, p, h - 1) + rate(first, p, h) } }
pub open spec fn supply(t: EmissionScheduleTabular, h: int) -> int { atoms(t.initial_supply) + added(atoms(t.initial_subsidy), t.periods.list(), h) }
proof fn rate_pos(first: int, p: Seq<(BlockHeight, CoinUnit)>, b: int) requires first >= 0 ensures rate(first, p, b) >= 0 decreases p.len() { if p.len() > 0 { rate_pos(first, p.drop_last(), b); } }
/// the last period before b is the i-th
proof fn rate_at(first: int, p: Seq<(BlockHeight, CoinUnit)>, b: int, i: int)
    requires ordered(p), -1 <= i < p.len(), i >= 0 ==> p[i].0.0 < b, i + 1 < p.len() ==> p[i + 1].0.0 >= b
    ensures rate(first, p, b) == (if i < 0 { first } else { atoms(p[i].1) })
    decreases p.len()
{ if p.len() > 0 && i < p.len() - 1 { assert(p.last().0.0 >= b) by { if i + 1 < p.len() - 1 { assert(p[i + 1].0.0 < p[p.len() - 1].0.0); } } assert(ordered(p.drop_last())); rate_at(first, p.drop_last(), b, i); } }
proof fn added_step(first: int, p: Seq<(BlockHeight, CoinUnit)>, a: int, h: int, i: int)
    requires ordered(p), 0 <= a <= h, -1 <= i < p.len(), i >= 0 ==> p[i].0.0 <= a, i + 1 < p.len() ==> p[i + 1].0.0 >= h
    ensures added(first, p, h) == added(first, p, a) + (h - a) * (if i < 0 { first } else { atoms(p[i].1) })
    decreases h - a
{
    if a < h {
        added_step(first, p, a, h - 1, i); rate_at(first, p, h, i);
        let c = if i < 0 { first } else { atoms(p[i].1) };
        assert((h - a) * c == (h - 1 - a) * c + c) by (nonlinear_arith);
    } else {
        let c = if i < 0 { first } else { atoms(p[i].1) };
        assert((h - a) * c == 0) by (nonlinear_arith) requires h == a;
    }
}
proof fn added_mono(first: int, p: Seq<(BlockHeight, CoinUnit)>, a: int, b: int) requires first >= 0, a <= b ensures 0 <= added(first, p, a) <= added(first, p, b) decreases b { if b > 0 { rate_pos(first, p, b); if a < b { added_mono(first, p, a, b - 1); } else { added_mono(first, p, a - 1, b - 1); rate_pos(first, p, a); } } }
/// for each period what there is when it starts, and what each block adds from then on
pub open spec fn tabled(t: EmissionScheduleTabular, e: Seq<(BlockHeight, (CoinUnit, CoinUnit))>, n: int) -> bool { e.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] e[i]).0 == t.periods.list()[i].0 && atoms(e[i].1.0) == supply(t, e[i].0.0 as int) && e[i].1.1 == t.periods.list()[i].1 }
/// what the schedule's function keeps
pub struct Kept { pub table: BTreeMap<BlockHeight, (CoinUnit, CoinUnit)>, pub initial_entry: (CoinUnit, CoinUnit) }
impl Kept {
    pub fn call(&self, height: BlockHeight) -> (r: CoinUnit)
        requires exists|t: EmissionScheduleTabular| kept(*self, t) && #[trigger] supply(t, height.0 as int) <= u128::MAX
        ensures forall|t: EmissionScheduleTabular| kept(*self, t) ==> atoms(r) == #[trigger] supply(t, height.0 as int)
    { EmissionScheduleTabular::kept_at(&self.table, self.initial_entry, height) }
}
pub open spec fn kept_is(table: BTreeMap<BlockHeight, (CoinUnit, CoinUnit)>, e: (CoinUnit, CoinUnit), t: EmissionScheduleTabular) -> bool { tabled(t, table.list(), t.periods.list().len() as int) && e == (t.initial_supply, t.initial_subsidy) }
pub open spec fn kept(k: Kept, t: EmissionScheduleTabular) -> bool { kept_is(k.table, k.initial_entry, t) }
pub struct EmissionSchedule(pub Kept);
impl EmissionSchedule {
    pub open spec fn known(self, h: int) -> bool { exists|t: EmissionScheduleTabular| #[trigger] follows(self, t) && supply(t, h) <= u128::MAX }
    pub fn vf_from_fn(k: Kept) -> (r: Self) ensures r.0 == k { EmissionSchedule(k) } }
pub open spec fn follows(s: EmissionSchedule, t: EmissionScheduleTabular) -> bool { kept(s.0, t) }
pub open spec fn last_start(t: EmissionScheduleTabular) -> int { if t.periods.list().len() == 0 { 0 } else { t.periods.list().last().0.0 as int } }
pub open spec fn tail_rate(t: EmissionScheduleTabular) -> int { if t.periods.list().len() == 0 { atoms(t.initial_subsidy) } else { atoms(t.periods.list().last().1) } }
proof fn tail(t: EmissionScheduleTabular, h: int)
    requires h >= last_start(t)
    ensures supply(t, h) >= supply(t, last_start(t)), supply(t, h + 1) == supply(t, h) + tail_rate(t), tail_rate(t) == 0 ==> supply(t, h) == supply(t, last_start(t))
{
    let p = t.periods.list();
    let (first, last, c) = (atoms(t.initial_subsidy), last_start(t), tail_rate(t));
    t.periods.in_order();
    added_step(first, p, last, h, p.len() - 1); added_step(first, p, last, h + 1, p.len() - 1);
    assert((h + 1 - last) * c == (h - last) * c + c && (h - last) * c >= 0 && (c == 0 ==> (h - last) * c == 0)) by (nonlinear_arith) requires h >= last, c >= 0;
}
//@ impl E impl EmissionScheduleTabular
//@ fn new
//@|    ensures r.initial_supply == initial_supply, r.initial_subsidy == initial_subsidy, r.periods == periods
//@ fn initial_supply
//@|    ensures r == self.initial_supply
//@ fn tail_emission
//@ . method iter => vf_iter
//@|    ensures r.0.0 == last_start(*self), atoms(r.1) == tail_rate(*self)
//@ fn schedule
//@ . closure 1 fn kept_at(table: &BTreeMap<BlockHeight, (CoinUnit, CoinUnit)>, initial_entry: (CoinUnit, CoinUnit), height: BlockHeight) -> CoinUnit
//@|    requires exists|t: EmissionScheduleTabular| kept_is(*table, initial_entry, t) && #[trigger] supply(t, height.0 as int) <= u128::MAX
//@|    ensures forall|t: EmissionScheduleTabular| kept_is(*table, initial_entry, t) ==> atoms(r) == #[trigger] supply(t, height.0 as int)
//@ . proof start
//@|    let ghost e = table.list();
//@|    let ghost i = below(e, height.0 as int) - 1;
//@|    proof {
//@|        table.in_order(); below_ok(e, height.0 as int); below_ok(e, 0);
//@|        if i >= 0 { assert(e.subrange(0, i + 1).last() == e[i]); } else { assert(e.subrange(0, i + 1).len() == 0); }
//@|    }
//@ . proof after let n_blocks
//@|    proof {
//@|        assert forall|t: EmissionScheduleTabular| kept_is(*table, initial_entry, t) implies #[trigger] supply(t, height.0 as int) == atoms(*start_supply) + atoms(*subsidy) * n_blocks by {
//@|            t.periods.in_order();
//@|            let p = t.periods.list();
//@|            added_step(atoms(t.initial_subsidy), p, start.0 as int, height.0 as int, i);
//@|            let (n, c) = (n_blocks as int, atoms(*subsidy));
//@|            assert(n * c == c * n) by (nonlinear_arith);
//@|        }
//@|        let (n, c) = (n_blocks as int, atoms(*subsidy));
//@|        assert(c * n >= 0) by (nonlinear_arith) requires n >= 0, c >= 0;
//@|    }
//@ fn schedule
//@ . opt fornext eager
//@ . method iter => vf_iter
//@ . replace EmissionSchedule::from_fn =>> EmissionSchedule::vf_from_fn
//@ . lift 1 Kept { table, initial_entry }
//@|    requires supply(*self, last_start(*self)) <= u128::MAX
//@|    ensures follows(r, *self)
//@ . proof start
//@|    let ghost p = self.periods.list();
//@|    let ghost first = atoms(self.initial_subsidy);
//@|    let ghost mut i: int = 0;
//@|    proof { self.periods.in_order(); }
//@ . loop 0
//@|    invariant_except_break vf_it0.rest() == p.skip(i)
//@|    invariant p == self.periods.list(), ordered(p), first == atoms(self.initial_subsidy), 0 <= i <= p.len(), supply(*self, last_start(*self)) <= u128::MAX,
//@|        tabled(*self, vf_m.list(), i), atoms(vf_s.0) == supply(*self, vf_s.2.0 as int), vf_s.1 == (if i == 0 { self.initial_subsidy } else { p[i - 1].1 }), vf_s.2.0 == (if i == 0 { 0 } else { p[i - 1].0.0 as int })
//@|    ensures i == p.len()
//@|    decreases p.len() - i
//@ . proof loop 0 start
//@|    proof {
//@|        assert(vf_it0.rest().len() == p.len() - i);
//@|        if i < p.len() {
//@|            assert(vf_it0.rest()[0] == p[i]);
//@|            added_step(first, p, vf_s.2.0 as int, p[i].0.0 as int, i - 1);
//@|            added_mono(first, p, p[i].0.0 as int, last_start(*self)); added_mono(first, p, 0, vf_s.2.0 as int);
//@|            let (n, c) = (p[i].0.0 - vf_s.2.0, atoms(vf_s.1));
//@|            assert(n * c == c * n && n * c >= 0) by (nonlinear_arith) requires n >= 0, c >= 0;
//@|        }
//@|    }
//@ . proof loop 0 end
//@|    proof { assert(vf_it0.rest() =~= p.skip(i + 1)); i = i + 1; }
//@ fn final_supply
//@|    requires supply(*self, last_start(*self)) <= u128::MAX
//@|    ensures match r { Some(x) => forall|h: int| h >= last_start(*self) ==> #[trigger] supply(*self, h) == atoms(x), None => forall|h: int| h >= last_start(*self) ==> #[trigger] supply(*self, h + 1) > supply(*self, h) }
//@ . proof start
//@|    proof {
//@|        assert forall|h: int| h >= last_start(*self) implies #[trigger] supply(*self, h) >= supply(*self, last_start(*self)) && supply(*self, h + 1) == supply(*self, h) + tail_rate(*self) && (tail_rate(*self) == 0 ==> supply(*self, h) == supply(*self, last_start(*self))) by { tail(*self, h); }
//@|    }
//@ endimpl
//@ impl E impl EmissionSchedule
//@ fn amount_at
//@ . replace self.0(ht) =>> self.0.call(ht)
//@|    requires self.known(ht.0 as int)
//@|    ensures forall|t: EmissionScheduleTabular| follows(*self, t) ==> atoms(r) == #[trigger] supply(t, ht.0 as int)
//@ fn initial_supply
//@|    requires self.known(0)
//@|    ensures forall|t: EmissionScheduleTabular| #[trigger] follows(*self, t) ==> r == t.initial_supply
//@ . proof end
//@|    proof { assert forall|t: EmissionScheduleTabular| #[trigger] follows(*self, t) implies vf_ret == t.initial_supply by { assert(atoms(vf_ret) == supply(t, 0)); } }
//@ fn subsidy
//@|    requires ht.0 > 0, self.known(ht.0 as int)
//@|    ensures forall|t: EmissionScheduleTabular| #[trigger] follows(*self, t) ==> atoms(r) == rate(atoms(t.initial_subsidy), t.periods.list(), ht.0 as int)
//@ . proof start
//@|    proof {
//@|        assert forall|t: EmissionScheduleTabular| #[trigger] follows(*self, t) implies supply(t, ht.0 as int) == supply(t, ht.0 - 1) + rate(atoms(t.initial_subsidy), t.periods.list(), ht.0 as int) && rate(atoms(t.initial_subsidy), t.periods.list(), ht.0 as int) >= 0 by { rate_pos(atoms(t.initial_subsidy), t.periods.list(), ht.0 as int); }
//@|        let t = choose|t: EmissionScheduleTabular| #[trigger] follows(*self, t) && supply(t, ht.0 as int) <= u128::MAX;
//@|        assert(follows(*self, t) && supply(t, ht.0 - 1) <= u128::MAX);
//@|    }
//@ endimpl
}
fn main() {}
