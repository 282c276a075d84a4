// Spending conditions: which script an input has to satisfy, and that a script is satisfied only if every part of it is.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::ops::{Add, Sub};
//@ source W mintscript/src/script/mod.rs
//@ source X mintscript/src/script/verify.rs
//@ source C mintscript/src/checker/mod.rs
//@ source Y mintscript/src/checker/hashlock.rs
//@ source Z mintscript/src/checker/signature.rs
//@ source R mintscript/src/translate.rs
//@ path hash::Ripemd160 => Ripemd160
//@ path hash::Sha256 => Sha256
//@ path hash::Sha1 => Sha1
//@ path pos_accounting::Error => PosError
//@ path tokens_accounting::Error => TokensError
//@ path orders_accounting::Error => OrdersError
//@ path serialization::Error => SerError
//@ path crypto::key::SignatureError => KeyError
//@ path super::ThresholdError => ThresholdError
//@ path crate::script::HashChallenge => HashChallenge
//@ path crate::script::ScriptVisitor => ScriptVisitor
//@ path common::chain::signature::verify_signature => verify_signature
verus! {
pub struct Amount { pub atoms: u128 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SigHashType { d: u8 }
pub struct StandardInputSignature { pub sighash_type: SigHashType, pub raw_signature: Vec<u8> }
impl StandardInputSignature {
    pub fn new(sighash_type: SigHashType, raw_signature: Vec<u8>) -> (r: Self) ensures r == (StandardInputSignature { sighash_type, raw_signature }) { StandardInputSignature { sighash_type, raw_signature } }
    pub fn sighash_type(&self) -> (r: SigHashType) ensures r == self.sighash_type { self.sighash_type }
    pub fn raw_signature(&self) -> (r: &[u8]) ensures r@ == self.raw_signature@ { self.raw_signature.as_slice() }
}
fn vf_assert(b: bool) requires b { }
#[verifier::external_body] fn vf_panic<T>() -> T requires false { unimplemented!() }
//@ include lists.vrs
//@ include timelocks.vrs
//@ include txtypes.vrs
pub trait VfVec<T>: Sized { fn vf_vec(self) -> Vec<T>; }
impl<T> VfVec<T> for Vec<T> { fn vf_vec(self) -> (r: Vec<T>) ensures r == self { self } }
impl InputWitness { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ enum W ScriptConstructionError
//@ struct W Threshold
//@ enum W ThresholdError
//@ enum W HashChallenge
//@ enum W WitnessScript
//@ enum W DissatisfiedScript
//@ enum W ScriptCondition
/// what a script is made of in the end
pub enum Leaf { Signature(Destination, EvaluatedInputWitness), Timelock(OutputTimeLock), Hashlock(HashChallenge, [u8; 32]) }
pub open spec fn wf(ws: WitnessScript) -> bool decreases ws {
    match ws {
        WitnessScript::Threshold(t) => t.required <= t.conditions@.len() && forall|i: int| 0 <= i < t.conditions@.len() ==> wf_cond(#[trigger] t.conditions@[i]),
        WitnessScript::HashLock { hash_challenge, preimage } => hash_challenge is Hash160,
        _ => true,
    }
}
pub open spec fn wf_cond(c: ScriptCondition) -> bool decreases c { match c { ScriptCondition::Satisfied(ws) => wf(ws), ScriptCondition::Dissatisfied(_) => true } }
/// the scripts that are said to be satisfied, in order
pub open spec fn sats(cs: Seq<ScriptCondition>, n: int) -> Seq<WitnessScript> decreases n { if n <= 0 { Seq::empty() } else { match cs[n - 1] { ScriptCondition::Satisfied(ws) => sats(cs, n - 1).push(ws), _ => sats(cs, n - 1) } } }
/// A script is met: a threshold by exactly as many of its conditions as it requires, each of them met; everything else by the one who can judge it
pub open spec fn met(ws: WitnessScript, f: spec_fn(Leaf) -> bool) -> bool decreases ws {
    match ws {
        WitnessScript::Signature(d, s) => f(Leaf::Signature(d, s)),
        WitnessScript::Timelock(l) => f(Leaf::Timelock(l)),
        WitnessScript::HashLock { hash_challenge, preimage } => f(Leaf::Hashlock(hash_challenge, preimage)),
        WitnessScript::Threshold(t) => sats(t.conditions@, t.conditions@.len() as int).len() == t.required && forall|i: int| 0 <= i < t.conditions@.len() ==> cond_met(#[trigger] t.conditions@[i], f),
    }
}
pub open spec fn cond_met(c: ScriptCondition, f: spec_fn(Leaf) -> bool) -> bool decreases c { match c { ScriptCondition::Satisfied(ws) => met(ws, f), ScriptCondition::Dissatisfied(_) => true } }
pub open spec fn all_met(s: Seq<&WitnessScript>, f: spec_fn(Leaf) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> met(*#[trigger] s[i], f) }
proof fn sats_len(cs: Seq<ScriptCondition>, n: int) requires 0 <= n <= cs.len() ensures sats(cs, n).len() <= n decreases n { if n > 0 { sats_len(cs, n - 1); } }
/// the satisfied ones are all met exactly if all conditions are (a condition that is not claimed asks for nothing)
proof fn sats_met(cs: Seq<ScriptCondition>, n: int, f: spec_fn(Leaf) -> bool)
    requires 0 <= n <= cs.len()
    ensures (forall|i: int| 0 <= i < sats(cs, n).len() ==> met(#[trigger] sats(cs, n)[i], f)) <==> (forall|i: int| 0 <= i < n ==> cond_met(#[trigger] cs[i], f)),
        (forall|i: int| 0 <= i < n ==> wf_cond(#[trigger] cs[i])) ==> (forall|i: int| 0 <= i < sats(cs, n).len() ==> wf(#[trigger] sats(cs, n)[i]))
    decreases n
{
    if n > 0 {
        sats_met(cs, n - 1, f);
        let (a, b) = (sats(cs, n - 1), sats(cs, n));
        match cs[n - 1] {
            ScriptCondition::Satisfied(ws) => {
                assert(b[a.len() as int] == ws);
                assert(forall|i: int| 0 <= i < a.len() ==> b[i] == a[i]);
                if forall|i: int| 0 <= i < b.len() ==> met(#[trigger] b[i], f) { assert(met(b[a.len() as int], f)); assert forall|i: int| 0 <= i < a.len() implies met(#[trigger] a[i], f) by { assert(b[i] == a[i]); } assert(cond_met(cs[n - 1], f)); assert forall|i: int| 0 <= i < n implies cond_met(#[trigger] cs[i], f) by { if i < n - 1 { } } }
                if forall|i: int| 0 <= i < n ==> cond_met(#[trigger] cs[i], f) { assert(cond_met(cs[n - 1], f)); assert(met(ws, f)); assert forall|i: int| 0 <= i < b.len() implies met(#[trigger] b[i], f) by { if i < a.len() { assert(b[i] == a[i]); } } }
                if forall|i: int| 0 <= i < n ==> wf_cond(#[trigger] cs[i]) { assert(wf_cond(cs[n - 1])); assert forall|i: int| 0 <= i < b.len() implies wf(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } } }
            }
            ScriptCondition::Dissatisfied(_) => { if forall|i: int| 0 <= i < n - 1 ==> cond_met(#[trigger] cs[i], f) { assert forall|i: int| 0 <= i < n implies cond_met(#[trigger] cs[i], f) by { if i < n - 1 { } } } }
        }
    }
}
/// references to these scripts
pub open spec fn picked(v: Seq<&WitnessScript>, s: Seq<WitnessScript>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> *#[trigger] v[i] == s[i] }
proof fn sats_grow(cs: Seq<ScriptCondition>, a: int, b: int) requires 0 <= a <= b <= cs.len() ensures sats(cs, a).len() <= sats(cs, b).len() <= sats(cs, a).len() + (b - a) decreases b { if a < b { sats_grow(cs, a, b - 1); } }
/// all of these, one after the other
pub open spec fn each_met(s: Seq<WitnessScript>, f: spec_fn(Leaf) -> bool) -> bool decreases s.len() { s.len() == 0 || (each_met(s.drop_last(), f) && met(s.last(), f)) }
pub open spec fn each_wf(s: Seq<WitnessScript>) -> bool decreases s.len() { s.len() == 0 || (each_wf(s.drop_last()) && wf(s.last())) }
pub open spec fn made(m: Seq<ScriptCondition>, s: Seq<WitnessScript>) -> bool { m.len() <= s.len() && forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == ScriptCondition::Satisfied(s[i]) }
proof fn sats_prefix(m: Seq<ScriptCondition>, n: int) requires 0 <= n < m.len() ensures sats(m, n) == sats(m.drop_last(), n) decreases n { if n > 0 { sats_prefix(m, n - 1); assert(m[n - 1] == m.drop_last()[n - 1]); } }
proof fn all_made(m: Seq<ScriptCondition>, s: Seq<WitnessScript>)
    requires made(m, s), m.len() == s.len()
    ensures sats(m, m.len() as int) == s, forall|f: spec_fn(Leaf) -> bool| #[trigger] each_met(s, f) == (forall|i: int| 0 <= i < m.len() ==> cond_met(#[trigger] m[i], f)), each_wf(s) ==> (forall|i: int| 0 <= i < m.len() ==> wf_cond(#[trigger] m[i]))
    decreases m.len()
{
    if m.len() > 0 {
        let (a, b) = (m.drop_last(), s.drop_last());
        all_made(a, b);
        assert(m.last() == ScriptCondition::Satisfied(s.last()));
        sats_prefix(m, a.len() as int);
        assert(sats(m, m.len() as int) =~= s);
        assert forall|f: spec_fn(Leaf) -> bool| #[trigger] each_met(s, f) == (forall|i: int| 0 <= i < m.len() ==> cond_met(#[trigger] m[i], f)) by {
            assert(each_met(b, f) == (forall|i: int| 0 <= i < a.len() ==> cond_met(#[trigger] a[i], f)));
            assert(cond_met(m.last(), f) == met(s.last(), f));
            if each_met(s, f) { assert forall|i: int| 0 <= i < m.len() implies cond_met(#[trigger] m[i], f) by { if i < a.len() { assert(m[i] == a[i]); } } }
            if forall|i: int| 0 <= i < m.len() ==> cond_met(#[trigger] m[i], f) { assert(cond_met(m[m.len() - 1], f)); assert forall|i: int| 0 <= i < a.len() implies cond_met(#[trigger] a[i], f) by { assert(m[i] == a[i]); } }
        }
        if each_wf(s) { assert forall|i: int| 0 <= i < m.len() implies wf_cond(#[trigger] m[i]) by { if i < a.len() { assert(m[i] == a[i]); } } }
    }
}
//@ impl W impl Threshold
//@ implconst TRUE ensures Self::TRUE.required == 0, Self::TRUE.conditions@.len() == 0
//@ fn new_unchecked
//@|    ensures r == (Threshold { required, conditions })
//@ . opt const
//@ fn new
//@|    ensures r == (if required <= conditions@.len() { Ok::<Threshold, ScriptConstructionError>(Threshold { required, conditions }) } else { Err(ScriptConstructionError::InvalidThreshold(required, conditions.len())) })
//@ fn into_script
//@|    ensures r == WitnessScript::Threshold(self)
//@ . opt const
//@ fn conditions
//@|    ensures r@ == self.conditions@
//@ fn required
//@|    ensures r == self.required
//@ fn required_dissat
//@|    requires self.required <= self.conditions@.len()
//@|    ensures r == self.conditions@.len() - self.required
//@ fn collect_satisfied
//@|    requires self.required <= self.conditions@.len()
//@|    ensures (r is Ok) == (sats(self.conditions@, self.conditions@.len() as int).len() == self.required),
//@|        r matches Ok(v) ==> picked(v@, sats(self.conditions@, self.conditions@.len() as int))
//@ . opt fornext
//@ . proof start
//@|    let ghost cs = self.conditions@; proof { sats_len(cs, cs.len() as int); }
//@ . loop 0
//@|    invariant cs == self.conditions@, vf_it0.rest() == cs.subrange(cs.len() - vf_it0.rest().len(), cs.len() as int), vf_it0.rest().len() <= cs.len(), self.required <= cs.len(),
//@|        ({ let n = cs.len() - vf_it0.rest().len(); left_sat + sats(cs, n).len() == self.required && left_dissat + (n - sats(cs, n).len()) == cs.len() - self.required && picked(satisfied@, sats(cs, n)) })
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ . proof loop 0 start
//@|    proof { let n = cs.len() - vf_it0.rest().len(); sats_len(cs, n); if n < cs.len() { sats_len(cs, n + 1); sats_grow(cs, n + 1, cs.len() as int); } }
//@ endimpl
//@ impl W impl ScriptCondition
//@ fn as_satisfied
//@|    ensures match r { Some(ws) => *self == ScriptCondition::Satisfied(*ws), None => self is Dissatisfied }
//@ endimpl
//@ impl W impl WitnessScript
//@ implconst TRUE ensures Self::TRUE matches WitnessScript::Threshold(t) && t.required == 0 && t.conditions@.len() == 0
//@ fn signature
//@|    ensures r == WitnessScript::Signature(dest, sig)
//@ fn timelock
//@|    ensures r == WitnessScript::Timelock(tl)
//@ fn hashlock
//@|    ensures r == (WitnessScript::HashLock { hash_challenge, preimage })
//@ fn threshold_unchecked
//@|    requires required <= conds@.len()
//@|    ensures r == WitnessScript::Threshold(Threshold { required, conditions: conds })
//@ fn threshold
//@|    ensures match r { Ok(ws) => required <= conds@.len() && ws == WitnessScript::Threshold(Threshold { required, conditions: conds }), Err(_) => required > conds@.len() }
//@ . opt result
//@ fn disjunction
//@|    ensures match r { Ok(ws) => conds@.len() > 0 && ws == WitnessScript::Threshold(Threshold { required: 1, conditions: conds }), Err(_) => conds@.len() == 0 }
//@ fn conjunction
//@|    ensures r == WitnessScript::Threshold(Threshold { required: conds.len(), conditions: conds })
//@ fn satisfied_conjunction
//@ . argtype conds impl VfList<WitnessScript>
//@ . opt eager fornext
//@ . method into_iter => vf_list
//@ . method collect => vf_vec
//@|    ensures forall|f: spec_fn(Leaf) -> bool| #[trigger] met(r, f) == each_met(conds.items(), f), each_wf(conds.items()) ==> wf(r)
//@ . proof start
//@|    let ghost given = conds.items();
//@ . loop 0
//@|    invariant given == conds.items(), vf_it0.rest() == given.skip(vf_m@.len() as int), made(vf_m@, given)
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ . proof loop 0 end
//@|    proof { assert(vf_it0.rest() =~= given.skip(vf_m@.len() as int)); }
//@ . proof loop 0 after
//@|    proof { all_made(vf_m@, given); }
//@ endimpl
//@ enum X ScriptError
impl<SE, TE, HE> core::convert::From<ThresholdError> for ScriptError<SE, TE, HE> { #[verifier::external_body] fn from(e: ThresholdError) -> Self { unimplemented!() } }
/// The one who judges what a script is made of: always in the same way
pub trait ScriptVisitor: Sized {
    type SignatureError;
    type TimelockError;
    type HashlockError;
    spec fn accepts(&self) -> spec_fn(Leaf) -> bool;
    fn visit_signature(&mut self, destination: &Destination, witness: &EvaluatedInputWitness) -> (r: core::result::Result<(), Self::SignatureError>)
        ensures (r is Ok) == old(self).accepts()(Leaf::Signature(*destination, *witness)), final(self).accepts() == old(self).accepts();
    fn visit_timelock(&mut self, timelock: &OutputTimeLock) -> (r: core::result::Result<(), Self::TimelockError>)
        ensures (r is Ok) == old(self).accepts()(Leaf::Timelock(*timelock)), final(self).accepts() == old(self).accepts();
    fn visit_hashlock(&mut self, hash_challenge: &HashChallenge, preimage: &[u8; 32]) -> (r: core::result::Result<(), Self::HashlockError>)
        requires hash_challenge is Hash160
        ensures (r is Ok) == old(self).accepts()(Leaf::Hashlock(*hash_challenge, *preimage)), final(self).accepts() == old(self).accepts();
}
/// how much there is of a script
pub open spec fn size(ws: WitnessScript) -> nat decreases ws { match ws { WitnessScript::Threshold(t) => 1 + conds_size(t.conditions@, t.conditions@.len() as int), _ => 1 } }
pub open spec fn conds_size(cs: Seq<ScriptCondition>, n: int) -> nat decreases cs, n when n <= cs.len() via conds_size_dec { if n <= 0 { 0 } else { conds_size(cs, n - 1) + (match cs[n - 1] { ScriptCondition::Satisfied(ws) => size(ws), _ => 0 }) } }
#[via_fn]
proof fn conds_size_dec(cs: Seq<ScriptCondition>, n: int) { }
pub open spec fn stack_size(s: Seq<&WitnessScript>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { stack_size(s.drop_last()) + size(*s.last()) } }
pub open spec fn list_size(s: Seq<WitnessScript>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { list_size(s.drop_last()) + size(s.last()) } }
proof fn sats_size(cs: Seq<ScriptCondition>, n: int) requires 0 <= n <= cs.len() ensures list_size(sats(cs, n)) == conds_size(cs, n) decreases n {
    if n > 0 { sats_size(cs, n - 1); match cs[n - 1] { ScriptCondition::Satisfied(ws) => { assert(sats(cs, n).drop_last() =~= sats(cs, n - 1)); } _ => {} } }
}
proof fn stack_push(a: Seq<&WitnessScript>, b: Seq<&WitnessScript>) ensures stack_size(a + b) == stack_size(a) + stack_size(b) decreases b.len() {
    if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); stack_push(a, b.drop_last()); } else { assert(a + b =~= a); }
}
proof fn stack_rev(a: Seq<&WitnessScript>) ensures stack_size(a.reverse()) == stack_size(a) decreases a.len() {
    if a.len() > 0 { let l = seq![a.last()]; assert(a.reverse() =~= l + a.drop_last().reverse()); stack_rev(a.drop_last()); stack_push(l, a.drop_last().reverse()); assert(l.drop_last() =~= Seq::<&WitnessScript>::empty()); assert(stack_size(l) == stack_size(l.drop_last()) + size(*l.last())); } else { assert(a.reverse() =~= a); }
}
proof fn picked_size(v: Seq<&WitnessScript>, s: Seq<WitnessScript>) requires picked(v, s) ensures stack_size(v) == list_size(s) decreases v.len() {
    if v.len() > 0 { assert(picked(v.drop_last(), s.drop_last())); picked_size(v.drop_last(), s.drop_last()); assert(*v[v.len() - 1] == s[s.len() - 1]); }
}
pub open spec fn all_wf(s: Seq<&WitnessScript>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf(*#[trigger] s[i]) }
/// what is put on the stack for a threshold
proof fn unfold(t: Threshold, rest: Seq<&WitnessScript>, v: Seq<&WitnessScript>, f: spec_fn(Leaf) -> bool)
    requires wf(WitnessScript::Threshold(t)), picked(v, sats(t.conditions@, t.conditions@.len() as int)), v.len() == t.required
    ensures met(WitnessScript::Threshold(t), f) == all_met(v, f), all_met(rest + v.reverse(), f) == (all_met(rest, f) && all_met(v, f)), all_wf(rest) ==> all_wf(rest + v.reverse()),
        all_met(rest + v, f) == (all_met(rest, f) && all_met(v, f)), all_wf(rest) ==> all_wf(rest + v), stack_size(rest + v) == stack_size(rest) + stack_size(v),
        stack_size(rest + v.reverse()) == stack_size(rest) + stack_size(v), stack_size(v) + 1 == size(WitnessScript::Threshold(t))
{
    let cs = t.conditions@; let s = sats(cs, cs.len() as int);
    sats_met(cs, cs.len() as int, f); sats_size(cs, cs.len() as int); picked_size(v, s); stack_rev(v); stack_push(rest, v.reverse()); stack_push(rest, v);
    if all_met(v, f) { assert forall|i: int| 0 <= i < s.len() implies met(#[trigger] s[i], f) by { assert(met(*v[i], f)); } }
    if met(WitnessScript::Threshold(t), f) { assert forall|i: int| 0 <= i < v.len() implies met(*#[trigger] v[i], f) by { assert(met(s[i], f)); } }
    assert forall|i: int| 0 <= i < v.len() implies wf(*#[trigger] v[i]) by { assert(wf(s[i])); }
    let w = rest + v.reverse();
    if all_met(w, f) {
        assert forall|i: int| 0 <= i < rest.len() implies met(*#[trigger] rest[i], f) by { assert(w[i] == rest[i]); }
        assert forall|i: int| 0 <= i < v.len() implies met(*#[trigger] v[i], f) by { assert(w[rest.len() + v.len() - 1 - i] == v[i]); }
    }
    let u = rest + v;
    if all_met(u, f) {
        assert forall|i: int| 0 <= i < rest.len() implies met(*#[trigger] rest[i], f) by { assert(u[i] == rest[i]); }
        assert forall|i: int| 0 <= i < v.len() implies met(*#[trigger] v[i], f) by { assert(u[rest.len() + i] == v[i]); }
    }
}
proof fn popped(st: Seq<&WitnessScript>, x: &WitnessScript, f: spec_fn(Leaf) -> bool)
    ensures all_met(st.push(x), f) == (all_met(st, f) && met(*x, f)), all_wf(st.push(x)) ==> all_wf(st) && wf(*x), stack_size(st.push(x)) == stack_size(st) + size(*x), size(*x) >= 1
{
    let w = st.push(x);
    assert(w.drop_last() =~= st); assert(w[st.len() as int] == x);
    if all_met(w, f) { assert(met(*w[st.len() as int], f)); assert forall|i: int| 0 <= i < st.len() implies met(*#[trigger] st[i], f) by { assert(w[i] == st[i]); } }
    if all_wf(w) { assert(wf(*w[st.len() as int])); assert forall|i: int| 0 <= i < st.len() implies wf(*#[trigger] st[i]) by { assert(w[i] == st[i]); } }
}
pub open spec fn tail<'a>(st: Seq<&'a WitnessScript>, now: Seq<&'a WitnessScript>) -> Seq<&'a WitnessScript> { now.subrange(st.len() as int, now.len() as int) }
pub open spec fn claimed(x: WitnessScript) -> Seq<WitnessScript> { sats(x->Threshold_0.conditions@, x->Threshold_0.conditions@.len() as int) }
proof fn pushed(st: Seq<&WitnessScript>, x: &WitnessScript, now: Seq<&WitnessScript>, f: spec_fn(Leaf) -> bool)
    requires x is Threshold, wf(*x), now.len() >= st.len(), now.subrange(0, st.len() as int) == st, picked(tail(st, now).reverse(), claimed(*x)) || picked(tail(st, now), claimed(*x)), claimed(*x).len() == x->Threshold_0.required
    ensures all_met(now, f) == (all_met(st, f) && met(*x, f)), all_wf(st) ==> all_wf(now), stack_size(now) + 1 == stack_size(st) + size(*x)
{
    let t = tail(st, now); let back = t.reverse();
    assert(back.reverse() =~= t); assert(st + t =~= now);
    if picked(back, claimed(*x)) { unfold(x->Threshold_0, st, back, f); } else { unfold(x->Threshold_0, st, t, f); }
}
//@ impl X impl WitnessScript
//@ fn verify
//@|    requires wf(*self)
//@|    ensures (r is Ok) == met(*self, old(v).accepts()), final(v).accepts() == old(v).accepts()
//@ . retype core::result::Result<(), ScriptError<V::SignatureError, V::TimelockError, V::HashlockError>>
//@ . method into_iter => vf_list
//@ . method rev => vf_rev
//@ . method extend => vf_extend
//@ . proof start
//@|    let ghost f = v.accepts(); let ghost mut prev: Seq<&WitnessScript> = seq![self]; proof { assert(stack_size(Seq::<&WitnessScript>::empty()) == 0); assert(prev.drop_last() =~= Seq::<&WitnessScript>::empty()); assert(all_met(prev, f) == met(*self, f)) by { if all_met(prev, f) { assert(met(*prev[0], f)); } } }
//@ . loop 0
//@|    invariant prev == eval_stack@, v.accepts() == f, f == old(v).accepts(), all_wf(eval_stack@), met(*self, f) == all_met(eval_stack@, f)
//@|    ensures eval_stack@.len() == 0
//@|    decreases stack_size(eval_stack@)
//@ . proof loop 0 start
//@|    let ghost st = eval_stack@; let ghost whole = st.push(expr); proof { assert(whole =~= prev); popped(st, expr, f); assert(wf(*expr)); }
//@ . proof loop 0 end
//@|    proof { prev = eval_stack@; if expr is Threshold { assert(eval_stack@.subrange(0, st.len() as int) =~= st); pushed(st, expr, eval_stack@, f); } else { assert(eval_stack@ == st); assert(met(*expr, f)); } }
//@ endimpl
// ---------------------------------------------------------------- the checkers
/// a hash function of the crypto crate
pub trait HashKind { spec fn of(s: Seq<u8>) -> Seq<u8>; }
pub struct Ripemd160;
pub struct Sha256;
pub struct Sha1;
pub uninterp spec fn ripemd160(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sha1(s: Seq<u8>) -> Seq<u8>;
impl HashKind for Ripemd160 { open spec fn of(s: Seq<u8>) -> Seq<u8> { ripemd160(s) } }
impl HashKind for Sha256 { open spec fn of(s: Seq<u8>) -> Seq<u8> { sha256(s) } }
impl HashKind for Sha1 { open spec fn of(s: Seq<u8>) -> Seq<u8> { sha1(s) } }
pub trait Bytes { spec fn bytes(&self) -> Seq<u8>; }
impl Bytes for &[u8; 32] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashOut<T> { d: Vec<u8>, t: core::marker::PhantomData<T> }
impl<T: HashKind> HashOut<T> { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
impl<T: HashKind> Bytes for HashOut<T> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn hash<T: HashKind, B: Bytes>(b: B) -> (r: HashOut<T>) ensures r@ == T::of(b.bytes()) { unimplemented!() }
//@ enum Y HashlockError
// (`==` of slices of bytes)
#[verifier::external_body]
proof fn bytes_eq(a: &[u8], b: &[u8]) ensures <&[u8] as PartialEqSpec<&[u8]>>::obeys_eq_spec(), PartialEqSpec::eq_spec(&a, &b) == (a@ == b@) { }
//@ fn Y ensure_hashes_equal
//@|    ensures (r is Ok) == (left@ == right@)
//@ . opt result
//@ . proof start
//@|    proof { bytes_eq(left, right); }
/// A checker of hash locks gives its verdict and changes nothing
pub trait HashlockChecker: Sized {
    type Error;
    spec fn opened(&self, c: HashChallenge, preimage: [u8; 32]) -> bool;
    fn check_hashlock(&mut self, hash_challenge: &HashChallenge, preimage: &[u8; 32]) -> (r: core::result::Result<(), Self::Error>)
        requires hash_challenge is Hash160
        ensures (r is Ok) == old(self).opened(*hash_challenge, *preimage), *final(self) == *old(self);
}
pub struct StandardHashlockChecker;
//@ impl Y impl HashlockChecker for StandardHashlockChecker
    open spec fn opened(&self, c: HashChallenge, preimage: [u8; 32]) -> bool { ripemd160(sha256(preimage@)) == c->Hash160_0@ }
//@ fn check_hashlock
//@ endimpl
pub struct NoOpHashlockChecker;
//@ impl Y impl HashlockChecker for NoOpHashlockChecker
    open spec fn opened(&self, c: HashChallenge, preimage: [u8; 32]) -> bool { true }
//@ fn check_hashlock
//@ endimpl
// ---------------------------------------------------------------- the checker of signatures, and all three together
pub trait SignatureChecker<C>: Sized {
    type Error;
    spec fn signed(&self, ctx: C, d: Destination, w: EvaluatedInputWitness) -> bool;
    fn check_signature(&mut self, ctx: &mut C, destination: &Destination, witness: &EvaluatedInputWitness) -> (r: core::result::Result<(), Self::Error>)
        ensures (r is Ok) == old(self).signed(*old(ctx), *destination, *witness), *final(self) == *old(self), *final(ctx) == *old(ctx);
}
#[verifier::external_body]
pub struct ChainConfig { d: u64 }
#[verifier::external_body]
pub struct SighashInputCommitment { d: u64 }
#[verifier::external_body]
pub struct SerError { d: u64 }
#[verifier::external_body]
pub struct KeyError { d: u64 }
#[verifier::external_body]
pub struct PartiallySignedMultisigStructureError { d: u64 }
#[verifier::external_body]
pub struct ClassicalMultisigSigningError { d: u64 }
//@ enum TG DestinationSigError
pub trait Transactable { }
/// what the signature of an input is checked against
pub trait SignatureContext {
    type Tx: Transactable;
    spec fn chain(&self) -> ChainConfig;
    spec fn tx(&self) -> Self::Tx;
    spec fn commitments(&self) -> Seq<SighashInputCommitment>;
    spec fn number(&self) -> usize;
    fn chain_config(&self) -> (r: &ChainConfig) ensures *r == self.chain();
    fn transaction(&self) -> (r: &Self::Tx) ensures *r == self.tx();
    fn input_commitments(&self) -> (r: &[SighashInputCommitment]) ensures r@ == self.commitments();
    fn input_num(&self) -> (r: usize) ensures r == self.number();
}
/// whether a witness is a right signature of this destination for this input of this transaction (see unit sighash)
pub uninterp spec fn signature_right<T>(chain: ChainConfig, d: Destination, tx: T, w: EvaluatedInputWitness, commitments: Seq<SighashInputCommitment>, n: usize) -> bool;
#[verifier::external_body]
pub fn verify_signature<T>(chain_config: &ChainConfig, outpoint_destination: &Destination, tx: &T, input_witness: &EvaluatedInputWitness, input_commitments: &[SighashInputCommitment], input_index: usize) -> (r: core::result::Result<(), DestinationSigError>)
    ensures (r is Ok) == signature_right(*chain_config, *outpoint_destination, *tx, *input_witness, input_commitments@, input_index) { unimplemented!() }
pub struct StandardSignatureChecker;
//@ impl Z impl<C: SignatureContext> SignatureChecker<C> for StandardSignatureChecker
    open spec fn signed(&self, ctx: C, d: Destination, w: EvaluatedInputWitness) -> bool { signature_right(ctx.chain(), d, ctx.tx(), w, ctx.commitments(), ctx.number()) }
//@ fn check_signature
//@ endimpl
pub struct NoOpSignatureChecker;
//@ impl Z impl<C> SignatureChecker<C> for NoOpSignatureChecker
    open spec fn signed(&self, ctx: C, d: Destination, w: EvaluatedInputWitness) -> bool { true }
//@ fn check_signature
//@ endimpl
//@ struct C ScriptChecker
//@ type C TimelockOnlyScriptChecker
//@ type C SignatureOnlyScriptChecker
//@ type C FullScriptChecker
/// what a checker accepts: each part of a script is judged by the checker for it
pub open spec fn judge<C, S: SignatureChecker<C>, T: TimelockChecker<C>, H: HashlockChecker>(c: C, s: S, t: T, h: H) -> spec_fn(Leaf) -> bool {
    |l: Leaf| match l { Leaf::Signature(d, w) => s.signed(c, d, w), Leaf::Timelock(x) => t.opens(c, x), Leaf::Hashlock(x, p) => h.opened(x, p) }
}
//@ impl C impl<C> TimelockOnlyScriptChecker<C>
//@ fn timelock_only
//@|    ensures r == (ScriptChecker { context, signature_checker: NoOpSignatureChecker, timelock_checker: StandardTimelockChecker, hashlock_checker: NoOpHashlockChecker })
//@ endimpl
//@ impl C impl<C> SignatureOnlyScriptChecker<C>
//@ fn signature_only
//@|    ensures r == (ScriptChecker { context, signature_checker: StandardSignatureChecker, timelock_checker: NoOpTimelockChecker, hashlock_checker: NoOpHashlockChecker })
//@ endimpl
//@ impl C impl<C> FullScriptChecker<C>
//@ fn full
//@|    ensures r == (ScriptChecker { context, signature_checker: StandardSignatureChecker, timelock_checker: StandardTimelockChecker, hashlock_checker: StandardHashlockChecker })
//@ endimpl
//@ impl C impl<C, S, T, H> ScriptChecker<C, S, T, H>
//@ fn custom
//@|    ensures r == (ScriptChecker { context, signature_checker, timelock_checker, hashlock_checker })
//@ endimpl
//@ impl C impl<C, S, T, H> crate::script::ScriptVisitor for ScriptChecker<C, S, T, H> where S: SignatureChecker<C>, T: TimelockChecker<C>, H: HashlockChecker,
    open spec fn accepts(&self) -> spec_fn(Leaf) -> bool { judge(self.context, self.signature_checker, self.timelock_checker, self.hashlock_checker) }
//@ fn visit_signature
//@ fn visit_timelock
//@ fn visit_hashlock
//@ endimpl
// ---------------------------------------------------------------- what an input has to satisfy
//@ source AH common/src/chain/transaction/signature/inputsig/authorize_hashed_timelock_contract_spend.rs
//@ source UU utxo/src/cache.rs
//@ const TH HTLC_SECRET_SIZE
//@ struct TH HtlcSecret
//@ impl TH impl HtlcSecret
//@ fn consume
//@|    ensures r == self.secret
//@ endimpl
//@ enum AH AuthorizedHashedTimelockContractSpend
/// what the bytes of an input's signature say about a contract (serialization)
pub uninterp spec fn claim_of(raw: Seq<u8>) -> Option<AuthorizedHashedTimelockContractSpend>;
impl AuthorizedHashedTimelockContractSpend {
    #[verifier::external_body]
    pub fn from_data(data: &[u8]) -> (r: core::result::Result<Self, DestinationSigError>) ensures match r { Ok(c) => claim_of(data@) == Some(c), Err(_) => claim_of(data@) is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct PosError { d: u64 }
#[verifier::external_body]
pub struct TokensError { d: u64 }
#[verifier::external_body]
pub struct OrdersError { d: u64 }
#[verifier::external_body]
pub struct UtxoSource { d: u64 }
//@ enum R TranslationError
impl core::convert::From<PosError> for TranslationError { #[verifier::external_body] fn from(e: PosError) -> Self { unimplemented!() } }
impl core::convert::From<TokensError> for TranslationError { #[verifier::external_body] fn from(e: TokensError) -> Self { unimplemented!() } }
impl core::convert::From<OrdersError> for TranslationError { #[verifier::external_body] fn from(e: OrdersError) -> Self { unimplemented!() } }
impl core::convert::From<DestinationSigError> for TranslationError { #[verifier::external_body] fn from(e: DestinationSigError) -> Self { unimplemented!() } }
#[allow(inconsistent_fields)]
//@ enum R InputInfo
/// what an input spends
pub enum Spent { Output(TxOutput), Account(AccountOutPoint), Command(AccountCommand), OrderCommand(OrderAccountCommand) }
pub open spec fn spent_of(i: InputInfo<'_>) -> Spent {
    match i { InputInfo::Utxo { outpoint, utxo, utxo_source } => Spent::Output(utxo), InputInfo::Account { outpoint } => Spent::Account(*outpoint), InputInfo::AccountCommand { command } => Spent::Command(*command), InputInfo::OrderAccountCommand { command } => Spent::OrderCommand(*command) }
}
pub trait InputInfoProvider {
    spec fn spent(&self) -> Spent;
    spec fn given(&self) -> InputWitness;
    fn input_info(&self) -> (r: &InputInfo<'_>) ensures spent_of(*r) == self.spent();
    fn witness(&self) -> (r: &InputWitness) ensures *r == self.given();
}
pub trait SignatureInfoProvider: InputInfoProvider {
    spec fn decommission(&self, id: PoolId) -> core::result::Result<Option<Destination>, PosError>;
    spec fn delegator(&self, id: DelegationId) -> core::result::Result<Option<Destination>, PosError>;
    spec fn authority(&self, id: TokenId) -> core::result::Result<Option<Destination>, TokensError>;
    spec fn concluder(&self, id: OrderId) -> core::result::Result<Option<Destination>, OrdersError>;
    fn get_pool_decommission_destination(&self, pool_id: &PoolId) -> (r: core::result::Result<Option<Destination>, PosError>) ensures r == self.decommission(*pool_id);
    fn get_delegation_spend_destination(&self, delegation_id: &DelegationId) -> (r: core::result::Result<Option<Destination>, PosError>) ensures r == self.delegator(*delegation_id);
    fn get_tokens_authority(&self, token_id: &TokenId) -> (r: core::result::Result<Option<Destination>, TokensError>) ensures r == self.authority(*token_id);
    fn get_orders_conclude_destination(&self, order_id: &OrderId) -> (r: core::result::Result<Option<Destination>, OrdersError>) ensures r == self.concluder(*order_id);
}
pub open spec fn evaluated(w: InputWitness) -> EvaluatedInputWitness { match w { InputWitness::NoSignature(d) => EvaluatedInputWitness::NoSignature(d), InputWitness::Standard(s) => EvaluatedInputWitness::Standard(s) } }
pub open spec fn all_of(ls: Seq<Leaf>, f: spec_fn(Leaf) -> bool) -> bool decreases ls.len() { ls.len() == 0 || (all_of(ls.drop_last(), f) && f(ls.last())) }
pub open spec fn sig<C: InputInfoProvider>(ctx: C, d: Destination) -> Leaf { Leaf::Signature(d, evaluated(ctx.given())) }
/// somebody known has to sign
pub open spec fn by<C: InputInfoProvider, E>(ctx: C, d: core::result::Result<Option<Destination>, E>) -> Option<Seq<Leaf>> { match d { Ok(Some(d)) => Some(seq![sig(ctx, d)]), _ => None } }
pub open spec fn with_raw(s: StandardInputSignature, raw: Vec<u8>) -> EvaluatedInputWitness { EvaluatedInputWitness::Standard(StandardInputSignature { sighash_type: s.sighash_type, raw_signature: raw }) }
/// The demands of an account or a command (None: nothing will do)
pub open spec fn account_demands<C: SignatureInfoProvider>(ctx: C, s: Spent) -> Option<Seq<Leaf>> {
    match s {
        Spent::Account(o) => match o.account { AccountSpending::DelegationBalance(id, _) => by(ctx, ctx.delegator(id)) },
        Spent::Command(c) => match c {
            AccountCommand::MintTokens(id, _) => by(ctx, ctx.authority(id)),
            AccountCommand::UnmintTokens(id) => by(ctx, ctx.authority(id)),
            AccountCommand::LockTokenSupply(id) => by(ctx, ctx.authority(id)),
            AccountCommand::FreezeToken(id, _) => by(ctx, ctx.authority(id)),
            AccountCommand::UnfreezeToken(id) => by(ctx, ctx.authority(id)),
            AccountCommand::ChangeTokenMetadataUri(id, _) => by(ctx, ctx.authority(id)),
            AccountCommand::ChangeTokenAuthority(id, _) => by(ctx, ctx.authority(id)),
            AccountCommand::ConcludeOrder(id) => by(ctx, ctx.concluder(id)),
            AccountCommand::FillOrder(_, _, _) => Some(seq![]),
        },
        Spent::OrderCommand(c) => match c {
            OrderAccountCommand::FillOrder(_, _) => Some(seq![sig(ctx, Destination::AnyoneCanSpend)]),
            OrderAccountCommand::FreezeOrder(id) => by(ctx, ctx.concluder(id)),
            OrderAccountCommand::ConcludeOrder(id) => by(ctx, ctx.concluder(id)),
        },
        Spent::Output(_) => None,
    }
}
/// The demands of an input of a transaction
pub open spec fn tx_demands<C: SignatureInfoProvider>(ctx: C) -> Option<Seq<Leaf>> {
    match ctx.spent() {
        Spent::Output(o) => match o {
            TxOutput::Transfer(_, d) => Some(seq![sig(ctx, d)]),
            TxOutput::LockThenTransfer(_, d, l) => Some(seq![Leaf::Timelock(l), sig(ctx, d)]),
            TxOutput::CreateStakePool(_, data) => Some(seq![sig(ctx, data.decommission_key)]),
            TxOutput::ProduceBlockFromStake(_, id) => by(ctx, ctx.decommission(id)),
            TxOutput::IssueNft(_, _, d) => Some(seq![sig(ctx, d)]),
            TxOutput::Htlc(_, h) => match ctx.given() {
                InputWitness::NoSignature(_) => None,
                InputWitness::Standard(s) => match claim_of(s.raw_signature@) {
                    None => None,
                    // whoever knows the secret
                    Some(AuthorizedHashedTimelockContractSpend::Spend(secret, raw)) => Some(seq![Leaf::Hashlock(HashChallenge::Hash160(h.secret_hash.bytes()), secret.secret), Leaf::Signature(h.spend_key, with_raw(s, raw))]),
                    // or, when its time is over, the one who made it
                    Some(AuthorizedHashedTimelockContractSpend::Refund(raw)) => Some(seq![Leaf::Timelock(h.refund_timelock), Leaf::Signature(h.refund_key, with_raw(s, raw))]),
                },
            },
            _ => None,
        },
        s => account_demands(ctx, s),
    }
}
pub open spec fn only(ls: Option<Seq<Leaf>>, p: spec_fn(Leaf) -> bool) -> Option<Seq<Leaf>> { match ls { Some(ls) => Some(if ls.len() == 2 { if p(ls[0]) { if p(ls[1]) { ls } else { seq![ls[0]] } } else if p(ls[1]) { seq![ls[1]] } else { seq![] } } else if ls.len() == 1 && !p(ls[0]) { seq![] } else { ls }), None => None } }
/// its signatures only
pub open spec fn tx_signatures<C: SignatureInfoProvider>(ctx: C) -> Option<Seq<Leaf>> { only(tx_demands(ctx), |l: Leaf| l is Signature) }
/// The demands of an input of a block reward: only a stake, and its staker signs
pub open spec fn reward_demands<C: SignatureInfoProvider>(ctx: C) -> Option<Seq<Leaf>> {
    match ctx.spent() {
        Spent::Output(TxOutput::ProduceBlockFromStake(d, _)) => Some(seq![sig(ctx, d)]),
        Spent::Output(TxOutput::CreateStakePool(_, data)) => Some(seq![sig(ctx, data.staker)]),
        _ => None,
    }
}
/// The time locks of an input
pub open spec fn lock_demands<C: InputInfoProvider>(ctx: C) -> Option<Seq<Leaf>> {
    match ctx.spent() {
        Spent::Output(o) => match o {
            TxOutput::LockThenTransfer(_, _, l) => Some(seq![Leaf::Timelock(l)]),
            TxOutput::Htlc(_, h) => match ctx.given() {
                InputWitness::NoSignature(_) => None,
                InputWitness::Standard(s) => match claim_of(s.raw_signature@) {
                    None => None,
                    Some(AuthorizedHashedTimelockContractSpend::Spend(_, _)) => Some(seq![]),
                    Some(AuthorizedHashedTimelockContractSpend::Refund(_)) => Some(seq![Leaf::Timelock(h.refund_timelock)]),
                },
            },
            TxOutput::Transfer(_, _) => Some(seq![]),
            TxOutput::CreateStakePool(_, _) => Some(seq![]),
            TxOutput::ProduceBlockFromStake(_, _) => Some(seq![]),
            TxOutput::IssueNft(_, _, _) => Some(seq![]),
            _ => None,
        },
        _ => Some(seq![]),
    }
}
/// the locks that are looked at alone are those that the whole demands
proof fn same_locks<C: SignatureInfoProvider>(ctx: C) ensures tx_demands(ctx) is Some ==> lock_demands(ctx) == only(tx_demands(ctx), |l: Leaf| l is Timelock) { }
/// a script that asks for exactly this
pub open spec fn asks(r: core::result::Result<WitnessScript, TranslationError>, d: Option<Seq<Leaf>>) -> bool {
    match (r, d) { (Ok(ws), Some(ls)) => wf(ws) && forall|f: spec_fn(Leaf) -> bool| #[trigger] met(ws, f) == all_of(ls, f), (Err(_), None) => true, _ => false }
}
pub trait TranslateInput<C> {
    spec fn demands(ctx: C) -> Option<Seq<Leaf>>;
    fn translate_input(ctx: &C) -> (r: core::result::Result<WitnessScript, TranslationError>) ensures asks(r, Self::demands(*ctx));
}
//@ fn R to_signature_witness_script
//@|    ensures r == WitnessScript::Signature(*dest, evaluated(ctx.given()))
#[verifier::external_body]
pub struct SignedTransaction { d: u64 }
#[verifier::external_body]
pub struct BlockRewardTransactable<'a> { d: &'a u64 }
pub struct TimelockOnly;
pub struct SignatureOnlyTx;
//@ impl R impl<C: SignatureInfoProvider> TranslateInput<C> for SignedTransaction
    open spec fn demands(ctx: C) -> Option<Seq<Leaf>> { tx_demands(ctx) }
//@ fn translate_input
//@ . opt result
//@ . proof start
//@|    proof { reveal_with_fuel(each_met, 4); reveal_with_fuel(each_wf, 4); reveal_with_fuel(all_of, 4); }
//@ endimpl
//@ impl R impl<C: SignatureInfoProvider> TranslateInput<C> for BlockRewardTransactable<'_>
    open spec fn demands(ctx: C) -> Option<Seq<Leaf>> { reward_demands(ctx) }
//@ fn translate_input
//@ . opt result
//@ . proof start
//@|    proof { reveal_with_fuel(each_met, 4); reveal_with_fuel(each_wf, 4); reveal_with_fuel(all_of, 4); }
//@ endimpl
//@ impl R impl<C: InputInfoProvider> TranslateInput<C> for TimelockOnly
    open spec fn demands(ctx: C) -> Option<Seq<Leaf>> { lock_demands(ctx) }
//@ fn translate_input
//@ . opt result
//@ . proof start
//@|    proof { reveal_with_fuel(each_met, 4); reveal_with_fuel(each_wf, 4); reveal_with_fuel(all_of, 4); }
//@ endimpl
//@ impl R impl<C: SignatureInfoProvider> TranslateInput<C> for SignatureOnlyTx
    open spec fn demands(ctx: C) -> Option<Seq<Leaf>> { tx_signatures(ctx) }
//@ fn translate_input
//@ . opt result
//@ . proof start
//@|    proof { reveal_with_fuel(each_met, 4); reveal_with_fuel(each_wf, 4); reveal_with_fuel(all_of, 4); }
//@ endimpl
} // verus!
fn main() {}
