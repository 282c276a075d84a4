// What is signed: the bytes hashed for a signature are those of the parts that its mode commits to, and of what is known of each input.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
//@ source SH common/src/chain/transaction/signature/sighash/mod.rs
//@ source SB common/src/chain/transaction/signature/sighash/hashable.rs
//@ source ST common/src/chain/transaction/signature/sighash/sighashtype.rs
//@ source SI common/src/chain/transaction/signature/sighash/input_commitments/mod.rs
//@ source SP common/src/chain/transaction/signature/sighash/input_commitments/info_providers.rs
//@ source SV common/src/chain/upgrades/chainstate_upgrade/mod.rs
//@ path sighashtype::SigHashType => SigHashType
//@ path sighashtype::InputsMode => InputsMode
//@ path sighashtype::OutputsMode => OutputsMode
//@ source SA common/src/chain/transaction/signature/inputsig/authorize_pubkey_spend.rs
//@ source SK common/src/chain/transaction/signature/inputsig/authorize_pubkeyhash_spend.rs
//@ source SM common/src/chain/transaction/signature/inputsig/classical_multisig/multisig_partial_signature.rs
//@ source SC common/src/chain/transaction/signature/inputsig/classical_multisig/authorize_classical_multisig.rs
//@ source SQ common/src/chain/transaction/output/classic_multisig.rs
//@ source SN common/src/chain/transaction/signature/inputsig/standard_signature.rs
//@ source SX common/src/chain/transaction/mod.rs
//@ source SY common/src/chain/transaction/transaction_v1.rs
//@ source SZ common/src/chain/transaction/signed_transaction.rs
//@ source SW common/src/chain/block/block_reward.rs
//@ path signature::Signable => Signable
//@ path serialization::tagged::tag_of => vf_tag_of
//@ path crypto::key::SignatureError => SignatureError
//@ path serialization::Error => CodecError
//@ path crypto::key::PrivateKey => PrivateKey
//@ path super::multisig_partial_signature::SigsVerifyResult => SigsVerifyResult
//@ path std::cmp::Ordering => Ordering
//@ path super::classical_multisig::multisig_partial_signature::SigsVerifyResult => SigsVerifyResult
//@ path std::error::Error => VfError
//@ path std::convert::Infallible => Infallible
verus! {
#[derive(Clone, Copy)]
pub struct Amount { pub atoms: u128 }
#[verifier::external_body]
pub struct OutputTimeLock { d: u64 }
//@ struct SN StandardInputSignature
//@ include lists.vrs
//@ include txtypes.vrs
impl UtxoOutPoint { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl TxInput { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Infallible { }
pub struct VersionTag<const N: u32> { }
#[verifier::external_body]
pub struct ChainConfig { d: u64 }
#[verifier::external_body]
pub struct SignatureError { d: u64 }
#[verifier::external_body]
pub struct CodecError { d: u64 }
pub trait VfError { }
impl VfError for Infallible { }
//@ enum TG DestinationSigError
// ---------------------------------------------------------------- the mode
//@ struct ST SigHashType derive Clone,Copy
//@ enum ST InputsMode
//@ enum ST OutputsMode
pub open spec fn modes(b: u8) -> bool { b == 1 || b == 2 || b == 3 || b == 0x81 || b == 0x82 || b == 0x83 }
pub open spec fn one_pays(b: u8) -> bool { b >= 0x80 }
pub open spec fn low(b: u8) -> u8 { b & 0x7f }
proof fn bits(b: u8) ensures b & 0x80 == (if b >= 0x80u8 { 0x80u8 } else { 0u8 }), b & 0x7f == (if b >= 0x80u8 { (b - 0x80u8) as u8 } else { b })
{
    assert(b & 0x80 == (if b >= 0x80u8 { 0x80u8 } else { 0u8 })) by (bit_vector);
    assert(b & 0x7f == (if b >= 0x80u8 { sub(b, 0x80u8) } else { b })) by (bit_vector);
}
//@ inherent ST impl SigHashType
//@ implconst ALL ensures Self::ALL == 1
//@ implconst NONE ensures Self::NONE == 2
//@ implconst SINGLE ensures Self::SINGLE == 3
//@ implconst ANYONECANPAY ensures Self::ANYONECANPAY == 0x80
//@ implconst MASK_OUT ensures Self::MASK_OUT == 0x7f
//@ implconst MASK_IN ensures Self::MASK_IN == 0x80
//@ fn all
//@|    ensures r.0 == 1
//@ fn inputs_mode
//@|    ensures r is AnyoneCanPay == one_pays(self.0)
//@ . proof start
//@|    proof { bits(self.0); }
//@ fn outputs_mode
//@|    ensures r is None == (low(self.0) == 2), r is Single == (low(self.0) == 3)
//@ fn get
//@|    ensures r == self.0
//@ endimpl
pub trait VfThen { spec fn is(&self) -> bool; fn vf_then_some<T>(self, x: T) -> (r: Option<T>) where Self: Sized ensures r == (if self.is() { Some(x) } else { None::<T> }); }
impl VfThen for bool { open spec fn is(&self) -> bool { *self } fn vf_then_some<T>(self, x: T) -> (r: Option<T>) { if self { Some(x) } else { None } } }
pub trait TryFrom<T>: Sized { type Error; spec fn can(x: T) -> bool; fn try_from(x: T) -> (r: Result<Self, Self::Error>) ensures r is Ok == Self::can(x), r matches Ok(y) ==> y.from_spec_of(x); spec fn from_spec_of(&self, x: T) -> bool; }
//@ impl ST impl TryFrom<u8> for SigHashType
open spec fn can(x: u8) -> bool { modes(x) }
open spec fn from_spec_of(&self, x: u8) -> bool { self.0 == x }
//@ fn try_from
//@ . method then_some => vf_then_some
//@ . proof start
//@|    proof { bits(sighash_byte); }
//@ endimpl
// ---------------------------------------------------------------- what is written, and hashed
/// how a thing is written (C07)
pub trait Encode { spec fn enc(&self) -> Seq<u8>; }
impl Encode for u8 { open spec fn enc(&self) -> Seq<u8> { seq![*self] } }
impl Encode for u32 { uninterp spec fn enc(&self) -> Seq<u8>; }
impl Encode for u128 { uninterp spec fn enc(&self) -> Seq<u8>; }
impl Encode for TxInput { uninterp spec fn enc(&self) -> Seq<u8>; }
impl Encode for TxOutput { uninterp spec fn enc(&self) -> Seq<u8>; }
impl<T: Encode + ?Sized> Encode for &T { open spec fn enc(&self) -> Seq<u8> { (**self).enc() } }
/// how many there are
pub uninterp spec fn enc_len(n: nat) -> Seq<u8>;
impl<T: Encode> Encode for [T] { open spec fn enc(&self) -> Seq<u8> { enc_len(self@.len()) + cat(self@) } }
pub open spec fn cat<T: Encode>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last().enc() } }
#[verifier::external_body]
pub struct Digest { d: u64 }
impl Digest { pub uninterp spec fn of(b: Seq<u8>) -> Digest; }
#[verifier::external_body]
pub struct H256 { d: u64 }
impl H256 { pub uninterp spec fn of(d: Digest) -> H256; }
impl vstd::std_specs::convert::FromSpecImpl<Digest> for H256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(d: Digest) -> H256 { H256::of(d) } }
impl core::convert::From<Digest> for H256 { #[verifier::external_body] fn from(d: Digest) -> (r: H256) { unimplemented!() } }
#[verifier::external_body]
pub struct DefaultHashAlgoStream { d: u64 }
impl DefaultHashAlgoStream {
    /// what it was fed
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(&self) -> (r: Digest) ensures r == Digest::of(self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn hash_encoded_to<T: Encode>(value: &T, hasher: &mut DefaultHashAlgoStream) ensures final(hasher)@ == old(hasher)@ + value.enc() { unimplemented!() }
// ---------------------------------------------------------------- what is known of an input
/// std's Cow
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T> Cow<'a, T> {
    pub open spec fn view(&self) -> T { match self { Cow::Borrowed(x) => **x, Cow::Owned(x) => *x } }
    pub fn as_ref(&self) -> (r: &T) ensures *r == self@ { match self { Cow::Borrowed(x) => *x, Cow::Owned(x) => x } }
}
//@ enum SI SighashInputCommitment
/// what a commitment says
pub enum Said { Nothing, Output(TxOutput), Stake(TxOutput, Amount), Fill(OutputValue, OutputValue), Conclude(OutputValue, OutputValue, Amount, Amount) }
impl<'a> SighashInputCommitment<'a> {
    pub open spec fn view(&self) -> Said {
        match *self {
            SighashInputCommitment::None => Said::Nothing,
            SighashInputCommitment::Utxo(u) => Said::Output(u@),
            SighashInputCommitment::ProduceBlockFromStakeUtxo { utxo, staker_balance } => Said::Stake(utxo@, staker_balance),
            SighashInputCommitment::FillOrderAccountCommand { initially_asked, initially_given } => Said::Fill(initially_asked, initially_given),
            SighashInputCommitment::ConcludeOrderAccountCommand { initially_asked, initially_given, ask_balance, give_balance } => Said::Conclude(initially_asked, initially_given, ask_balance, give_balance),
        }
    }
}
impl Encode for Said { uninterp spec fn enc(&self) -> Seq<u8>; }
impl<'a> Encode for SighashInputCommitment<'a> { open spec fn enc(&self) -> Seq<u8> { self@.enc() } }
pub open spec fn said(s: Seq<SighashInputCommitment>) -> Seq<Said> { s.map_values(|c: SighashInputCommitment| c@) }
proof fn cat_said(s: Seq<SighashInputCommitment>) ensures cat(s) == cat(said(s)) decreases s.len()
{
    if s.len() > 0 { cat_said(s.drop_last()); assert(said(s.drop_last()) =~= said(s).drop_last()); }
}
// ---------------------------------------------------------------- the bytes
pub trait Signable {
    spec fn ins(&self) -> Option<Seq<TxInput>>;
    spec fn outs(&self) -> Option<Seq<TxOutput>>;
    spec fn version(&self) -> Option<u8>;
    spec fn flag_bits(&self) -> Option<u128>;
    fn inputs(&self) -> (r: Option<&[TxInput]>) ensures match r { Some(x) => self.ins() == Some(x@), None => self.ins() is None };
    fn outputs(&self) -> (r: Option<&[TxOutput]>) ensures match r { Some(x) => self.outs() == Some(x@), None => self.outs() is None };
    fn version_byte(&self) -> (r: Option<u8>) ensures r == self.version();
    fn flags(&self) -> (r: Option<u128>) ensures r == self.flag_bits();
}
pub open spec fn opt_bytes<T: Encode>(x: Option<T>) -> Seq<u8> { match x { Some(v) => v.enc(), None => Seq::empty() } }
/// of the inputs: either all of them and what is known of each, or the one that is signed for and what is known of it
pub open spec fn in_bytes(mode: u8, ins: Seq<TxInput>, known: Seq<Said>, i: int) -> Seq<u8> {
    if one_pays(mode) { ins[i].enc() + known[i].enc() } else { ((ins.len() as usize) as u32).enc() + cat(ins) + ((ins.len() as usize) as u32).enc() + cat(known) }
}
/// of the outputs: all of them, none, or the one of the same number
pub open spec fn out_bytes(mode: u8, outs: Seq<TxOutput>, i: int) -> Seq<u8> {
    if low(mode) == 2 { Seq::empty() } else if low(mode) == 3 { outs[i].enc() } else { enc_len(outs.len()) + cat(outs) }
}
pub open spec fn signed_bytes(mode: u8, version: Option<u8>, flags: Option<u128>, ins: Seq<TxInput>, known: Seq<Said>, outs: Seq<TxOutput>, i: int) -> Seq<u8> {
    seq![mode] + opt_bytes(version) + opt_bytes(flags) + in_bytes(mode, ins, known, i) + out_bytes(mode, outs, i)
}
pub open spec fn outs_of<T: Signable>(t: &T) -> Seq<TxOutput> { match t.outs() { Some(o) => o, None => Seq::empty() } }
pub open spec fn can_sign<T: Signable>(mode: u8, t: &T, known: int, i: int) -> bool {
    t.ins() is Some && i < t.ins()->0.len() && known == t.ins()->0.len() && (low(mode) == 3 ==> i < outs_of(t).len())
}
pub open spec fn bytes_of<T: Signable>(mode: u8, t: &T, known: Seq<Said>, i: int) -> Seq<u8> { signed_bytes(mode, t.version(), t.flag_bits(), t.ins()->0, known, outs_of(t), i) }
pub trait SignatureHashableElement {
    spec fn fits(&self, mode: u8, target_input: &TxInput, i: int) -> bool;
    spec fn sane(&self, target_input: &TxInput, i: int) -> bool;
    spec fn bytes(&self, mode: u8, i: int) -> Seq<u8>;
    fn signature_hash(&self, stream: &mut DefaultHashAlgoStream, mode: SigHashType, target_input: &TxInput, target_input_index: usize) -> (r: Result<(), DestinationSigError>)
        requires self.sane(target_input, target_input_index as int)
        ensures r is Ok == self.fits(mode.0, target_input, target_input_index as int), r is Ok ==> final(stream)@ == old(stream)@ + self.bytes(mode.0, target_input_index as int);
}
//@ impl SB impl SignatureHashableElement for &[TxOutput]
open spec fn fits(&self, mode: u8, target_input: &TxInput, i: int) -> bool { low(mode) == 3 ==> i < self@.len() }
open spec fn sane(&self, target_input: &TxInput, i: int) -> bool { true }
open spec fn bytes(&self, mode: u8, i: int) -> Seq<u8> { out_bytes(mode, self@, i) }
//@ fn signature_hash
//@ endimpl
//@ struct SB SignatureHashableInputs
//@ inherent SB impl<'a> SignatureHashableInputs<'a>
//@ fn new
//@|    ensures r is Ok == (inputs@.len() == input_commitments@.len()), r matches Ok(x) ==> x.inputs@ == inputs@ && x.input_commitments@ == input_commitments@
//@ endimpl
//@ impl SB impl SignatureHashableElement for SignatureHashableInputs<'_>
open spec fn fits(&self, mode: u8, target_input: &TxInput, i: int) -> bool { i < self.inputs@.len() }
open spec fn sane(&self, target_input: &TxInput, i: int) -> bool { self.inputs@.len() == self.input_commitments@.len() && (i < self.inputs@.len() ==> *target_input == self.inputs@[i]) }
open spec fn bytes(&self, mode: u8, i: int) -> Seq<u8> { in_bytes(mode, self.inputs@, said(self.input_commitments@), i) }
//@ fn signature_hash
//@ . opt fornext
//@ . proof start
//@|    let ghost s0 = stream@;
//@|    assert(self.sane(target_input, target_input_index as int));
//@ . proof loop 0 before
//@|    let ghost w0 = stream@;
//@ . loop 0
//@|    invariant vf_it0.rest().len() <= self.inputs@.len(), vf_it0.rest() == self.inputs@.skip(self.inputs@.len() - vf_it0.rest().len()),
//@|        stream@ == w0 + cat(self.inputs@.take(self.inputs@.len() - vf_it0.rest().len()))
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ . proof loop 0 start
//@|    proof { let n = self.inputs@.len() - vf_it0.rest().len(); if vf_it0.rest().len() > 0 { cat_take(self.inputs@, n); } }
//@ . proof loop 0 after
//@|    proof { assert(self.inputs@.take(self.inputs@.len() as int) =~= self.inputs@); assert(w0 == s0 + ((self.inputs@.len() as usize) as u32).enc()); assert(stream@ == w0 + cat(self.inputs@)); }
//@ . proof loop 1 before
//@|    let ghost w1 = stream@;
//@ . loop 1
//@|    invariant vf_it1.rest().len() <= self.input_commitments@.len(), vf_it1.rest() == self.input_commitments@.skip(self.input_commitments@.len() - vf_it1.rest().len()),
//@|        stream@ == w1 + cat(self.input_commitments@.take(self.input_commitments@.len() - vf_it1.rest().len()))
//@|    ensures vf_it1.rest().len() == 0
//@|    decreases vf_it1.rest().len()
//@ . proof loop 1 start
//@|    proof { let n = self.input_commitments@.len() - vf_it1.rest().len(); if vf_it1.rest().len() > 0 { cat_take(self.input_commitments@, n); } }
//@ . proof loop 1 after
//@|    proof { assert(self.input_commitments@.take(self.input_commitments@.len() as int) =~= self.input_commitments@); cat_said(self.input_commitments@);
//@|        assert(self.input_commitments@.len() == self.inputs@.len() && said(self.input_commitments@).len() == self.inputs@.len());
//@|        let n = ((self.inputs@.len() as usize) as u32).enc();
//@|        assert(w1 == s0 + n + cat(self.inputs@) + n); assert(stream@ == w1 + cat(said(self.input_commitments@)));
//@|        assert(stream@ =~= s0 + (n + cat(self.inputs@) + n + cat(said(self.input_commitments@)))); }
//@ . proof end
//@|    proof { assert(stream@ =~= s0 + self.bytes(mode.0, target_input_index as int)); }
//@ endimpl
proof fn cat_take<T: Encode>(s: Seq<T>, n: int) requires 0 <= n < s.len() ensures cat(s.take(n + 1)) == cat(s.take(n)) + s[n].enc()
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }
// ---------------------------------------------------------------- the hash
//@ fn SH hash_encoded_if_some
//@|    ensures final(stream)@ == old(stream)@ + opt_bytes(*val)
//@ . proof end
//@|    proof { assert(stream@ =~= old(stream)@ + opt_bytes(*val)); }
pub trait VfOr<'a> { spec fn or_none(&self) -> Seq<TxOutput>; fn vf_or_none(self) -> (r: &'a [TxOutput]) where Self: Sized ensures r@ == self.or_none(); }
impl<'a> VfOr<'a> for Option<&'a [TxOutput]> { open spec fn or_none(&self) -> Seq<TxOutput> { match self { Some(x) => x@, None => Seq::empty() } } fn vf_or_none(self) -> (r: &'a [TxOutput]) { match self { Some(x) => x, None => { let r: &'a [TxOutput] = &[]; assert(r@ =~= Seq::empty()); r } } } }
//@ fn SH stream_signature_hash
//@|    ensures r is Ok == can_sign(mode.0, tx, input_commitments@.len() as int, target_input_index as int),
//@|        r is Ok ==> final(stream)@ == old(stream)@ + bytes_of(mode.0, tx, said(input_commitments@), target_input_index as int)
//@ . method unwrap_or_default => vf_or_none
//@ . proof end
//@|    proof { assert(stream@ =~= old(stream)@ + bytes_of(mode.0, tx, said(input_commitments@), target_input_index as int)); }
//@ fn SH signature_hash
//@|    ensures r is Ok == can_sign(mode.0, tx, input_commitments@.len() as int, input_index as int),
//@|        r matches Ok(h) ==> h == H256::of(Digest::of(bytes_of(mode.0, tx, said(input_commitments@), input_index as int)))
//@ . proof after let stream
//@|    proof { assert(Seq::<u8>::empty() + bytes_of(mode.0, tx, said(input_commitments@), input_index as int) =~= bytes_of(mode.0, tx, said(input_commitments@), input_index as int)); }
// ---------------------------------------------------------------- that two things signed with the same bytes are the same
/// what is written can be read back, whatever follows it (C07)
pub open spec fn reads<T: Encode>() -> bool { forall|x: T, y: T, a: Seq<u8>, b: Seq<u8>| #[trigger] (x.enc() + a) == #[trigger] (y.enc() + b) ==> x == y && a == b }
pub open spec fn reads_len() -> bool { forall|m: nat, n: nat, a: Seq<u8>, b: Seq<u8>| #[trigger] (enc_len(m) + a) == #[trigger] (enc_len(n) + b) ==> m == n && a == b }
proof fn cat_front<T: Encode>(s: Seq<T>) requires s.len() > 0 ensures cat(s) == s[0].enc() + cat(s.drop_first()) decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::<T>::empty()); assert(s.drop_first() =~= Seq::<T>::empty()); assert(cat(s) =~= s[0].enc() + cat(s.drop_first())); }
    else {
        cat_front(s.drop_last());
        assert(s.drop_last().drop_first() =~= s.drop_first().drop_last());
        assert(cat(s.drop_first()) == cat(s.drop_first().drop_last()) + s.last().enc());
        assert(cat(s) =~= s[0].enc() + cat(s.drop_first()));
    }
}
proof fn cat_reads<T: Encode>(s: Seq<T>, t: Seq<T>, a: Seq<u8>, b: Seq<u8>) requires reads::<T>(), s.len() == t.len(), cat(s) + a == cat(t) + b ensures s == t, a == b decreases s.len()
{
    if s.len() == 0 { assert(s =~= t); assert(a =~= cat(s) + a); assert(b =~= cat(t) + b); }
    else {
        cat_front(s); cat_front(t);
        let (s1, t1) = (s.drop_first(), t.drop_first());
        assert(cat(s) + a =~= s[0].enc() + (cat(s1) + a));
        assert(cat(t) + b =~= t[0].enc() + (cat(t1) + b));
        assert(s[0] == t[0] && cat(s1) + a == cat(t1) + b);
        cat_reads(s1, t1, a, b);
        assert(s =~= seq![s[0]] + s1); assert(t =~= seq![t[0]] + t1);
    }
}
/// a transaction of given shape (its version and flags are there)
pub struct Tx { pub version: u8, pub flags: u128, pub ins: Seq<TxInput>, pub outs: Seq<TxOutput> }
pub open spec fn bytes_signed(mode: u8, t: Tx, known: Seq<Said>, i: int) -> Seq<u8> { signed_bytes(mode, Some(t.version), Some(t.flags), t.ins, known, t.outs, i) }
proof fn all_is_signed(m: u8, t: Tx, known: Seq<Said>, i: int, n: u8, u: Tx, known2: Seq<Said>, j: int)
    requires modes(m), modes(n), bytes_signed(m, t, known, i) == bytes_signed(n, u, known2, j), known.len() == t.ins.len(), known2.len() == u.ins.len(), t.ins.len() <= u32::MAX, u.ins.len() <= u32::MAX,
        0 <= i < t.ins.len(), 0 <= j < u.ins.len(), low(m) == 3 ==> i < t.outs.len() && j < u.outs.len(),
        reads::<u8>(), reads::<u32>(), reads::<u128>(), reads::<TxInput>(), reads::<TxOutput>(), reads::<Said>(), reads_len()
    ensures m == n, t.version == u.version, t.flags == u.flags,
        if one_pays(m) { t.ins[i] == u.ins[j] && known[i] == known2[j] } else { t.ins == u.ins && known == known2 },
        low(m) == 3 ==> t.outs[i] == u.outs[j], low(m) != 2 && low(m) != 3 ==> t.outs == u.outs
{
    let (ai, bi, ao, bo) = (in_bytes(m, t.ins, known, i), in_bytes(n, u.ins, known2, j), out_bytes(m, t.outs, i), out_bytes(n, u.outs, j));
    assert(bytes_signed(m, t, known, i) =~= m.enc() + (t.version.enc() + (t.flags.enc() + (ai + ao))));
    assert(bytes_signed(n, u, known2, j) =~= n.enc() + (u.version.enc() + (u.flags.enc() + (bi + bo))));
    assert(m == n && t.version.enc() + (t.flags.enc() + (ai + ao)) == u.version.enc() + (u.flags.enc() + (bi + bo)));
    assert(t.version == u.version && t.flags.enc() + (ai + ao) == u.flags.enc() + (bi + bo));
    assert(t.flags == u.flags && ai + ao == bi + bo);
    if one_pays(m) {
        assert(ai + ao =~= t.ins[i].enc() + (known[i].enc() + ao));
        assert(bi + bo =~= u.ins[j].enc() + (known2[j].enc() + bo));
        assert(t.ins[i] == u.ins[j] && known[i].enc() + ao == known2[j].enc() + bo);
        assert(known[i] == known2[j] && ao == bo);
    } else {
        let (x, y) = ((t.ins.len() as usize) as u32, (u.ins.len() as usize) as u32);
        assert(ai + ao =~= x.enc() + (cat(t.ins) + (x.enc() + (cat(known) + ao))));
        assert(bi + bo =~= y.enc() + (cat(u.ins) + (y.enc() + (cat(known2) + bo))));
        assert(x == y && cat(t.ins) + (x.enc() + (cat(known) + ao)) == cat(u.ins) + (y.enc() + (cat(known2) + bo)));
        cat_reads(t.ins, u.ins, x.enc() + (cat(known) + ao), y.enc() + (cat(known2) + bo));
        assert(cat(known) + ao == cat(known2) + bo);
        cat_reads(known, known2, ao, bo);
    }
    if low(m) == 2 { } else if low(m) == 3 {
        assert(ao =~= t.outs[i].enc() + Seq::<u8>::empty()); assert(bo =~= u.outs[j].enc() + Seq::<u8>::empty());
    } else {
        assert(cat(t.outs) =~= cat(t.outs) + Seq::<u8>::empty()); assert(cat(u.outs) =~= cat(u.outs) + Seq::<u8>::empty());
        cat_reads(t.outs, u.outs, Seq::empty(), Seq::empty());
    }
}
// ---------------------------------------------------------------- what is known of each input
//@ struct SP PoolInfo
//@ struct SP OrderInfo
/// of an input, by what the three getters say of the output that it spends, the pool and the order
pub open spec fn same<'a, E>(r: Result<SighashInputCommitment<'a>, E>, x: Said) -> bool { r matches Ok(c) && c@ == x }
pub open spec fn by_order<'a, OG: Fn(&OrderId, usize) -> Result<OrderInfo, E>, E>(og: OG, id: OrderId, i: usize, conclude: bool, r: Result<SighashInputCommitment<'a>, E>) -> bool {
    exists|o: Result<OrderInfo, E>| #[trigger] call_ensures(og, (&id, i), o) && match o {
        Ok(o) => same(r, if conclude { Said::Conclude(o.initially_asked, o.initially_given, o.ask_balance, o.give_balance) } else { Said::Fill(o.initially_asked, o.initially_given) }),
        Err(_) => r is Err }
}
pub open spec fn one_said<'a, UG: Fn(&UtxoOutPoint, usize) -> Result<Cow<'a, TxOutput>, E>, PG: Fn(&PoolId, usize) -> Result<PoolInfo, E>, OG: Fn(&OrderId, usize) -> Result<OrderInfo, E>, E>(input: TxInput, i: usize, ug: UG, pg: PG, og: OG, r: Result<SighashInputCommitment<'a>, E>) -> bool {
    match input {
        TxInput::Utxo(op) => exists|u: Result<Cow<'a, TxOutput>, E>| #[trigger] call_ensures(ug, (&op, i), u) && match u {
            Err(_) => r is Err,
            Ok(c) => match c@ {
                TxOutput::ProduceBlockFromStake(_, id) => exists|p: Result<PoolInfo, E>| #[trigger] call_ensures(pg, (&id, i), p) && match p { Ok(p) => same(r, Said::Stake(c@, p.staker_balance)), Err(_) => r is Err },
                _ => same(r, Said::Output(c@)) } },
        TxInput::Account(_) => same(r, Said::Nothing),
        TxInput::AccountCommand(_, AccountCommand::ConcludeOrder(id)) => by_order(og, id, i, true, r),
        TxInput::AccountCommand(_, AccountCommand::FillOrder(id, _, _)) => by_order(og, id, i, false, r),
        TxInput::AccountCommand(_, _) => same(r, Said::Nothing),
        TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(id)) => by_order(og, id, i, true, r),
        TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(id, _)) => by_order(og, id, i, false, r),
        TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(_)) => same(r, Said::Nothing),
    }
}
//@ fn SI make_sighash_input_commitment_v1_for_one_transaction_input
//@|    requires forall|op: &UtxoOutPoint, i: usize| #[trigger] call_requires(*utxo_getter, (op, i)), forall|id: &PoolId, i: usize| #[trigger] call_requires(*pool_info_getter, (id, i)), forall|id: &OrderId, i: usize| #[trigger] call_requires(*order_info_getter, (id, i))
//@|    ensures one_said(*input, input_idx, *utxo_getter, *pool_info_getter, *order_info_getter, r)
impl<'a, T> SliceIter<'a, T> {
    #[verifier::external_body]
    pub fn vf_enumerate(self) -> (r: ListIter<(usize, &'a T)>) ensures r.rest().len() == self.rest().len(), forall|i: int| 0 <= i < self.rest().len() ==> #[trigger] r.rest()[i] == (i as usize, &self.rest()[i]), self.rest().len() <= usize::MAX { unimplemented!() }
}
//@ enum SV SighashInputCommitmentVersion derive Clone,Copy
//@ enum SI SighashInputCommitmentCreationError
/// what the world says: of an output, a pool and an order; an error where it cannot be asked
pub trait UtxoProvider<'a> {
    type Error: VfError;
    spec fn said(&self, i: usize, op: UtxoOutPoint) -> Result<Option<TxOutput>, ()>;
    fn get_utxo(&self, tx_input_index: usize, outpoint: &UtxoOutPoint) -> (r: Result<Option<Cow<'a, TxOutput>>, Self::Error>)
        ensures match r { Ok(Some(c)) => self.said(tx_input_index, *outpoint) == Ok::<Option<TxOutput>, ()>(Some(c@)), Ok(None) => self.said(tx_input_index, *outpoint) == Ok::<Option<TxOutput>, ()>(None), Err(_) => self.said(tx_input_index, *outpoint) is Err };
}
pub trait PoolInfoProvider {
    type Error: VfError;
    spec fn said(&self, id: PoolId) -> Result<Option<PoolInfo>, ()>;
    fn get_pool_info(&self, pool_id: &PoolId) -> (r: Result<Option<PoolInfo>, Self::Error>)
        ensures match r { Ok(x) => self.said(*pool_id) == Ok::<Option<PoolInfo>, ()>(x), Err(_) => self.said(*pool_id) is Err };
}
pub trait OrderInfoProvider {
    type Error: VfError;
    spec fn said(&self, id: OrderId) -> Result<Option<OrderInfo>, ()>;
    fn get_order_info(&self, order_id: &OrderId) -> (r: Result<Option<OrderInfo>, Self::Error>)
        ensures match r { Ok(x) => self.said(*order_id) == Ok::<Option<OrderInfo>, ()>(x), Err(_) => self.said(*order_id) is Err };
}
/// of an input, from what the world says; nothing where something is missing
pub open spec fn of_order<OP: OrderInfoProvider>(op: &OP, id: OrderId, conclude: bool) -> Option<Said> {
    match op.said(id) { Ok(Some(o)) => Some(if conclude { Said::Conclude(o.initially_asked, o.initially_given, o.ask_balance, o.give_balance) } else { Said::Fill(o.initially_asked, o.initially_given) }), _ => None }
}
pub open spec fn now_said<'a, UP: UtxoProvider<'a>, PP: PoolInfoProvider, OP: OrderInfoProvider>(up: &UP, pp: &PP, op: &OP, input: TxInput, i: usize) -> Option<Said> {
    match input {
        TxInput::Utxo(o) => match up.said(i, o) {
            Ok(Some(c)) => match c { TxOutput::ProduceBlockFromStake(_, id) => match pp.said(id) { Ok(Some(p)) => Some(Said::Stake(c, p.staker_balance)), _ => None }, _ => Some(Said::Output(c)) },
            _ => None },
        TxInput::Account(_) => Some(Said::Nothing),
        TxInput::AccountCommand(_, AccountCommand::ConcludeOrder(id)) => of_order(op, id, true),
        TxInput::AccountCommand(_, AccountCommand::FillOrder(id, _, _)) => of_order(op, id, false),
        TxInput::AccountCommand(_, _) => Some(Said::Nothing),
        TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(id)) => of_order(op, id, true),
        TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(id, _)) => of_order(op, id, false),
        TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(_)) => Some(Said::Nothing),
    }
}
/// before the upgrade only the output that is spent is said
pub open spec fn then_said<'a, UP: UtxoProvider<'a>, PP: PoolInfoProvider, OP: OrderInfoProvider>(v: SighashInputCommitmentVersion, up: &UP, pp: &PP, op: &OP, input: TxInput, i: usize) -> Option<Said> {
    match (v, now_said(up, pp, op, input, i)) {
        (SighashInputCommitmentVersion::V0, Some(_)) => match input { TxInput::Utxo(o) => match up.said(i, o) { Ok(Some(c)) => Some(Said::Output(c)), _ => None }, _ => Some(Said::Nothing) },
        (_, x) => x,
    }
}
pub open spec fn so_far<'a, UP: UtxoProvider<'a>, PP: PoolInfoProvider, OP: OrderInfoProvider>(c: Seq<SighashInputCommitment<'a>>, ins: Seq<TxInput>, v: SighashInputCommitmentVersion, up: &UP, pp: &PP, op: &OP) -> bool { forall|i: int| 0 <= i < c.len() ==> then_said(v, up, pp, op, ins[i], i as usize) == Some((#[trigger] c[i])@) }
pub open spec fn vf_len<'a>(c: Seq<SighashInputCommitment<'a>>) -> nat { c.len() }
//@ fn SI make_sighash_input_commitments_for_transaction_inputs
//@|    ensures match r {
//@|        Ok(c) => c@.len() == tx_inputs@.len() && so_far(c@, tx_inputs@, version, utxo_provider, pool_info_provider, order_info_provider),
//@|        Err(_) => exists|i: int| 0 <= i < tx_inputs@.len() && then_said(version, utxo_provider, pool_info_provider, order_info_provider, #[trigger] tx_inputs@[i], i as usize) is None,
//@|    }
//@ . opt fornext
//@ . method iter => vf_iter
//@ . method enumerate => vf_enumerate
//@ . sign get_utxo |outpoint: &UtxoOutPoint, input_idx: usize| -> (r: Result<Cow<'a, TxOutput>, SighashInputCommitmentCreationError<<UP as UtxoProvider<'a>>::Error, <PP as PoolInfoProvider>::Error, <OP as OrderInfoProvider>::Error>>) ensures match r { Ok(c) => utxo_provider.said(input_idx, *outpoint) == Ok::<Option<TxOutput>, ()>(Some(c@)), Err(_) => !(utxo_provider.said(input_idx, *outpoint) matches Ok(Some(_))) }
//@ . sign get_pool_info |pool_id: &PoolId, input_idx: usize| -> (r: Result<PoolInfo, SighashInputCommitmentCreationError<<UP as UtxoProvider<'a>>::Error, <PP as PoolInfoProvider>::Error, <OP as OrderInfoProvider>::Error>>) ensures match r { Ok(c) => pool_info_provider.said(*pool_id) == Ok::<Option<PoolInfo>, ()>(Some(c)), Err(_) => !(pool_info_provider.said(*pool_id) matches Ok(Some(_))) }
//@ . sign get_order_info |order_id: &OrderId, input_idx: usize| -> (r: Result<OrderInfo, SighashInputCommitmentCreationError<<UP as UtxoProvider<'a>>::Error, <PP as PoolInfoProvider>::Error, <OP as OrderInfoProvider>::Error>>) ensures match r { Ok(c) => order_info_provider.said(*order_id) == Ok::<Option<OrderInfo>, ()>(Some(c)), Err(_) => !(order_info_provider.said(*order_id) matches Ok(Some(_))) }
//@ . proof start
//@|    let ghost n = tx_inputs@.len();
//@ . loop 0
//@|    invariant_except_break vf_it0.rest().len() <= n, forall|j: int| 0 <= j < vf_it0.rest().len() ==> #[trigger] vf_it0.rest()[j] == ((n - vf_it0.rest().len() + j) as usize, &tx_inputs@[n - vf_it0.rest().len() + j])
//@|    invariant n == tx_inputs@.len(), n <= usize::MAX, vf_len(vf_m@) == n - vf_it0.rest().len(), version == SighashInputCommitmentVersion::V0,
//@|        forall|op: &UtxoOutPoint, i: usize| #[trigger] call_requires(get_utxo, (op, i)), forall|id: &PoolId, i: usize| #[trigger] call_requires(get_pool_info, (id, i)), forall|id: &OrderId, i: usize| #[trigger] call_requires(get_order_info, (id, i)),
//@|        forall|op: &UtxoOutPoint, i: usize, r| #[trigger] call_ensures(get_utxo, (op, i), r) ==> match r { Ok(c) => utxo_provider.said(i, *op) == Ok::<Option<TxOutput>, ()>(Some(c@)), Err(_) => !(utxo_provider.said(i, *op) matches Ok(Some(_))) },
//@|        forall|id: &PoolId, i: usize, r| #[trigger] call_ensures(get_pool_info, (id, i), r) ==> match r { Ok(c) => pool_info_provider.said(*id) == Ok::<Option<PoolInfo>, ()>(Some(c)), Err(_) => !(pool_info_provider.said(*id) matches Ok(Some(_))) },
//@|        forall|id: &OrderId, i: usize, r| #[trigger] call_ensures(get_order_info, (id, i), r) ==> match r { Ok(c) => order_info_provider.said(*id) == Ok::<Option<OrderInfo>, ()>(Some(c)), Err(_) => !(order_info_provider.said(*id) matches Ok(Some(_))) },
//@|        so_far(vf_m@, tx_inputs@, version, utxo_provider, pool_info_provider, order_info_provider)
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ . loop 1
//@|    invariant_except_break vf_it1.rest().len() <= n, forall|j: int| 0 <= j < vf_it1.rest().len() ==> #[trigger] vf_it1.rest()[j] == ((n - vf_it1.rest().len() + j) as usize, &tx_inputs@[n - vf_it1.rest().len() + j])
//@|    invariant n == tx_inputs@.len(), n <= usize::MAX, vf_len(vf_m@) == n - vf_it1.rest().len(), version == SighashInputCommitmentVersion::V1,
//@|        forall|op: &UtxoOutPoint, i: usize| #[trigger] call_requires(get_utxo, (op, i)), forall|id: &PoolId, i: usize| #[trigger] call_requires(get_pool_info, (id, i)), forall|id: &OrderId, i: usize| #[trigger] call_requires(get_order_info, (id, i)),
//@|        forall|op: &UtxoOutPoint, i: usize, r| #[trigger] call_ensures(get_utxo, (op, i), r) ==> match r { Ok(c) => utxo_provider.said(i, *op) == Ok::<Option<TxOutput>, ()>(Some(c@)), Err(_) => !(utxo_provider.said(i, *op) matches Ok(Some(_))) },
//@|        forall|id: &PoolId, i: usize, r| #[trigger] call_ensures(get_pool_info, (id, i), r) ==> match r { Ok(c) => pool_info_provider.said(*id) == Ok::<Option<PoolInfo>, ()>(Some(c)), Err(_) => !(pool_info_provider.said(*id) matches Ok(Some(_))) },
//@|        forall|id: &OrderId, i: usize, r| #[trigger] call_ensures(get_order_info, (id, i), r) ==> match r { Ok(c) => order_info_provider.said(*id) == Ok::<Option<OrderInfo>, ()>(Some(c)), Err(_) => !(order_info_provider.said(*id) matches Ok(Some(_))) },
//@|        so_far(vf_m@, tx_inputs@, version, utxo_provider, pool_info_provider, order_info_provider)
//@|    ensures vf_it1.rest().len() == 0
//@|    decreases vf_it1.rest().len()
// (the upgrades in force: C29)
pub trait VfVec<T>: Sized { fn vf_vec(self) -> Vec<T>; }
impl<T> VfVec<T> for Vec<T> { fn vf_vec(self) -> (r: Vec<T>) ensures r == self { self } }
#[derive(Clone, Copy)]
pub struct BlockHeight(pub u64);
pub struct ChainstateUpgrade { pub sighash_input_commitment_version: SighashInputCommitmentVersion }
//@ inherent SV impl ChainstateUpgrade
//@ fn sighash_input_commitment_version
//@|    ensures r == self.sighash_input_commitment_version
//@ endimpl
#[verifier::external_body]
pub struct Upgrades { d: u64 }
impl Upgrades { pub uninterp spec fn at(&self, h: BlockHeight) -> ChainstateUpgrade; #[verifier::external_body] pub fn version_at_height(&self, h: BlockHeight) -> (r: (BlockHeight, &ChainstateUpgrade)) ensures *r.1 == self.at(h) { unimplemented!() } }
impl ChainConfig { pub uninterp spec fn ups(&self) -> Upgrades; #[verifier::external_body] pub fn chainstate_upgrades(&self) -> (r: &Upgrades) ensures *r == self.ups() { unimplemented!() } }
//@ fn SI make_sighash_input_commitments_for_transaction_inputs_at_height
//@|    ensures match r {
//@|        Ok(c) => c@.len() == tx_inputs@.len() && so_far(c@, tx_inputs@, chain_config.ups().at(block_height).sighash_input_commitment_version, utxo_provider, pool_info_provider, order_info_provider),
//@|        Err(_) => exists|i: int| 0 <= i < tx_inputs@.len() && then_said(chain_config.ups().at(block_height).sighash_input_commitment_version, utxo_provider, pool_info_provider, order_info_provider, #[trigger] tx_inputs@[i], i as usize) is None,
//@|    }
/// of a kernel: the outputs that it spends
pub open spec fn kernel_said<'a, UP: UtxoProvider<'a>>(up: &UP, input: TxInput, i: usize) -> Option<Said> { match input { TxInput::Utxo(o) => match up.said(i, o) { Ok(Some(c)) => Some(Said::Output(c)), _ => None }, _ => None } }
pub open spec fn kernel_so_far<'a, UP: UtxoProvider<'a>>(c: Seq<SighashInputCommitment<'a>>, ins: Seq<TxInput>, up: &UP) -> bool { forall|i: int| 0 <= i < c.len() ==> kernel_said(up, ins[i], i as usize) == Some((#[trigger] c[i])@) }
//@ fn SI make_sighash_input_commitments_for_kernel_inputs
//@|    ensures match r {
//@|        Ok(c) => c@.len() == kernel_inputs@.len() && kernel_so_far(c@, kernel_inputs@, utxo_provider),
//@|        Err(_) => exists|i: int| 0 <= i < kernel_inputs@.len() && kernel_said(utxo_provider, #[trigger] kernel_inputs@[i], i as usize) is None,
//@|    }
//@ . opt fornext
//@ . method iter => vf_iter
//@ . method enumerate => vf_enumerate
//@ . proof start
//@|    let ghost n = kernel_inputs@.len();
//@ . loop 0
//@|    invariant_except_break vf_it0.rest().len() <= n, forall|j: int| 0 <= j < vf_it0.rest().len() ==> #[trigger] vf_it0.rest()[j] == ((n - vf_it0.rest().len() + j) as usize, &kernel_inputs@[n - vf_it0.rest().len() + j])
//@|    invariant n == kernel_inputs@.len(), n <= usize::MAX, vf_len(vf_m@) == n - vf_it0.rest().len(), kernel_so_far(vf_m@, kernel_inputs@, utxo_provider)
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
//@ fn SI make_sighash_input_commitments_for_kernel_input_utxos
//@|    ensures r@.len() == kernel_input_utxos@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == Said::Output(kernel_input_utxos@[i])
//@ . opt eager
//@ . opt fornext
//@ . method collect => vf_vec
//@ . method iter => vf_iter
//@ . loop 0
//@|    invariant vf_len(vf_m@) == kernel_input_utxos@.len() - vf_it0.rest().len(), vf_it0.rest().len() <= kernel_input_utxos@.len(), vf_it0.rest() == kernel_input_utxos@.skip(kernel_input_utxos@.len() - vf_it0.rest().len()), outputs(vf_m@, kernel_input_utxos@)
//@|    ensures vf_it0.rest().len() == 0
//@|    decreases vf_it0.rest().len()
pub open spec fn outputs<'a>(c: Seq<SighashInputCommitment<'a>>, o: Seq<TxOutput>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@ == Said::Output(o[i]) }
// ---------------------------------------------------------------- the things that are signed
/// the tag of the first version of a transaction
pub uninterp spec fn v1_tag() -> u8;
#[verifier::external_body]
pub fn vf_tag_of(t: &&TransactionV1) -> (r: u8) ensures r == v1_tag() { unimplemented!() }
//@ struct SY TransactionV1
//@ enum SX Transaction
//@ struct SZ SignedTransaction
//@ struct SW BlockRewardTransactable
//@ inherent SY impl TransactionV1
//@ fn flags
//@|    ensures r == self.flags
//@ fn inputs
//@|    ensures r@ == self.inputs@
//@ fn outputs
//@|    ensures r@ == self.outputs@
//@ endimpl
impl Transaction { pub open spec fn v1(&self) -> TransactionV1 { match *self { Transaction::V1(t) => t } } }
//@ inherent SX impl Transaction
//@ fn version_byte
//@|    ensures r == v1_tag()
//@ fn flags
//@|    ensures r == self.v1().flags
//@ fn inputs
//@|    ensures r@ == self.v1().inputs@
//@ fn outputs
//@|    ensures r@ == self.v1().outputs@
//@ endimpl
//@ impl SX impl signature::Signable for Transaction
open spec fn ins(&self) -> Option<Seq<TxInput>> { Some(self.v1().inputs@) }
open spec fn outs(&self) -> Option<Seq<TxOutput>> { Some(self.v1().outputs@) }
open spec fn version(&self) -> Option<u8> { Some(v1_tag()) }
open spec fn flag_bits(&self) -> Option<u128> { Some(self.v1().flags) }
//@ fn inputs
//@ fn outputs
//@ fn version_byte
//@ fn flags
//@ endimpl
//@ inherent SZ impl SignedTransaction
//@ fn version_byte
//@|    ensures r == v1_tag()
//@ fn flags
//@|    ensures r == self.transaction.v1().flags
//@ fn inputs
//@|    ensures r@ == self.transaction.v1().inputs@
//@ fn outputs
//@|    ensures r@ == self.transaction.v1().outputs@
//@ endimpl
//@ impl SZ impl Signable for SignedTransaction
open spec fn ins(&self) -> Option<Seq<TxInput>> { Some(self.transaction.v1().inputs@) }
open spec fn outs(&self) -> Option<Seq<TxOutput>> { Some(self.transaction.v1().outputs@) }
open spec fn version(&self) -> Option<u8> { Some(v1_tag()) }
open spec fn flag_bits(&self) -> Option<u128> { Some(self.transaction.v1().flags) }
//@ fn inputs
//@ fn outputs
//@ fn version_byte
//@ fn flags
//@ endimpl
//@ impl SW impl Signable for BlockRewardTransactable<'_>
open spec fn ins(&self) -> Option<Seq<TxInput>> { match self.inputs { Some(x) => Some(x@), None => None } }
open spec fn outs(&self) -> Option<Seq<TxOutput>> { match self.outputs { Some(x) => Some(x@), None => None } }
open spec fn version(&self) -> Option<u8> { None }
open spec fn flag_bits(&self) -> Option<u128> { None }
//@ fn inputs
//@ fn outputs
//@ fn version_byte
//@ fn flags
//@ endimpl
// ---------------------------------------------------------------- who may spend
use core::cmp::Ordering;
impl ChainConfig { pub uninterp spec fn max_keys(&self) -> usize; #[verifier::external_body] pub fn max_classic_multisig_public_keys_count(&self) -> (r: usize) ensures r == self.max_keys() { unimplemented!() } }
#[verifier::external_body]
pub struct Signature { d: u64 }
#[verifier::external_body]
pub struct PrivateKey { d: u64 }
fn vf_assert(b: bool) requires b { }
#[verifier::external_body]
fn vf_panic<T>() -> (r: T) requires false { unimplemented!() }
pub trait SigAuxDataProvider { }
impl PublicKey {
    /// that it is this key's signature of these bytes (C15, and the cryptography under it)
    pub uninterp spec fn signed(&self, s: Signature, m: Seq<u8>) -> bool;
    pub uninterp spec fn of(k: PrivateKey) -> PublicKey;
    #[verifier::external_body] pub fn verify_message(&self, s: &Signature, m: &[u8]) -> (r: bool) ensures r == self.signed(*s, m@) { unimplemented!() }
    #[verifier::external_body] pub fn from_private_key(k: &PrivateKey) -> (r: PublicKey) ensures r == PublicKey::of(*k) { unimplemented!() }
}
impl PrivateKey {
    /// (a signature that is made is its key's: C15)
    #[verifier::external_body] pub fn sign_message<A: SigAuxDataProvider + ?Sized>(&self, m: &[u8], a: &mut A) -> (r: Result<Signature, SignatureError>) ensures r matches Ok(s) ==> PublicKey::of(*self).signed(s, m@) { unimplemented!() }
}
impl PartialEqSpecImpl for PublicKey { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PublicKey) -> bool { *self == *o } }
impl PartialEq for PublicKey { #[verifier::external_body] fn eq(&self, o: &PublicKey) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for PublicKeyHash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PublicKeyHash) -> bool { *self == *o } }
impl PartialEq for PublicKeyHash { #[verifier::external_body] fn eq(&self, o: &PublicKeyHash) -> (r: bool) { unimplemented!() } }
impl PublicKeyHash { pub uninterp spec fn of_key(k: PublicKey) -> Self; pub uninterp spec fn of_challenge(c: ClassicMultisigChallenge) -> Self; }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a PublicKey> for PublicKeyHash { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: &'a PublicKey) -> Self { Self::of_key(*k) } }
impl<'a> core::convert::From<&'a PublicKey> for PublicKeyHash { #[verifier::external_body] fn from(k: &'a PublicKey) -> (r: Self) { unimplemented!() } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a ClassicMultisigChallenge> for PublicKeyHash { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: &'a ClassicMultisigChallenge) -> Self { Self::of_challenge(*k) } }
impl<'a> core::convert::From<&'a ClassicMultisigChallenge> for PublicKeyHash { #[verifier::external_body] fn from(k: &'a ClassicMultisigChallenge) -> (r: Self) { unimplemented!() } }
impl H256 { pub uninterp spec fn bytes(&self) -> Seq<u8>; #[verifier::external_body] pub fn encode(&self) -> (r: Vec<u8>) ensures r@ == self.bytes() { unimplemented!() } }
/// std's map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<(K, V)> }
impl<V> BTreeMap<u8, V> {
    pub uninterp spec fn view(&self) -> Map<u8, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<u8, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), r <= 256 { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<u8, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &u8) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: u8, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] fn vf_entries(&self) -> (r: ListIter<(u8, &V)>) ensures forall|i: int| 0 <= i < r.rest().len() ==> self@.contains_key((#[trigger] r.rest()[i]).0) && *r.rest()[i].1 == self@[r.rest()[i].0], forall|k: u8| self@.contains_key(k) ==> exists|i: int| 0 <= i < r.rest().len() && (#[trigger] r.rest()[i]).0 == k { unimplemented!() }
    #[verifier::external_body] fn vf_keys(&self) -> (r: ListIter<u8>) ensures forall|i: int| 0 <= i < r.rest().len() ==> self@.contains_key(#[trigger] r.rest()[i]), forall|k: u8| self@.contains_key(k) ==> exists|i: int| 0 <= i < r.rest().len() && #[trigger] r.rest()[i] == k { unimplemented!() }
}
//@ struct SA AuthorizedPublicKeySpend
//@ struct SK AuthorizedPublicKeyHashSpend
//@ struct SC AuthorizedClassicalMultisigSpend
//@ struct SQ ClassicMultisigChallenge
//@ enum SQ ClassicMultisigChallengeError
//@ enum SM PartiallySignedMultisigStructureError
//@ enum SC ClassicalMultisigSigningError
//@ enum SC ClassicalMultisigCompletionStatus
//@ struct SM PartiallySignedMultisigChallenge
//@ enum SM PartiallySignedMultisigState
//@ enum SM SigsVerifyResult
impl core::convert::From<PartiallySignedMultisigStructureError> for DestinationSigError { #[verifier::external_body] fn from(e: PartiallySignedMultisigStructureError) -> (r: Self) { unimplemented!() } }
impl core::convert::From<PartiallySignedMultisigStructureError> for ClassicalMultisigSigningError { #[verifier::external_body] fn from(e: PartiallySignedMultisigStructureError) -> (r: Self) { unimplemented!() } }
// (a witness's bytes are read by the codec: C07)
pub uninterp spec fn read_key(raw: Seq<u8>) -> Option<AuthorizedPublicKeySpend>;
pub uninterp spec fn read_key_hash(raw: Seq<u8>) -> Option<AuthorizedPublicKeyHashSpend>;
pub uninterp spec fn read_multi(raw: Seq<u8>) -> Option<AuthorizedClassicalMultisigSpend>;
impl AuthorizedPublicKeySpend { #[verifier::external_body] pub fn from_data(data: &[u8]) -> (r: Result<Self, DestinationSigError>) ensures match r { Ok(x) => read_key(data@) == Some(x), Err(_) => read_key(data@) is None } { unimplemented!() } }
impl AuthorizedPublicKeyHashSpend { #[verifier::external_body] pub fn from_data(data: &Vec<u8>) -> (r: Result<Self, DestinationSigError>) ensures match r { Ok(x) => read_key_hash(data@) == Some(x), Err(_) => read_key_hash(data@) is None } { unimplemented!() } }
impl AuthorizedClassicalMultisigSpend { #[verifier::external_body] pub fn from_data(data: &[u8]) -> (r: Result<Self, DestinationSigError>) ensures match r { Ok(x) => read_multi(data@) == Some(x), Err(_) => read_multi(data@) is None } { unimplemented!() } }
pub open spec fn key_ok(k: PublicKey, raw: Seq<u8>, h: H256) -> bool { read_key(raw) matches Some(s) && k.signed(s.signature, h.bytes()) }
pub open spec fn key_hash_ok(a: PublicKeyHash, s: AuthorizedPublicKeyHashSpend, h: H256) -> bool { PublicKeyHash::of_key(s.public_key) == a && s.public_key.signed(s.signature, h.bytes()) }
/// a challenge that can be met
pub open spec fn meets(c: ClassicMultisigChallenge, cc: &ChainConfig) -> bool { 1 <= c.min_required_signatures <= c.public_keys@.len() <= cc.max_keys() }
/// every signature is that of the key of its number
pub open spec fn each_signed(s: AuthorizedClassicalMultisigSpend, m: Seq<u8>) -> bool { forall|k: u8| #[trigger] s.signatures@.contains_key(k) ==> k < s.challenge.public_keys@.len() && s.challenge.public_keys@[k as int].signed(s.signatures@[k], m) }
pub open spec fn in_range(s: AuthorizedClassicalMultisigSpend) -> bool { forall|k: u8| #[trigger] s.signatures@.contains_key(k) ==> k < s.challenge.public_keys@.len() }
pub open spec fn count(s: AuthorizedClassicalMultisigSpend) -> nat { s.signatures@.dom().len() }
pub open spec fn sound(s: AuthorizedClassicalMultisigSpend, cc: &ChainConfig) -> bool { meets(s.challenge, cc) && in_range(s) && count(s) <= s.challenge.min_required_signatures }
/// as many as are asked, each good
pub open spec fn multi_ok(a: PublicKeyHash, s: AuthorizedClassicalMultisigSpend, cc: &ChainConfig, h: H256) -> bool { PublicKeyHash::of_challenge(s.challenge) == a && meets(s.challenge, cc) && count(s) == s.challenge.min_required_signatures && each_signed(s, h.bytes()) }
//@ fn SA verify_public_key_spending
//@|    ensures r is Ok == spendee_pubkey.signed(spender_signature.signature, sighash.bytes())
//@ fn SK verify_public_key_hash_spending
//@|    ensures r is Ok == key_hash_ok(*spendee_addr, *sig_components, *sighash)
//@ inherent SQ impl ClassicMultisigChallenge
//@ fn is_valid
//@|    ensures r is Ok == meets(*self, chain_config)
//@ fn min_required_signatures
//@|    ensures r == self.min_required_signatures
//@ fn public_keys
//@|    ensures r@ == self.public_keys@
//@ endimpl
//@ inherent SC impl AuthorizedClassicalMultisigSpend
// (iterators over the map, by what they give)
pub fn public_key_indices(&self) -> (r: ListIter<u8>) ensures forall|i: int| 0 <= i < r.rest().len() ==> self.signatures@.contains_key(#[trigger] r.rest()[i]), forall|k: u8| self.signatures@.contains_key(k) ==> exists|i: int| 0 <= i < r.rest().len() && #[trigger] r.rest()[i] == k { self.signatures.vf_keys() }
pub fn iter(&self) -> (r: ListIter<(u8, &Signature)>) ensures forall|i: int| 0 <= i < r.rest().len() ==> self.signatures@.contains_key((#[trigger] r.rest()[i]).0) && *r.rest()[i].1 == self.signatures@[r.rest()[i].0], forall|k: u8| self.signatures@.contains_key(k) ==> exists|i: int| 0 <= i < r.rest().len() && (#[trigger] r.rest()[i]).0 == k { self.signatures.vf_entries() }
//@ fn available_signatures_count
//@|    ensures r == count(*self), r <= 256
//@ fn add_signature
//@|    ensures final(self).challenge == old(self).challenge, final(self).signatures@ == old(self).signatures@.insert(index, signature)
//@ fn signatures
//@|    ensures *r == self.signatures
//@ fn challenge
//@|    ensures *r == self.challenge
//@ fn is_empty
//@|    ensures r == (self.signatures@ == Map::<u8, Signature>::empty())
//@ endimpl
//@ inherent SM impl<'a> PartiallySignedMultisigChallenge<'a>
//@ fn from_partial
//@|    ensures r is Ok == sound(*signatures, chain_config), r matches Ok(x) ==> x.signatures == signatures && x.message == message
//@ fn challenge
//@|    ensures *r == self.signatures.challenge
//@ fn signatures
//@|    ensures *r == *self.signatures
//@ fn missing_signatures_count
//@|    ensures r == self.signatures.challenge.min_required_signatures - count(*self.signatures)
//@ fn check_structurally_valid
//@|    ensures r is Ok == sound(*self.signatures, chain_config)
//@ . opt eager
//@ . opt fornext
//@ . proof loop 0 before
//@|    let ghost all = vf_it0.rest();
//@ . loop 0
//@|    invariant_except_break !vf_a, forall|i: int| 0 <= i < all.len() - vf_it0.rest().len() ==> #[trigger] all[i] < self.signatures.challenge.public_keys@.len()
//@|    invariant vf_it0.rest().len() <= all.len(), vf_it0.rest() == all.skip(all.len() - vf_it0.rest().len()),
//@|        forall|i: int| 0 <= i < all.len() ==> self.signatures.signatures@.contains_key(#[trigger] all[i]), forall|k: u8| self.signatures.signatures@.contains_key(k) ==> exists|i: int| 0 <= i < all.len() && #[trigger] all[i] == k
//@|    ensures !vf_a ==> in_range(*self.signatures), vf_a ==> !in_range(*self.signatures)
//@|    decreases vf_it0.rest().len()
//@ fn verify_signatures
//@|    ensures match r {
//@|        Err(_) => !sound(*self.signatures, chain_config),
//@|        Ok(SigsVerifyResult::Invalid) => sound(*self.signatures, chain_config) && !each_signed(*self.signatures, self.message@),
//@|        Ok(SigsVerifyResult::Incomplete) => sound(*self.signatures, chain_config) && each_signed(*self.signatures, self.message@) && count(*self.signatures) < self.signatures.challenge.min_required_signatures,
//@|        Ok(SigsVerifyResult::CompleteAndValid) => sound(*self.signatures, chain_config) && each_signed(*self.signatures, self.message@) && count(*self.signatures) == self.signatures.challenge.min_required_signatures,
//@|    }
//@ . opt eager
//@ . opt fornext
//@ . proof loop 0 before
//@|    let ghost all = vf_it0.rest();
//@ . loop 0
//@|    invariant_except_break vf_a, forall|i: int| 0 <= i < all.len() - vf_it0.rest().len() ==> self.signatures.challenge.public_keys@[(#[trigger] all[i]).0 as int].signed(*all[i].1, self.message@)
//@|    invariant vf_it0.rest().len() <= all.len(), vf_it0.rest() == all.skip(all.len() - vf_it0.rest().len()),
//@|        in_range(*self.signatures),
//@|        forall|i: int| 0 <= i < all.len() ==> self.signatures.signatures@.contains_key((#[trigger] all[i]).0) && *all[i].1 == self.signatures.signatures@[all[i].0], forall|k: u8| self.signatures.signatures@.contains_key(k) ==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k
//@|    ensures vf_a == each_signed(*self.signatures, self.message@)
//@|    decreases vf_it0.rest().len()
//@ endimpl
//@ fn SC verify_classical_multisig_spending
//@|    ensures r is Ok == multi_ok(*challenge_hash, *spender_signature, chain_config, *sighash)
/// that a witness's bytes let this destination be spent, of what hashes to `h`
pub open spec fn may_spend(cc: &ChainConfig, d: Destination, raw: Seq<u8>, h: H256) -> bool {
    match d {
        Destination::PublicKeyHash(a) => read_key_hash(raw) matches Some(s) && key_hash_ok(a, s, h),
        Destination::PublicKey(k) => key_ok(k, raw, h),
        Destination::ClassicMultisig(a) => read_multi(raw) matches Some(s) && multi_ok(a, s, cc, h),
        _ => false,
    }
}
//@ inherent SN impl StandardInputSignature
//@ fn new
//@|    ensures r.sighash_type == sighash_type, r.raw_signature == raw_signature
//@ fn sighash_type
//@|    ensures r == self.sighash_type
//@ fn verify_signature
//@|    ensures r is Ok == may_spend(chain_config, *outpoint_destination, self.raw_signature@, *sighash)
//@ endimpl
//@ fn TG verify_signature
//@|    ensures r is Ok == (tx.ins() is Some && input_index < tx.ins()->0.len() && match *outpoint_destination {
//@|        Destination::AnyoneCanSpend => *input_witness is NoSignature,
//@|        d => match *input_witness {
//@|            EvaluatedInputWitness::Standard(w) => can_sign(w.sighash_type.0, tx, input_commitments@.len() as int, input_index as int)
//@|                && may_spend(chain_config, d, w.raw_signature@, H256::of(Digest::of(bytes_of(w.sighash_type.0, tx, said(input_commitments@), input_index as int)))),
//@|            _ => false,
//@|        },
//@|    })
// ---------------------------------------------------------------- to sign
//@ inherent SA impl AuthorizedPublicKeySpend
//@ fn new
//@|    ensures r.signature == signature
//@ endimpl
//@ inherent SK impl AuthorizedPublicKeyHashSpend
//@ fn new
//@|    ensures r.signature == signature, r.public_key == public_key
//@ endimpl
//@ fn SA sign_public_key_spending
//@|    ensures r matches Ok(s) ==> *spendee_pubkey == PublicKey::of(*private_key) && spendee_pubkey.signed(s.signature, sighash.bytes())
//@ fn SK sign_public_key_hash_spending_impl
//@|    requires public_key == PublicKey::of(*private_key)
//@|    ensures r matches Ok(s) ==> s.public_key == public_key && public_key.signed(s.signature, sighash.bytes())
//@ fn SK sign_public_key_hash_spending
//@|    ensures r matches Ok(s) ==> key_hash_ok(*spendee_addr, s, *sighash)
/// one more signature, of a key that had none; the rest as they were
pub open spec fn one_more(c: AuthorizedClassicalMultisigSpend, k: u8, s: AuthorizedClassicalMultisigSpend, m: Seq<u8>) -> bool {
    s.challenge == c.challenge && !c.signatures@.contains_key(k) && s.signatures@.contains_key(k) && s.signatures@ == c.signatures@.insert(k, s.signatures@[k]) && each_signed(c, m) && each_signed(s, m) && count(s) == count(c) + 1
}
//@ fn SC sign_classical_multisig_spending
//@|    requires *challenge == current_signatures.challenge
//@|    ensures match r {
//@|        Ok(ClassicalMultisigCompletionStatus::Complete(s)) => one_more(current_signatures, key_index, s, sighash.bytes()) && count(s) == s.challenge.min_required_signatures && meets(s.challenge, chain_config),
//@|        Ok(ClassicalMultisigCompletionStatus::Incomplete(s)) => one_more(current_signatures, key_index, s, sighash.bytes()) && count(s) < s.challenge.min_required_signatures && meets(s.challenge, chain_config),
//@|        Err(e) => e is ProducingSignatureFailed || !sound(current_signatures, chain_config) || current_signatures.signatures@.contains_key(key_index) || !each_signed(current_signatures, sighash.bytes()) || count(current_signatures) == challenge.min_required_signatures
//@|            || key_index >= challenge.public_keys@.len() || challenge.public_keys@[key_index as int] != PublicKey::of(*private_key),
//@|    }
impl AuthorizedPublicKeySpend { #[verifier::external_body] pub fn encode(&self) -> (r: Vec<u8>) ensures read_key(r@) == Some(*self) { unimplemented!() } }
impl AuthorizedPublicKeyHashSpend { #[verifier::external_body] pub fn encode(&self) -> (r: Vec<u8>) ensures read_key_hash(r@) == Some(*self) { unimplemented!() } }
impl AuthorizedClassicalMultisigSpend { #[verifier::external_body] pub fn encode(&self) -> (r: Vec<u8>) ensures read_multi(r@) == Some(*self) { unimplemented!() } }
pub open spec fn hash_of<T: Signable>(mode: SigHashType, t: &T, known: Seq<SighashInputCommitment>, i: usize) -> H256 { H256::of(Digest::of(bytes_of(mode.0, t, said(known), i as int))) }
//@ inherent SN impl StandardInputSignature
//@ fn produce_uniparty_signature_for_input
//@|    ensures r matches Ok(w) ==> can_sign(sighash_type.0, tx, input_commitments@.len() as int, input_index as int) && w.sighash_type == sighash_type
//@|        && forall|cc: &ChainConfig| #[trigger] may_spend(cc, outpoint_destination, w.raw_signature@, hash_of(sighash_type, tx, input_commitments@, input_index))
//@ fn produce_classical_multisig_signature_for_input
//@|    ensures r matches Ok(w) ==> can_sign(sighash_type.0, tx, input_commitments@.len() as int, input_index as int) && w.sighash_type == sighash_type
//@|        && may_spend(chain_config, Destination::ClassicMultisig(PublicKeyHash::of_challenge(authorization.challenge)), w.raw_signature@, hash_of(sighash_type, tx, input_commitments@, input_index)),
//@|        r is Ok == (can_sign(sighash_type.0, tx, input_commitments@.len() as int, input_index as int) && multi_ok(PublicKeyHash::of_challenge(authorization.challenge), *authorization, chain_config, hash_of(sighash_type, tx, input_commitments@, input_index)))
//@ endimpl
} // verus!
fn main() { }
