//! C30: an input is spent only by who and when its output says.
use common::chain::{
    block::{timestamp::BlockTimestamp, BlockRewardTransactable}, htlc::{HashedTimelockContract, HtlcSecret, HtlcSecretHash}, output_value::OutputValue, signature::inputsig::{standard_signature::StandardInputSignature, InputWitness, authorize_hashed_timelock_contract_spend::AuthorizedHashedTimelockContractSpend},
    signature::{sighash::{input_commitments::SighashInputCommitment, sighashtype::SigHashType}, EvaluatedInputWitness}, stakelock::StakePoolData, timelock::OutputTimeLock, AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, ChainConfig, DelegationId, Destination, OrderAccountCommand, OrderId, OutPointSourceId, PoolId, SignedTransaction, Transaction, TxOutput, UtxoOutPoint, tokens::{TokenId, IsTokenUnfreezable},
};
use common::primitives::{per_thousand::PerThousand, Amount, BlockHeight, Id, H256};
use mintscript::{checker::{HashlockError, TimelockContext}, script::{HashChallenge, ScriptCondition, ScriptVisitor, Threshold}, translate::{InputInfoProvider, SignatureInfoProvider, SignatureOnlyTx, TimelockOnly}, InputInfo, ScriptChecker, SignatureContext, TranslateInput, WitnessScript};
use serialization::Encode;
use vsrc::{cases, inputs, Src};

type Leaf = (u8, Vec<u8>);
fn dest(k: usize) -> Destination { if k == 0 { Destination::AnyoneCanSpend } else { Destination::ScriptHash(Id::new(H256::from_low_u64_be(k as u64))) } }
fn lock(s: &mut impl Src) -> OutputTimeLock { let x = s.below(4) as u64; match s.below(4) { 0 => OutputTimeLock::UntilHeight(BlockHeight::new(x)), 1 => OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(x)), 2 => OutputTimeLock::ForBlockCount(x), _ => OutputTimeLock::ForSeconds(x) } }
fn leaf_sig(d: &Destination, w: &EvaluatedInputWitness) -> Leaf { (0, (d, w).encode()) }
fn leaf_lock(l: &OutputTimeLock) -> Leaf { (1, l.encode()) }
fn leaf_hash(h: &HashChallenge, p: &[u8]) -> Leaf { (2, match h { HashChallenge::Hash160(x) => [x.as_slice(), p].concat(), _ => panic!("another challenge") }) }
/// accepts everything but some
#[derive(Default)]
struct Judge { not: Vec<Leaf>, seen: Vec<Leaf> }
impl Judge { fn on(&mut self, l: Leaf) -> Result<(), HashlockError> { let bad = self.not.contains(&l); self.seen.push(l); if bad { Err(HashlockError::HashMismatch) } else { Ok(()) } } }
impl ScriptVisitor for Judge {
    type SignatureError = HashlockError;
    type TimelockError = HashlockError;
    type HashlockError = HashlockError;
    fn visit_signature(&mut self, d: &Destination, w: &EvaluatedInputWitness) -> Result<(), HashlockError> { self.on(leaf_sig(d, w)) }
    fn visit_timelock(&mut self, l: &OutputTimeLock) -> Result<(), HashlockError> { self.on(leaf_lock(l)) }
    fn visit_hashlock(&mut self, h: &HashChallenge, p: &[u8; 32]) -> Result<(), HashlockError> { self.on(leaf_hash(h, p)) }
}
fn one(s: &mut impl Src) -> (WitnessScript, Leaf) {
    match s.below(3) {
        0 => { let (d, w) = (dest(s.below(3)), EvaluatedInputWitness::NoSignature(Some(vec![s.below(2) as u8]))); let l = leaf_sig(&d, &w); (WitnessScript::signature(d, w), l) }
        1 => { let x = lock(s); (WitnessScript::timelock(x), leaf_lock(&x)) }
        _ => { let (h, p) = (HashChallenge::Hash160([s.below(3) as u8; 20]), [s.below(3) as u8; 32]); let l = leaf_hash(&h, &p); (WitnessScript::hashlock(h, p), l) }
    }
}
/// a script, and whether it is met if these parts are not
fn tree(s: &mut impl Src, deep: usize, not: &mut Vec<Leaf>) -> (WitnessScript, Box<dyn Fn(&[Leaf]) -> bool>) {
    if deep == 0 || s.below(3) == 0 {
        let (ws, l) = one(s);
        if s.below(6) == 0 { not.push(l.clone()); }
        return (ws, Box::new(move |n: &[Leaf]| !n.contains(&l)));
    }
    let n = s.below(5);
    let (mut conds, mut fs) = (vec![], vec![]);
    for _ in 0..n {
        if s.below(3) == 0 { conds.push(ScriptCondition::FALSE); } else { let (w, f) = tree(s, deep - 1, not); conds.push(ScriptCondition::Satisfied(w)); fs.push(f); }
    }
    let sat = fs.len();
    let req = if s.below(5) == 0 { s.below(n + 1) } else { sat };
    let w = match s.below(4) {
        0 if sat == n => { let ws: Vec<_> = conds.iter().map(|c| c.as_satisfied().unwrap().clone()).collect(); return (WitnessScript::satisfied_conjunction(ws), Box::new(move |n: &[Leaf]| fs.iter().all(|f| f(n)))) }
        1 => WitnessScript::threshold(req, conds).unwrap(),
        _ => Threshold::new(req, conds).unwrap().into_script(),
    };
    (w, Box::new(move |n: &[Leaf]| sat == req && fs.iter().all(|f| f(n))))
}
struct Info<'a> { input: InputInfo<'a>, witness: InputWitness, known: Option<Destination> }
impl InputInfoProvider for Info<'_> {
    fn input_info(&self) -> &InputInfo<'_> { &self.input }
    fn witness(&self) -> &InputWitness { &self.witness }
}
fn num(h: H256) -> u64 { h.to_low_u64_be() }
// (what is looked up depends on the kind and the id)
fn found(kind: u64, id: u64, known: &Option<Destination>) -> Option<Destination> { known.as_ref().map(|_| dest((10 * kind + id) as usize)) }
impl SignatureInfoProvider for Info<'_> {
    fn get_pool_decommission_destination(&self, id: &PoolId) -> Result<Option<Destination>, pos_accounting::Error> { Ok(found(1, num(id.to_hash()), &self.known)) }
    fn get_delegation_spend_destination(&self, id: &DelegationId) -> Result<Option<Destination>, pos_accounting::Error> { Ok(found(2, num(id.to_hash()), &self.known)) }
    fn get_tokens_authority(&self, id: &TokenId) -> Result<Option<Destination>, tokens_accounting::Error> { Ok(found(3, num(id.to_hash()), &self.known)) }
    fn get_orders_conclude_destination(&self, id: &OrderId) -> Result<Option<Destination>, orders_accounting::Error> { Ok(found(4, num(id.to_hash()), &self.known)) }
}
fn h(x: usize) -> H256 { H256::from_low_u64_be(x as u64) }
fn coins() -> OutputValue { OutputValue::Coin(Amount::from_atoms(5)) }
/// the script asks for exactly these
fn asks(r: Result<WitnessScript, mintscript::translate::TranslationError>, want: Option<Vec<Leaf>>) {
    let want = match want { Some(w) => w, None => { assert!(r.is_err(), "{r:?}"); return } };
    let ws = r.expect("can be spent");
    let mut j = Judge::default();
    ws.verify(&mut j).expect("all is met");
    for l in &j.seen { assert!(want.contains(l), "asks for more"); }
    for l in &want {
        assert!(j.seen.contains(l), "asks for less");
        assert!(ws.verify(&mut Judge { not: vec![l.clone()], seen: vec![] }).is_err(), "passes without a part");
    }
}
struct At<'a> { chain: &'a ChainConfig, tx: &'a SignedTransaction, commitments: Vec<SighashInputCommitment<'a>> }
impl SignatureContext for At<'_> {
    type Tx = SignedTransaction;
    fn chain_config(&self) -> &ChainConfig { self.chain }
    fn transaction(&self) -> &SignedTransaction { self.tx }
    fn input_commitments(&self) -> &[SighashInputCommitment<'_>] { &self.commitments }
    fn input_num(&self) -> usize { 0 }
}
impl TimelockContext for At<'_> {
    type Error = HashlockError;
    fn spending_height(&self) -> BlockHeight { BlockHeight::new(2) }
    fn spending_time(&self) -> BlockTimestamp { BlockTimestamp::from_int_seconds(2) }
    fn source_height(&self) -> Result<BlockHeight, HashlockError> { Ok(BlockHeight::new(0)) }
    fn source_time(&self) -> Result<BlockTimestamp, HashlockError> { Ok(BlockTimestamp::from_int_seconds(0)) }
}

cases! {
    c30_tree(s) {
        let mut not = vec![];
        let (ws, met) = tree(s, 3, &mut not);
        let shown = format!("{ws:?}");
        inputs!(s, shown);
        let mut j = Judge { not: not.clone(), seen: vec![] };
        assert_eq!(ws.verify(&mut j).is_ok(), met(&not));
    }
    c30_threshold(s) {
        let (n, k) = (s.below(4), s.below(6));
        let conds: Vec<_> = (0..n).map(|_| if s.bool() { ScriptCondition::TRUE } else { ScriptCondition::from_bool(false) }).collect();
        let sat = conds.iter().filter(|c| c.as_satisfied().is_some()).count();
        inputs!(s, n, k, sat);
        match Threshold::new(k, conds.clone()) {
            Err(_) => assert!(k > n),
            Ok(t) => { assert!(k <= n); assert_eq!(t.required_dissat(), n - k); assert_eq!(t.collect_satisfied().map(|v| v.len()).ok(), (sat == k).then_some(sat)); assert_eq!(t.into_script().verify(&mut Judge::default()).is_ok(), sat == k); }
        }
        assert_eq!(WitnessScript::disjunction(conds.clone()).ok().map(|w| w.verify(&mut Judge::default()).is_ok()), (n > 0).then_some(sat == 1));
        assert_eq!(WitnessScript::conjunction(conds).verify(&mut Judge::default()).is_ok(), sat == n);
    }
    c30_full(s) {
        let chain = common::chain::config::create_regtest();
        let tx = SignedTransaction::new(Transaction::new(0, vec![common::chain::TxInput::from_utxo(OutPointSourceId::Transaction(Id::new(h(1))), 0)], vec![]).unwrap(), vec![InputWitness::NoSignature(None)]).unwrap();
        let at = || At { chain: &chain, tx: &tx, commitments: vec![SighashInputCommitment::None] };
        let (x, flip, secret) = (s.below(5) as u64, s.below(200), HtlcSecret::new(s.arr::<32>()));
        let which = s.below(6);
        let signed = s.bool();
        inputs!(s, x, flip, which, signed);
        let w = if signed { EvaluatedInputWitness::Standard(StandardInputSignature::new(SigHashType::all(), vec![])) } else { EvaluatedInputWitness::NoSignature(None) };
        let mut hash = secret.hash().to_fixed_bytes();
        if flip < 160 { hash[flip / 8] ^= 1 << (flip % 8); }
        // locks, then the hash, then signatures
        let (ws, locks, hashes, sigs) = match which {
            0 => (WitnessScript::timelock(OutputTimeLock::ForBlockCount(x)), x <= 2, true, true),
            1 => (WitnessScript::timelock(OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(x))), x <= 2, true, true),
            2 => (WitnessScript::hashlock(HashChallenge::Hash160(hash), secret.clone().consume()), true, flip >= 160, true),
            3 => (WitnessScript::signature(Destination::AnyoneCanSpend, w), true, true, !signed),
            4 => (WitnessScript::signature(dest(1), w), true, true, false),
            _ => (WitnessScript::satisfied_conjunction([WitnessScript::hashlock(HashChallenge::Hash160(hash), secret.clone().consume()), WitnessScript::timelock(OutputTimeLock::ForSeconds(x)), WitnessScript::signature(Destination::AnyoneCanSpend, w)]), x <= 2, flip >= 160, !signed),
        };
        assert_eq!(ws.verify(&mut ScriptChecker::full(at())).is_ok(), locks && hashes && sigs);
        assert_eq!(ws.verify(&mut ScriptChecker::timelock_only(at())).is_ok(), locks);
        assert_eq!(ws.verify(&mut ScriptChecker::signature_only(at())).is_ok(), sigs);
    }
    c30_demands(s) {
        let (kind, id, d, l, refund, known, sign) = (s.below(24), s.below(5), s.below(6), lock(s), s.bool(), s.below(5) != 0, s.below(5));
        let pt = UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(h(1))), 0);
        let secret = HtlcSecret::new([7; 32]);
        let vrf = { static K: std::sync::OnceLock<crypto::vrf::VRFPublicKey> = std::sync::OnceLock::new(); K.get_or_init(|| crypto::vrf::VRFPrivateKey::new_from_entropy(crypto::vrf::VRFKeyKind::Schnorrkel).1).clone() };
        let data = StakePoolData::new(Amount::from_atoms(1), dest(d + 1), vrf, dest(d + 20), PerThousand::new(1).unwrap(), Amount::ZERO);
        let htlc = HashedTimelockContract { secret_hash: HtlcSecretHash::from([9; 20]), spend_key: dest(d + 1), refund_timelock: l, refund_key: dest(d + 20) };
        let raw = if refund { AuthorizedHashedTimelockContractSpend::Refund(vec![1, 2]) } else { AuthorizedHashedTimelockContractSpend::Spend(secret.clone(), vec![3]) };
        let bytes = match (kind, sign) { (8, 1) => vec![200], (8, _) => raw.encode(), _ => vec![4, 5] };
        let witness = if sign == 0 { InputWitness::NoSignature(None) } else { InputWitness::Standard(StandardInputSignature::new(SigHashType::all(), bytes)) };
        inputs!(s, kind, id, d, l, refund, known, sign);
        let ev = match &witness { InputWitness::NoSignature(x) => EvaluatedInputWitness::NoSignature(x.clone()), InputWitness::Standard(x) => EvaluatedInputWitness::Standard(x.clone()) };
        let inner = |x: Vec<u8>| EvaluatedInputWitness::Standard(StandardInputSignature::new(SigHashType::all(), x));
        let sig = |d: Destination| Some(vec![leaf_sig(&d, &ev)]);
        let look = |k: usize| known.then(|| vec![leaf_sig(&dest(10 * k + id), &ev)]);
        let (tok, ord): (TokenId, OrderId) = (TokenId::new(h(id)), OrderId::new(h(id)));
        let acc = AccountOutPoint::new(AccountNonce::new(0), AccountSpending::DelegationBalance(DelegationId::new(h(id)), Amount::from_atoms(3)));
        let cmd = match kind { 12 => AccountCommand::MintTokens(tok, Amount::from_atoms(1)), 13 => AccountCommand::UnmintTokens(tok), 14 => AccountCommand::LockTokenSupply(tok), 15 => AccountCommand::FreezeToken(tok, IsTokenUnfreezable::Yes), 16 => AccountCommand::UnfreezeToken(tok), 17 => AccountCommand::ChangeTokenMetadataUri(tok, vec![1]), 18 => AccountCommand::ChangeTokenAuthority(tok, dest(d + 40)), 19 => AccountCommand::ConcludeOrder(ord), _ => AccountCommand::FillOrder(ord, Amount::from_atoms(1), dest(d)) };
        let ocmd = match kind { 21 => OrderAccountCommand::FillOrder(ord, Amount::from_atoms(1)), 22 => OrderAccountCommand::FreezeOrder(ord), _ => OrderAccountCommand::ConcludeOrder(ord) };
        let out = match kind {
            0 => TxOutput::Transfer(coins(), dest(d)),
            1 => TxOutput::LockThenTransfer(coins(), dest(d), l),
            2 => TxOutput::CreateStakePool(PoolId::new(h(id)), Box::new(data)),
            3 => TxOutput::ProduceBlockFromStake(dest(d), PoolId::new(h(id))),
            4 => TxOutput::DelegateStaking(Amount::from_atoms(1), DelegationId::new(h(id))),
            5 => TxOutput::CreateDelegationId(dest(d), PoolId::new(h(id))),
            6 => TxOutput::Burn(coins()),
            7 => TxOutput::DataDeposit(vec![1]),
            8 => TxOutput::Htlc(coins(), Box::new(htlc)),
            _ => TxOutput::CreateOrder(Box::new(common::chain::OrderData::new(dest(d), coins(), coins()))),
        };
        // (the demands as a transaction's input; its locks alone; as a block reward's)
        let (tx, locks, reward) = match kind {
            0 => (sig(dest(d)), Some(vec![]), None),
            1 => (Some(vec![leaf_lock(&l), leaf_sig(&dest(d), &ev)]), Some(vec![leaf_lock(&l)]), None),
            2 => (sig(dest(d + 20)), Some(vec![]), sig(dest(d + 1))),
            3 => (look(1), Some(vec![]), sig(dest(d))),
            8 => { let r = match (sign, refund) { (0, _) | (1, _) => None, (_, true) => Some(vec![leaf_lock(&l), leaf_sig(&dest(d + 20), &inner(vec![1, 2]))]), _ => Some(vec![leaf_hash(&HashChallenge::Hash160([9; 20]), &[7; 32]), leaf_sig(&dest(d + 1), &inner(vec![3]))]) }; let ls = r.as_ref().map(|v: &Vec<Leaf>| v.iter().filter(|x| x.0 == 1).cloned().collect()); (r, ls, None) }
            4..=7 | 9 | 10 => (None, None, None),
            11 => (look(2), Some(vec![]), None),
            12..=18 => (look(3), Some(vec![]), None),
            19 | 22 | 23 => (look(4), Some(vec![]), None),
            20 => (Some(vec![]), Some(vec![]), None),
            _ => (sig(Destination::AnyoneCanSpend), Some(vec![]), None),
        };
        let input = match kind { 0..=10 => InputInfo::Utxo { outpoint: &pt, utxo: out, utxo_source: None }, 11 => InputInfo::Account { outpoint: &acc }, 12..=20 => InputInfo::AccountCommand { command: &cmd }, _ => InputInfo::OrderAccountCommand { command: &ocmd } };
        let ctx = Info { input, witness, known: known.then(|| dest(0)) };
        let only: Option<Vec<Leaf>> = tx.as_ref().map(|v| v.iter().filter(|x| x.0 == 0).cloned().collect());
        asks(<SignedTransaction as TranslateInput<Info>>::translate_input(&ctx), tx);
        asks(SignatureOnlyTx::translate_input(&ctx), only);
        asks(TimelockOnly::translate_input(&ctx), locks);
        asks(<BlockRewardTransactable as TranslateInput<Info>>::translate_input(&ctx), reward);
    }
}
