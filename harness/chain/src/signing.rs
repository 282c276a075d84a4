//! C33: what a signature commits to, and when it opens an input.
use common::address::pubkeyhash::PublicKeyHash;
use common::chain::block::BlockRewardTransactable;
use common::chain::classic_multisig::ClassicMultisigChallenge;
use common::chain::config::{Builder, ChainType};
use common::chain::htlc::{HashedTimelockContract, HtlcSecret, HtlcSecretHash};
use common::chain::output_value::OutputValue;
use common::chain::partially_signed_transaction::{PartiallySignedTransaction, PartiallySignedTransactionConsistencyCheck, TxAdditionalInfo};
use common::chain::signature::inputsig::arbitrary_message::{produce_message_challenge, ArbitraryMessageSignature};
use common::chain::signature::inputsig::authorize_hashed_timelock_contract_spend::AuthorizedHashedTimelockContractSpend as HtlcSpend;
use common::chain::signature::inputsig::classical_multisig::authorize_classical_multisig::{sign_classical_multisig_spending, AuthorizedClassicalMultisigSpend};
use common::chain::signature::inputsig::htlc::{produce_classical_multisig_signature_for_htlc_refunding, produce_uniparty_signature_for_htlc_refunding, produce_uniparty_signature_for_htlc_spending};
use common::chain::signature::inputsig::standard_signature::StandardInputSignature;
use common::chain::signature::inputsig::InputWitness;
use common::chain::signature::sighash::input_commitments::{make_sighash_input_commitments_for_kernel_input_utxos, make_sighash_input_commitments_for_kernel_inputs, make_sighash_input_commitments_for_transaction_inputs, make_sighash_input_commitments_for_transaction_inputs_at_height, OrderInfo, PoolInfo, SighashInputCommitment as Commit, TrivialUtxoProvider};
use common::chain::signature::sighash::{sighashtype::SigHashType, signature_hash};
use common::chain::signature::{verify_signature, EvaluatedInputWitness, Signable};
use common::chain::stakelock::StakePoolData;
use common::chain::timelock::OutputTimeLock;
use common::chain::tokens::{IsTokenUnfreezable, TokenId};
use common::chain::{AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, ChainConfig, ChainstateUpgradeBuilder, DelegationId, Destination, NetUpgrades, OrderAccountCommand, OrderData, OrderId, OutPointSourceId, PoolId, SighashInputCommitmentVersion, SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint};
use common::primitives::{per_thousand::PerThousand, Amount, BlockHeight, Id, H256};
use crypto::key::{KeyKind, PredefinedSigAuxDataProvider as Aux, PrivateKey, PublicKey, Signature};
use serialization::{DecodeAll, Encode};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::num::NonZeroU8;
use std::sync::OnceLock;
use vsrc::{cases, inputs, Src};

fn h(x: u64) -> H256 { H256::from_low_u64_be(x) }
fn a(x: u128) -> Amount { Amount::from_atoms(x) }
fn keys(i: usize) -> &'static (PrivateKey, PublicKey) { static K: OnceLock<Vec<(PrivateKey, PublicKey)>> = OnceLock::new(); &K.get_or_init(|| (0..5).map(|i| PrivateKey::new_from_rng(&mut crate::Fixed(90 + i), KeyKind::Secp256k1Schnorr)).collect())[i] }
fn chain() -> &'static ChainConfig { static C: OnceLock<ChainConfig> = OnceLock::new(); C.get_or_init(|| Builder::new(ChainType::Mainnet).build()) }
const FORK: u64 = 10;
fn forked() -> &'static ChainConfig {
    static C: OnceLock<ChainConfig> = OnceLock::new();
    C.get_or_init(|| {
        let v = |o| ChainstateUpgradeBuilder::latest().sighash_input_commitment_version(o).build();
        Builder::new(ChainType::Regtest).chainstate_upgrades(NetUpgrades::initialize(vec![(BlockHeight::new(0), v(SighashInputCommitmentVersion::V0)), (BlockHeight::new(FORK), v(SighashInputCommitmentVersion::V1))]).unwrap()).build()
    })
}
fn value(x: u8) -> OutputValue { if x & 3 == 0 { OutputValue::TokenV1(TokenId::new(h((x >> 2) as u64)), a(7)) } else { OutputValue::Coin(a(x as u128)) } }
fn dest(x: u8) -> Destination { match x % 4 { 0 => Destination::AnyoneCanSpend, 1 => Destination::PublicKey(keys((x / 4) as usize % 5).1.clone()), 2 => Destination::PublicKeyHash((&keys((x / 4) as usize % 5).1).into()), _ => Destination::ScriptHash(Id::new(h(x as u64))) } }
fn output(k: u8, x: u8) -> TxOutput {
    match k % 12 {
        0 => TxOutput::Transfer(value(x), dest(k)),
        1 => TxOutput::LockThenTransfer(value(x), dest(x), OutputTimeLock::ForBlockCount(3)),
        2 => TxOutput::CreateStakePool(PoolId::new(h(x as u64 & 3)), Box::new(StakePoolData::new(a(x as u128), dest(x), crate::pools::vrf(), dest(0), PerThousand::new(1).unwrap(), a(0)))),
        3 => TxOutput::ProduceBlockFromStake(dest(x), PoolId::new(h(x as u64 & 3))),
        4 => crate::values::nft(1),
        5 => TxOutput::Htlc(value(x), Box::new(HashedTimelockContract { secret_hash: HtlcSecretHash([x; 20]), spend_key: dest(x), refund_timelock: OutputTimeLock::ForBlockCount(9), refund_key: dest(1) })),
        6 => TxOutput::CreateDelegationId(dest(x), PoolId::new(h(1))),
        7 => TxOutput::DelegateStaking(a(x as u128), DelegationId::new(h(1))),
        8 => TxOutput::Burn(value(x)),
        9 => TxOutput::IssueFungibleToken(Box::new(crate::tokens::issuance(0, x as u128, true))),
        10 => TxOutput::DataDeposit(vec![x]),
        _ => TxOutput::CreateOrder(Box::new(OrderData::new(dest(x), value(x), value(1)))),
    }
}
fn input(k: u8, x: u8) -> TxInput {
    let (n, t, o) = (AccountNonce::new(x as u64), TokenId::new(h(x as u64 & 3)), OrderId::new(h(x as u64 & 3)));
    let c = |c| TxInput::AccountCommand(n, c);
    match k % 20 {
        0..=4 => TxInput::Utxo(UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(h(x as u64))), k as u32)),
        5 | 6 => TxInput::Utxo(UtxoOutPoint::new(OutPointSourceId::BlockReward(Id::new(h(x as u64))), k as u32)),
        7 => TxInput::Account(AccountOutPoint::new(n, AccountSpending::DelegationBalance(DelegationId::new(h(x as u64)), a(3)))),
        8 => c(AccountCommand::MintTokens(t, a(4))),
        9 => c(AccountCommand::UnmintTokens(t)),
        10 => c(AccountCommand::LockTokenSupply(t)),
        11 => c(AccountCommand::FreezeToken(t, IsTokenUnfreezable::Yes)),
        12 => c(AccountCommand::UnfreezeToken(t)),
        13 => c(AccountCommand::ChangeTokenAuthority(t, dest(x))),
        14 => c(AccountCommand::ConcludeOrder(o)),
        15 => c(AccountCommand::FillOrder(o, a(x as u128), dest(x))),
        16 => c(AccountCommand::ChangeTokenMetadataUri(t, vec![x])),
        17 => TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(o, a(x as u128))),
        18 => TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(o)),
        _ => TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(o)),
    }
}
fn order(x: u8) -> OrderInfo { OrderInfo { initially_asked: value(x), initially_given: value(x ^ 1), ask_balance: a(x as u128 * 3), give_balance: a(x as u128 * 5 + 1) } }
fn commitment(k: u8, x: u8) -> Commit<'static> {
    let o = order(x);
    match k % 8 {
        0 => Commit::None,
        5 => Commit::ProduceBlockFromStakeUtxo { utxo: Cow::Owned(output(3, x)), staker_balance: a(x as u128) },
        6 => Commit::FillOrderAccountCommand { initially_asked: o.initially_asked, initially_given: o.initially_given },
        7 => Commit::ConcludeOrderAccountCommand { initially_asked: o.initially_asked, initially_given: o.initially_given, ask_balance: o.ask_balance, give_balance: o.give_balance },
        _ => Commit::Utxo(Cow::Owned(output(k, x))),
    }
}
/// how a commitment is written
fn written(c: &Commit) -> Vec<u8> {
    match c {
        Commit::None => vec![0],
        Commit::Utxo(u) => [&[1], &u.as_ref().encode()[..]].concat(),
        Commit::ProduceBlockFromStakeUtxo { utxo, staker_balance } => [&[2], &utxo.as_ref().encode()[..], &staker_balance.encode()].concat(),
        Commit::FillOrderAccountCommand { initially_asked, initially_given } => [&[3], &initially_asked.encode()[..], &initially_given.encode()].concat(),
        Commit::ConcludeOrderAccountCommand { initially_asked, initially_given, ask_balance, give_balance } => [&[4], &initially_asked.encode()[..], &initially_given.encode(), &ask_balance.encode(), &give_balance.encode()].concat(),
    }
}

/// Anything that is signed for
#[derive(Debug, Clone)]
struct Tx { version: Option<u8>, flags: Option<u128>, inputs: Option<Vec<TxInput>>, outputs: Option<Vec<TxOutput>>, commits: Vec<Commit<'static>> }
impl Signable for Tx {
    fn inputs(&self) -> Option<&[TxInput]> { self.inputs.as_deref() }
    fn outputs(&self) -> Option<&[TxOutput]> { self.outputs.as_deref() }
    fn version_byte(&self) -> Option<u8> { self.version }
    fn flags(&self) -> Option<u128> { self.flags }
}
fn tx(s: &mut impl Src) -> Tx {
    let n = 1 + s.below(5);
    let m = if s.below(40) == 0 { 70 } else { s.below(6) };
    let plain = s.bool();
    Tx {
        version: if plain || s.below(4) > 0 { Some(1) } else { None },
        flags: if plain { Some(s.below(3) as u128) } else if s.bool() { Some(s.u128()) } else { None },
        inputs: if plain || s.below(30) > 0 { Some((0..n).map(|_| input(s.u8(), s.u8())).collect()) } else { None },
        outputs: if plain || s.below(8) > 0 { Some((0..m).map(|_| output(s.u8(), s.u8())).collect()) } else { None },
        commits: (0..if plain || s.below(20) > 0 { n } else { s.below(6) }).map(|_| commitment(s.u8(), s.u8())).collect(),
    }
}
fn mode(s: &mut impl Src) -> u8 { [1u8, 2, 3, 0x81, 0x82, 0x83][s.below(6)] }
/// The bytes a signature is over: none if there is nothing to sign
fn signed_bytes(mode: u8, t: &Tx, i: usize) -> Option<Vec<u8>> {
    let inputs = t.inputs.as_ref()?;
    let outputs = t.outputs.clone().unwrap_or_default();
    if i >= inputs.len() || t.commits.len() != inputs.len() { return None }
    let mut v = vec![mode];
    v.extend(t.version);
    if let Some(f) = t.flags { v.extend(f.to_le_bytes()) }
    if mode & 0x80 == 0 {
        v.extend((inputs.len() as u32).to_le_bytes());
        inputs.iter().for_each(|x| v.extend(x.encode()));
        v.extend((inputs.len() as u32).to_le_bytes());
        t.commits.iter().for_each(|x| v.extend(written(x)));
    } else {
        v.extend(inputs[i].encode());
        v.extend(written(&t.commits[i]));
    }
    match mode & 0x7f {
        1 => { let n = outputs.len(); if n < 64 { v.push((n as u8) << 2) } else { v.extend(((n as u16) << 2 | 1).to_le_bytes()) } outputs.iter().for_each(|x| v.extend(x.encode())) }
        2 => (),
        _ => v.extend(outputs.get(i)?.encode()),
    }
    Some(v)
}
fn hashed(v: &[u8]) -> H256 { H256(<[u8; 32]>::from(crypto::hash::hash::<crypto::hash::Blake2b32, _>(v))) }
/// a change of something signed for
fn change(s: &mut impl Src, t: &mut Tx, i: usize) {
    let at = |s: &mut _, n: usize| Src::below(s, n.max(1));
    let other = |s: &mut _, n: usize| if Src::bool(s) { i } else { Src::below(s, n.max(1)) };
    match s.below(12) {
        0 | 1 => { let n = t.inputs.iter().flatten().count(); let k = other(s, n); let x = input(s.u8(), s.u8()); if let Some(v) = &mut t.inputs { if k < v.len() { v[k] = x } } }
        2 => if let Some(v) = &mut t.inputs { let (j, k) = (at(s, v.len()), at(s, v.len())); v.swap(j, k) },
        3 => { t.inputs.get_or_insert_with(Vec::new).push(input(s.u8(), s.u8())); t.commits.push(commitment(s.u8(), s.u8())) }
        4 => { let k = other(s, t.commits.len()); let c = commitment(s.u8(), s.u8()); if k < t.commits.len() { t.commits[k] = c } }
        5 => { let (j, k) = (at(s, t.commits.len()), at(s, t.commits.len())); if k < t.commits.len() { t.commits.swap(j, k) } }
        6 | 7 => { let n = t.outputs.iter().flatten().count(); let k = other(s, n); let x = output(s.u8(), s.u8()); if let Some(v) = &mut t.outputs { if k < v.len() { v[k] = x } } }
        8 => { let x = output(s.u8(), s.u8()); if let Some(v) = &mut t.outputs { let k = at(s, v.len() + 1); v.insert(k, x) } }
        9 => if let Some(v) = &mut t.outputs { v.pop(); },
        10 => t.flags = match t.flags { Some(f) if s.below(4) > 0 => Some(f ^ 1 << s.below(128)), Some(_) => None, None => Some(0) },
        _ => t.version = match t.version { Some(_) if s.bool() => None, Some(v) => Some(v ^ 1 << s.below(8)), None => Some(1) },
    }
}
fn compact(n: usize) -> Vec<u8> { if n < 64 { vec![(n as u8) << 2] } else if n < 1 << 14 { ((n as u16) << 2 | 1).to_le_bytes().to_vec() } else { ((n as u32) << 2 | 2).to_le_bytes().to_vec() } }
fn sign(k: usize, m: &H256) -> Signature { keys(k).0.sign_message(m.as_bytes(), &mut Aux).unwrap() }
/// A set of keys of which some are to sign, and who has signed what
#[derive(Debug, Clone)]
struct Multi { need: u8, keys: Vec<usize>, by: BTreeMap<u8, (usize, bool)> }
fn multi(s: &mut impl Src) -> Multi {
    let n = match s.below(24) { 0 => 0, 1 => 33, 2 => 32, _ => 1 + s.below(4) };
    let keys: Vec<usize> = (0..n).map(|i| if s.below(6) == 0 { s.below(5) } else { i % 5 }).collect();
    let need = match s.below(20) { 0 => 0, 1 => n as u8 + 1, _ => 1 + s.below(n.clamp(1, 4)) as u8 };
    let mut by = BTreeMap::new();
    let mut count = need as usize;
    match s.below(8) { 0 => count += 1, 1 => count = count.saturating_sub(1), _ => () }
    for _ in 0..3 * count { if by.len() < count {
        let i = if s.below(40) == 0 { n as u8 } else { s.below(n.max(1)) as u8 };
        let k = if s.below(16) == 0 { s.below(5) } else { keys.get(i as usize).copied().unwrap_or(0) };
        by.insert(i, (k, s.below(30) > 0));
    } }
    Multi { need, keys, by }
}
impl Multi {
    fn challenge(&self) -> ClassicMultisigChallenge {
        let mut b = vec![self.need];
        b.extend(compact(self.keys.len()));
        self.keys.iter().for_each(|k| b.extend(keys(*k).1.encode()));
        ClassicMultisigChallenge::decode_all(&mut &b[..]).expect("a challenge")
    }
    fn valid(&self) -> bool { (1..=32).contains(&self.keys.len()) && self.need >= 1 && self.need as usize <= self.keys.len() }
    fn authorization(&self, m: &H256) -> AuthorizedClassicalMultisigSpend { AuthorizedClassicalMultisigSpend::new(self.by.iter().map(|(i, (k, good))| (*i, sign(*k, &if *good { *m } else { h(1) }))).collect(), self.challenge()) }
    fn fits(&self) -> bool { self.valid() && self.by.keys().all(|i| (*i as usize) < self.keys.len()) && self.by.len() <= self.need as usize }
    fn right(&self) -> bool { self.by.iter().all(|(i, (k, good))| *good && keys(self.keys[*i as usize]).1 == keys(*k).1) }
    fn opens(&self) -> bool { self.fits() && self.by.len() == self.need as usize && self.right() }
}

cases! {
    /// The bytes hashed for a signature are those of the parts its mode commits to
    c33_signed_bytes(s) {
        let t = tx(s);
        let i = s.below(6);
        let m = mode(s);
        inputs!(s, m, i, t);
        let ty = SigHashType::try_from(m).expect("a mode");
        assert!(ty.get() == m && (m != 1 || ty == SigHashType::all()));
        let want = signed_bytes(m, &t, i).map(|v| hashed(&v));
        assert_eq!(signature_hash(ty, &t, &t.commits, i).ok(), want);
        let own: Vec<_> = t.commits.iter().map(|c| c.deep_clone()).collect();
        assert!(own == t.commits);
        // Written with its version, flags, inputs and outputs, a transaction is signed for as such
        if let (Some(1), Some(f), Some(i0), Some(o)) = (t.version, t.flags, t.inputs.clone(), t.outputs.clone()) {
            let n = i0.len();
            let real = Transaction::new(f, i0, o).unwrap();
            assert_eq!(signature_hash(ty, &real, &t.commits, i).ok(), want);
            let signed = SignedTransaction::new(real.clone(), vec![InputWitness::NoSignature(None); n]).unwrap();
            assert_eq!(signature_hash(ty, &signed, &t.commits, i).ok(), want);
            let part = PartiallySignedTransaction::new(real, vec![None; n], vec![None; n], vec![None; n], None, TxAdditionalInfo::new(), PartiallySignedTransactionConsistencyCheck::Basic);
            if let Ok(part) = part { assert_eq!(signature_hash(ty, &part, &t.commits, i).ok(), want) }
        }
        let reward = Tx { version: None, flags: None, ..t.clone() };
        assert_eq!(signature_hash(ty, &BlockRewardTransactable::new(t.inputs.as_deref(), t.outputs.as_deref(), None), &t.commits, i).ok(), signed_bytes(m, &reward, i).map(|v| hashed(&v)));
        let any = s.u8();
        assert_eq!(SigHashType::try_from(any).ok().map(|x| x.get()), [1u8, 2, 3, 0x81, 0x82, 0x83].contains(&any).then_some(any));
    }
    /// What is committed to for each input is the output it spends, and the balances behind it
    c33_commitments(s) {
        let n = s.below(6);
        let ins: Vec<TxInput> = (0..n).map(|_| input(s.u8(), s.u8())).collect();
        let utxos: Vec<Option<TxOutput>> = (0..n + s.below(2)).map(|i| if s.below(24) == 0 { None } else { Some(output(if s.below(3) == 0 { 3 } else { s.u8() }, s.u8() ^ i as u8)) }).collect();
        let utxos = if s.below(16) == 0 { utxos[..n.saturating_sub(1)].to_vec() } else { utxos };
        let balances: BTreeMap<u64, u128> = (0..4).filter_map(|i| (s.below(8) > 0).then(|| (i, s.u64() as u128))).collect();
        let orders: BTreeMap<u64, u8> = (0..4).filter_map(|i| (s.below(8) > 0).then(|| (i, s.u8()))).collect();
        let height = match s.below(4) { 0 => s.below(20) as u64, 1 => FORK, 2 => FORK - 1, _ => s.u64() };
        inputs!(s, height, ins, utxos, balances, orders);
        let pools_map: BTreeMap<PoolId, PoolInfo> = balances.iter().map(|(i, b)| (PoolId::new(h(*i)), PoolInfo { staker_balance: a(*b) })).collect();
        let orders_map: BTreeMap<OrderId, OrderInfo> = orders.iter().map(|(i, x)| (OrderId::new(h(*i)), order(*x))).collect();
        // what a commitment is, as one of its writing; nothing if something it needs is unknown
        let of = |i: usize, v1: bool| -> Option<Vec<u8>> {
            let o = |id: &OrderId| orders_map.get(id).cloned();
            let fill = |id: &OrderId| { let x = o(id)?; Some(if v1 { [&[3], &x.initially_asked.encode()[..], &x.initially_given.encode()].concat() } else { vec![0] }) };
            let conclude = |id: &OrderId| { let x = o(id)?; Some(if v1 { [&[4], &x.initially_asked.encode()[..], &x.initially_given.encode(), &x.ask_balance.encode(), &x.give_balance.encode()].concat() } else { vec![0] }) };
            match &ins[i] {
                TxInput::Utxo(_) => {
                    let u = utxos.get(i)?.clone()?;
                    let plain = [&[1], &u.encode()[..]].concat();
                    match &u { TxOutput::ProduceBlockFromStake(_, p) => { let b = pools_map.get(p)?.staker_balance; Some(if v1 { [&[2], &u.encode()[..], &b.encode()].concat() } else { plain }) } _ => Some(plain) }
                }
                TxInput::AccountCommand(_, AccountCommand::FillOrder(id, _, _)) | TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(id, _)) => fill(id),
                TxInput::AccountCommand(_, AccountCommand::ConcludeOrder(id)) | TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(id)) => conclude(id),
                _ => Some(vec![0]),
            }
        };
        let expected = |v1: bool| -> Option<Vec<Vec<u8>>> { (0..n).map(|i| of(i, v1)).collect() };
        let flat = |v: Vec<Commit>| -> Vec<Vec<u8>> { v.iter().map(|c| { assert_eq!(c.encode(), written(c)); c.encode() }).collect() };
        let provider = TrivialUtxoProvider(&utxos);
        for (v, v1) in [(SighashInputCommitmentVersion::V0, false), (SighashInputCommitmentVersion::V1, true)] {
            assert_eq!(make_sighash_input_commitments_for_transaction_inputs(&ins, &provider, &pools_map, &orders_map, v).ok().map(flat), expected(v1));
        }
        assert_eq!(make_sighash_input_commitments_for_transaction_inputs_at_height(&ins, &provider, &pools_map, &orders_map, forked(), BlockHeight::new(height)).ok().map(flat), expected(height >= FORK));
        // The inputs of a block's reward are outputs, and the whole output is committed to
        let kernel: Option<Vec<Vec<u8>>> = ins.iter().enumerate().map(|(i, x)| match x { TxInput::Utxo(_) => Some([&[1], &utxos.get(i)?.clone()?.encode()[..]].concat()), _ => None }).collect();
        assert_eq!(make_sighash_input_commitments_for_kernel_inputs(&ins, &provider).ok().map(flat), kernel);
        let known: Vec<TxOutput> = utxos.iter().flatten().cloned().collect();
        assert_eq!(flat(make_sighash_input_commitments_for_kernel_input_utxos(&known)), known.iter().map(|u| [&[1], &u.encode()[..]].concat()).collect::<Vec<_>>());
    }
    /// A signature opens the input it was made for, and stops doing so exactly when what it commits to is changed
    c33_sign_and_change(s) {
        let mut t = tx(s);
        let (i, m, k, by_hash, by) = (s.below(6), mode(s), s.below(5), s.bool(), s.below(5));
        let owner = |k: usize| if by_hash { Destination::PublicKeyHash((&keys(k).1).into()) } else { Destination::PublicKey(keys(k).1.clone()) };
        let before = signed_bytes(m, &t, i);
        let made = StandardInputSignature::produce_uniparty_signature_for_input(&keys(by).0, SigHashType::try_from(m).unwrap(), owner(k), &t, &t.commits, i, &mut Aux);
        let was = format!("{t:?}");
        let changes = s.below(3);
        for _ in 0..changes { change(s, &mut t, i) }
        let j = if s.below(4) == 0 { s.below(6) } else { i };
        let other = s.below(4) == 0;
        let m2 = if s.below(6) == 0 { mode(s) } else { m };
        inputs!(s, m, m2, i, j, k, by, by_hash, other, changes, was, t);
        assert_eq!(made.is_ok(), before.is_some() && by == k, "signing");
        if let Ok(w) = made {
            assert!(w.sighash_type().get() == m && StandardInputSignature::from_data(w.encode()).as_ref() == Ok(&w));
            assert_eq!(w.encode(), [&[m], &compact(w.raw_signature().len())[..], w.raw_signature()].concat());
            let d = owner(if other { (k + 1) % 5 } else { k });
            let after = signed_bytes(m2, &t, j);
            let w2 = EvaluatedInputWitness::Standard(StandardInputSignature::new(SigHashType::try_from(m2).unwrap(), w.raw_signature().to_vec()));
            let want = !other && after.is_some() && after == before;
            assert_eq!(verify_signature(chain(), &d, &t, &w2, &t.commits, j).is_ok(), want, "verifying");
            // It is for one kind of owner, and is no message signature
            let swapped = if by_hash { Destination::PublicKey(keys(k).1.clone()) } else { Destination::PublicKeyHash((&keys(k).1).into()) };
            for d in [swapped, Destination::AnyoneCanSpend, Destination::ScriptHash(Id::new(h(1))), Destination::ClassicMultisig((&keys(k).1).into())] {
                assert!(verify_signature(chain(), &d, &t, &w2, &t.commits, j).is_err());
            }
            // A part of it, or more than it, opens nothing
            let mut raw = w.raw_signature().to_vec();
            if s.bool() { raw.pop(); } else { raw.push(0) }
            let w3 = EvaluatedInputWitness::Standard(StandardInputSignature::new(SigHashType::try_from(m2).unwrap(), raw));
            assert!(verify_signature(chain(), &d, &t, &w3, &t.commits, j).is_err());
        }
        let nobody = EvaluatedInputWitness::NoSignature(None);
        assert!(verify_signature(chain(), &owner(k), &t, &nobody, &t.commits, j).is_err());
        assert_eq!(verify_signature(chain(), &Destination::AnyoneCanSpend, &t, &nobody, &t.commits, j).is_ok(), t.inputs.as_ref().is_some_and(|v| j < v.len()));
    }
    /// So many of a set of keys as it asks for, each once and no more, open what the set owns
    c33_multisig(s) {
        let t = tx(s);
        let (i, m, u) = (s.below(2), mode(s), multi(s));
        let (other_set, other_tx, step) = (s.below(12) == 0, s.below(12) == 0, s.below(5) as u8);
        inputs!(s, m, i, u, other_set, other_tx, step, t);
        let c = u.challenge();
        let owner: PublicKeyHash = (&c).into();
        assert_eq!(c.is_valid(chain()).is_ok(), u.valid());
        if let Some(need) = NonZeroU8::new(u.need) { assert_eq!(ClassicMultisigChallenge::new(chain(), need, c.public_keys().to_vec()).ok(), u.valid().then(|| c.clone())) }
        let bytes = signed_bytes(m, &t, i);
        let message = bytes.as_ref().map_or(h(77), |v| hashed(v));
        let auth = u.authorization(&if other_tx { h(5) } else { message });
        let ty = SigHashType::try_from(m).unwrap();
        let w = EvaluatedInputWitness::Standard(StandardInputSignature::new(ty, auth.encode()));
        let d = if other_set { Destination::ClassicMultisig((&Multi { need: u.need ^ 2, ..u.clone() }.challenge()).into()) } else { Destination::ClassicMultisig(owner) };
        assert_eq!(verify_signature(chain(), &d, &t, &w, &t.commits, i).is_ok(), bytes.is_some() && u.opens() && !other_set && !other_tx);
        for d in [Destination::PublicKeyHash(owner), Destination::PublicKey(keys(0).1.clone()), Destination::AnyoneCanSpend] { assert!(verify_signature(chain(), &d, &t, &w, &t.commits, i).is_err()) }
        let plain = Transaction::new(t.flags.unwrap_or(0), t.inputs.clone().unwrap_or_default(), t.outputs.clone().unwrap_or_default()).unwrap();
        let as_tx = Tx { version: Some(1), flags: Some(t.flags.unwrap_or(0)), inputs: Some(t.inputs.clone().unwrap_or_default()), outputs: Some(t.outputs.clone().unwrap_or_default()), commits: t.commits.clone() };
        if let Some(b) = signed_bytes(m, &as_tx, i) {
            let auth = u.authorization(&hashed(&b));
            let made = StandardInputSignature::produce_classical_multisig_signature_for_input(chain(), &auth, ty, &plain, &t.commits, i);
            assert_eq!(made.as_ref().ok().map(|x| x.raw_signature().to_vec()), u.opens().then(|| auth.encode()));
            let htlc = produce_classical_multisig_signature_for_htlc_refunding(chain(), &auth, ty, &plain, &t.commits, i);
            assert_eq!(htlc.ok().map(|x| x.raw_signature().to_vec()), u.opens().then(|| HtlcSpend::Refund(auth.encode()).encode()));
        }
        // Each signature that is added is a new one, of its own key, to a set that is still short of some
        let here = u.authorization(&message);
        let by = s.below(5);
        let added = sign_classical_multisig_spending(chain(), step, &keys(by).0, &c, &message, here.clone(), &mut Aux);
        let can = u.fits() && u.right() && u.by.len() < u.need as usize && !u.by.contains_key(&step) && u.keys.get(step as usize) == Some(&by);
        assert_eq!(added.is_ok(), can);
        if let Ok(x) = added {
            let mut next = u.clone();
            next.by.insert(step, (by, true));
            assert_eq!(x.is_complete(), next.by.len() == next.need as usize);
            let x = x.take();
            assert!(x.challenge() == &c && x.signatures().len() == next.by.len() && here.signatures().iter().all(|(i, g)| x.signatures()[i] == *g) && keys(by).1.verify_message(&x.signatures()[&step], message.as_bytes()));
        }
    }
    /// A signature for an exchange contract carries what else opens it; one of a message opens nothing but the message
    c33_wrapped_and_messages(s) {
        let t = tx(s);
        let (i, m, k, by, by_hash) = (s.below(3), mode(s), s.below(5), if s.bool() { 0 } else { s.below(5) }, s.bool());
        let k = if by == 0 { k % 2 } else { k };
        let n = s.below(80);
        let message = s.bytes(n);
        let kind = s.below(6);
        inputs!(s, m, i, k, by, by_hash, kind, message, t);
        let ty = SigHashType::try_from(m).unwrap();
        let d = if by_hash { Destination::PublicKeyHash((&keys(k).1).into()) } else { Destination::PublicKey(keys(k).1.clone()) };
        let plain = StandardInputSignature::produce_uniparty_signature_for_input(&keys(by).0, ty, d.clone(), &t, &t.commits, i, &mut Aux);
        let secret = HtlcSecret::new([k as u8; 32]);
        let spend = produce_uniparty_signature_for_htlc_spending(&keys(by).0, ty, d.clone(), &t, &t.commits, i, secret, &mut Aux);
        let refund = produce_uniparty_signature_for_htlc_refunding(&keys(by).0, ty, d.clone(), &t, &t.commits, i, &mut Aux);
        let raw = plain.as_ref().ok().map(|p| p.raw_signature().to_vec());
        assert_eq!(spend.ok().map(|x| (x.sighash_type().get(), x.raw_signature().to_vec())), raw.clone().map(|r| (m, [&[0], &[k as u8; 32][..], &compact(r.len()), &r].concat())));
        assert_eq!(refund.ok().map(|x| (x.sighash_type().get(), x.raw_signature().to_vec())), raw.clone().map(|r| (m, [&[1], &compact(r.len())[..], &r].concat())));
        // Messages
        let signed = |v: &[u8]| hashed(&[b"===MINTLAYER MESSAGE BEGIN===\n", v, b"\n===MINTLAYER MESSAGE END==="].concat());
        assert_eq!(produce_message_challenge(&message), signed(&message));
        let made = ArbitraryMessageSignature::produce_uniparty_signature(&keys(by).0, &d, &message, &mut Aux);
        assert_eq!(made.is_ok(), by == k);
        for d in [Destination::AnyoneCanSpend, Destination::ScriptHash(Id::new(h(1))), Destination::ClassicMultisig((&keys(by).1).into())] { assert!(ArbitraryMessageSignature::produce_uniparty_signature(&keys(by).0, &d, &message, &mut Aux).is_err()) }
        let free = ArbitraryMessageSignature::produce_uniparty_signature_as_pub_key_hash_spending(&keys(by).0, &message, &mut Aux).unwrap();
        for (w, at) in made.ok().map(|w| (w, d.clone())).into_iter().chain([(free, Destination::PublicKeyHash((&keys(by).1).into()))]) {
            let mut said = message.clone();
            let mut to = at.clone();
            let mut bytes = w.as_raw().to_vec();
            match kind { 0 => said.push(b' '), 1 => if !said.is_empty() { said[0] ^= 1 } else { said.push(0) }, 2 => to = Destination::PublicKeyHash((&keys((by + 1) % 5).1).into()), 3 => bytes.push(0), 4 => { bytes.pop(); } _ => () }
            let w2 = ArbitraryMessageSignature::from_data(bytes);
            assert_eq!(w2.verify_signature(chain(), &to, &signed(&said)).is_ok(), kind == 5);
            assert_eq!(w2.as_ref().verify_signature(chain(), &to, &signed(&said)).is_ok(), kind == 5);
            assert!(w2.verify_signature(chain(), &Destination::AnyoneCanSpend, &signed(&said)).is_err());
            // A message signature is no signature of a transaction
            let as_input = EvaluatedInputWitness::Standard(StandardInputSignature::new(ty, w.as_raw().to_vec()));
            assert!(verify_signature(chain(), &at, &t, &as_input, &t.commits, i).is_err());
        }
        let u = multi(s);
        let challenge = signed(&message);
        let auth = u.authorization(&challenge);
        assert_eq!(ArbitraryMessageSignature::from_data(auth.encode()).verify_signature(chain(), &Destination::ClassicMultisig((&u.challenge()).into()), &challenge).is_ok(), u.opens());
    }
}
