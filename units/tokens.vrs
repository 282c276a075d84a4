// Tokens: the accounting operations, their undo, flushing and storing, over any parent view.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::ops::Neg;
//@ source C tokens-accounting/src/cache.rs
//@ source D tokens-accounting/src/data.rs
//@ source O tokens-accounting/src/operations.rs
//@ source E tokens-accounting/src/error.rs
//@ source B tokens-accounting/src/storage/db.rs
//@ source T common/src/chain/tokens/issuance.rs
//@ path accounting::Error => AccError
//@ path accounting::DataDelta => DataDelta
//@ path accounting::GetDataResult => GetDataResult
//@ path chainstate_types::storage_result::Error => StorageError
//@ path crate::data::TokensAccountingDeltaUndoData => TokensAccountingDeltaUndoData
//@ path crate::error::Result => Result
//@ path crate::Error => Error
//@ path crate::error::Error => Error
//@ path Self::Error => Error
verus! {
global size_of usize == 8;
//@ include amount.vrs
//@ include deltas.vrs
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub type TokenId = u64;
pub struct StorageError { code: u8 }
/// a key, a script hash…: nothing here looks into it
#[verifier::external_body]
pub struct Destination { d: u64 }
//@ enum T TokenTotalSupply
//@ enum T IsTokenFreezable derive Clone,Copy
//@ enum T IsTokenUnfreezable derive Clone,Copy
//@ enum T IsTokenFrozen derive Clone,Copy
//@ enum T TokenIssuance
//@ struct T TokenIssuanceV1
//@ enum E Error
//@ struct D FungibleTokenData
//@ enum D TokenData
//@ struct D TokensAccountingDeltaData
//@ struct D TokensAccountingDeltaUndoData
//@ struct C TokensAccountingCache
//@ struct B TokensAccountingDB
//@ struct O IssueTokenUndo
//@ struct O MintTokenUndo
//@ struct O UnmintTokenUndo
//@ struct O LockSupplyUndo
//@ struct O FreezeTokenUndo
//@ struct O UnfreezeTokenUndo
//@ struct O ChangeTokenAuthorityUndo
//@ struct O ChangeTokenMetadataUriUndo
//@ enum O TokenAccountingUndo
impl vstd::std_specs::convert::FromSpecImpl<AccError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: AccError) -> Error { Error::AccountingError(e) } }
impl core::convert::From<AccError> for Error { fn from(e: AccError) -> (r: Error) { Error::AccountingError(e) } }
impl FungibleTokenData { #[verifier::external_body] pub fn clone(&self) -> (r: FungibleTokenData) ensures r == *self { unimplemented!() } }
impl TokenData { #[verifier::external_body] pub fn clone(&self) -> (r: TokenData) ensures r == *self { unimplemented!() } }

pub trait TokensAccountingView: Sized {
    type Error;
    /// the state that is read (when reading succeeds)
    spec fn token(&self, id: TokenId) -> Option<TokenData>;
    spec fn supply(&self, id: TokenId) -> int;
    fn get_token_data(&self, id: &TokenId) -> (r: Result<Option<TokenData>, Self::Error>) ensures r matches Ok(x) ==> x == self.token(*id);
    fn get_circulating_supply(&self, id: &TokenId) -> (r: Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.supply(*id);
}
pub open spec fn frozen(d: FungibleTokenData) -> bool { d.frozen is Yes }
//@ impl D impl FungibleTokenData
//@ fn new_unchecked
//@|    ensures r == (FungibleTokenData { token_ticker, number_of_decimals, metadata_uri, total_supply, locked, frozen, authority })
//@ fn total_supply
//@|    ensures *r == self.total_supply
//@ fn is_locked
//@|    ensures r == self.locked
//@ fn is_frozen
//@|    ensures r == frozen(*self)
//@ fn can_be_frozen
//@|    ensures r == (self.frozen == IsTokenFrozen::No(IsTokenFreezable::Yes))
//@ fn can_be_unfrozen
//@|    ensures r == (self.frozen == IsTokenFrozen::Yes(IsTokenUnfreezable::Yes))
//@ fn try_lock
//@|    ensures match r { Ok(x) => self.total_supply is Lockable && x == (FungibleTokenData { locked: true, ..self }), Err(x) => !(self.total_supply is Lockable) && x == self }
//@ fn try_freeze
//@|    ensures match r { Ok(x) => self.frozen == IsTokenFrozen::No(IsTokenFreezable::Yes) && x == (FungibleTokenData { frozen: IsTokenFrozen::Yes(is_unfreezable), ..self }), Err(x) => self.frozen != IsTokenFrozen::No(IsTokenFreezable::Yes) && x == self }
//@ fn try_unfreeze
//@|    ensures match r { Ok(x) => self.frozen == IsTokenFrozen::Yes(IsTokenUnfreezable::Yes) && x == (FungibleTokenData { frozen: IsTokenFrozen::No(IsTokenFreezable::Yes), ..self }), Err(x) => self.frozen != IsTokenFrozen::Yes(IsTokenUnfreezable::Yes) && x == self }
//@ fn change_authority
//@|    ensures r == (FungibleTokenData { authority: new_authority, ..self })
//@ fn change_metadata_uri
//@|    ensures r == (FungibleTokenData { metadata_uri: new_metadata_uri, ..self })
//@ endimpl
//@ inherent D impl From<TokenIssuance> for FungibleTokenData
//@ fn from
//@|    ensures ({ let i = issuance->V1_0; r == (FungibleTokenData { token_ticker: i.token_ticker, number_of_decimals: i.number_of_decimals, metadata_uri: i.metadata_uri, total_supply: i.total_supply, locked: false, frozen: IsTokenFrozen::No(i.is_freezable), authority: i.authority }) })
//@ endimpl
//@ impl C impl<P: TokensAccountingView> TokensAccountingView for TokensAccountingCache<P>
    open spec fn token(&self, id: TokenId) -> Option<TokenData> { effect(self.parent.token(id), self.data.token_data.of(id)) }
    open spec fn supply(&self, id: TokenId) -> int { self.parent.supply(id) + self.data.circulating_supply.of(id) }
//@ fn get_token_data
//@ fn get_circulating_supply
//@ . replace self.data.circulating_supply.data().get(id).cloned() =>> vf_cloned(self.data.circulating_supply.data().get(id))
//@ endimpl
/// only the token `id` differs, and is as given
pub open spec fn changed<P: TokensAccountingView>(a: TokensAccountingCache<P>, b: TokensAccountingCache<P>, id: TokenId, t: Option<TokenData>, supply: int) -> bool {
    &&& b.parent == a.parent
    &&& forall|j: TokenId| #[trigger] b.token(j) == (if j == id { t } else { a.token(j) })
    &&& forall|j: TokenId| #[trigger] b.supply(j) == (if j == id { supply } else { a.supply(j) })
}
pub open spec fn same<P: TokensAccountingView>(a: TokensAccountingCache<P>, b: TokensAccountingCache<P>) -> bool { b.parent == a.parent && (forall|j: TokenId| #[trigger] b.token(j) == a.token(j)) && (forall|j: TokenId| #[trigger] b.supply(j) == a.supply(j)) }
pub open spec fn fungible(t: Option<TokenData>) -> FungibleTokenData { t->0->FungibleToken_0 }
/// A supply within its limit
pub open spec fn within<P: TokensAccountingView>(c: TokensAccountingCache<P>, id: TokenId) -> bool { match c.token(id) { Some(TokenData::FungibleToken(d)) => (d.total_supply matches TokenTotalSupply::Fixed(l) ==> c.supply(id) <= l.atoms) && c.supply(id) >= 0, None => c.supply(id) == 0 } }
pub open spec fn rewritten<P: TokensAccountingView>(a: TokensAccountingCache<P>, b: TokensAccountingCache<P>, id: TokenId, d: FungibleTokenData) -> bool { changed(a, b, id, Some(TokenData::FungibleToken(d)), a.supply(id)) }
pub open spec fn back(d: DataDeltaUndo<TokenData>, old: Option<TokenData>, new: FungibleTokenData) -> bool { d.0 == (DataDelta { old: Some(TokenData::FungibleToken(new)), new: old }) }
pub open spec fn undone<P: TokensAccountingView>(a: TokensAccountingCache<P>, b: TokensAccountingCache<P>, u: TokenAccountingUndo) -> bool {
    match u {
        TokenAccountingUndo::IssueToken(u) => changed(a, b, u.id, u.undo_data.0.new, a.supply(u.id)),
        TokenAccountingUndo::MintTokens(u) => changed(a, b, u.id, a.token(u.id), a.supply(u.id) - u.amount_to_add.atoms),
        TokenAccountingUndo::UnmintTokens(u) => changed(a, b, u.id, a.token(u.id), a.supply(u.id) + u.amount_to_burn.atoms),
        TokenAccountingUndo::LockSupply(u) => changed(a, b, u.id, u.undo_data.0.new, a.supply(u.id)),
        TokenAccountingUndo::FreezeToken(u) => changed(a, b, u.id, u.undo_data.0.new, a.supply(u.id)),
        TokenAccountingUndo::UnfreezeToken(u) => changed(a, b, u.id, u.undo_data.0.new, a.supply(u.id)),
        TokenAccountingUndo::ChangeTokenAuthority(u) => changed(a, b, u.id, u.undo_data.0.new, a.supply(u.id)),
        TokenAccountingUndo::ChangeTokenMetadataUri(u) => changed(a, b, u.id, u.undo_data.0.new, a.supply(u.id)),
    }
}
pub open spec fn written(a: TokensAccountingDeltaData, d: TokensAccountingDeltaData, b: TokensAccountingDeltaData) -> bool {
    all_merged(a.token_data, |k: TokenId| d.token_data.of(k), b.token_data) && (forall|k: TokenId| #[trigger] b.circulating_supply.of(k) == a.circulating_supply.of(k) + d.circulating_supply.of(k))
}
//@ impl D impl TokensAccountingDeltaData
//@ fn new
//@|    ensures forall|k: TokenId| #[trigger] r.token_data.of(k) is None, forall|k: TokenId| #[trigger] r.circulating_supply.of(k) == 0
//@ fn merge_with_delta
//@|    ensures r matches Ok(u) ==> written(*old(self), other, *final(self)) && u.circulating_supply == other.circulating_supply
//@|        && (forall|k: TokenId| #[trigger] u.token_data.of(k) == (match other.token_data.of(k) { Some(d) => Some(inverse(d)), None => None }))
//@ endimpl
//@ inherent C impl<P> FlushableTokensAccountingView for TokensAccountingCache<P>
//@ fn batch_write_tokens_data
//@|    ensures final(self).parent == old(self).parent, r is Ok ==> written(old(self).data, delta, final(self).data)
//@ endimpl
/// Writing the changes of a child cache to its parent makes the parent what the child was
fn flush<P: TokensAccountingView>(child: TokensAccountingCache<TokensAccountingCache<P>>) -> (r: Result<TokensAccountingCache<P>>)
    ensures r matches Ok(p) ==> (forall|j: TokenId| #[trigger] p.token(j) == child.token(j)) && (forall|j: TokenId| #[trigger] p.supply(j) == child.supply(j))
{
    let TokensAccountingCache { parent, data } = child;
    let mut parent = parent;
    match parent.batch_write_tokens_data(data) { Ok(_) => Ok(parent), Err(e) => Err(e) }
}
//@ impl C impl<P: TokensAccountingView> TokensAccountingCache<P>
//@ fn new
//@|    ensures r.parent == parent, forall|j: TokenId| #[trigger] r.token(j) == parent.token(j), forall|j: TokenId| #[trigger] r.supply(j) == parent.supply(j)
//@ endimpl
//@ inherent C impl<P: TokensAccountingView> TokensAccountingOperations for TokensAccountingCache<P>
//@ fn issue_token
//@|    ensures r matches Ok(u) ==> old(self).token(id) is None && old(self).supply(id) <= 0 && changed(*old(self), *final(self), id, Some(data), old(self).supply(id))
//@|        && u is IssueToken && u->IssueToken_0.id == id && u->IssueToken_0.undo_data.0 == (DataDelta { old: Some(data), new: None })
//@ fn mint_tokens
//@|    ensures r matches Ok(u) ==> old(self).token(id) is Some && ({ let d = fungible(old(self).token(id)); let n = old(self).supply(id) + amount_to_add.atoms;
//@|        !frozen(d) && (d.total_supply matches TokenTotalSupply::Fixed(l) ==> n <= l.atoms) && (d.total_supply is Lockable ==> !d.locked)
//@|        && changed(*old(self), *final(self), id, old(self).token(id), n)
//@|        && u is MintTokens && u->MintTokens_0.id == id && u->MintTokens_0.amount_to_add == amount_to_add && (within(*old(self), id) ==> within(*final(self), id)) })
//@ fn unmint_tokens
//@|    ensures r matches Ok(u) ==> old(self).token(id) is Some && ({ let d = fungible(old(self).token(id)); let n = old(self).supply(id) - amount_to_burn.atoms;
//@|        !frozen(d) && !d.locked && n >= 0 && changed(*old(self), *final(self), id, old(self).token(id), n)
//@|        && u is UnmintTokens && u->UnmintTokens_0.id == id && u->UnmintTokens_0.amount_to_burn == amount_to_burn && (within(*old(self), id) ==> within(*final(self), id)) })
//@ fn lock_circulating_supply
//@|    ensures r matches Ok(u) ==> old(self).token(id) is Some && ({ let d = fungible(old(self).token(id)); let n = FungibleTokenData { locked: true, ..d };
//@|        !frozen(d) && !d.locked && d.total_supply is Lockable && rewritten(*old(self), *final(self), id, n)
//@|        && u is LockSupply && u->LockSupply_0.id == id && back(u->LockSupply_0.undo_data, old(self).token(id), n) })
//@ fn freeze_token
//@|    ensures r matches Ok(u) ==> old(self).token(id) is Some && ({ let d = fungible(old(self).token(id)); let n = FungibleTokenData { frozen: IsTokenFrozen::Yes(is_unfreezable), ..d };
//@|        d.frozen == IsTokenFrozen::No(IsTokenFreezable::Yes) && rewritten(*old(self), *final(self), id, n)
//@|        && u is FreezeToken && u->FreezeToken_0.id == id && back(u->FreezeToken_0.undo_data, old(self).token(id), n) })
//@ fn unfreeze_token
//@|    ensures r matches Ok(u) ==> old(self).token(id) is Some && ({ let d = fungible(old(self).token(id)); let n = FungibleTokenData { frozen: IsTokenFrozen::No(IsTokenFreezable::Yes), ..d };
//@|        d.frozen == IsTokenFrozen::Yes(IsTokenUnfreezable::Yes) && rewritten(*old(self), *final(self), id, n)
//@|        && u is UnfreezeToken && u->UnfreezeToken_0.id == id && back(u->UnfreezeToken_0.undo_data, old(self).token(id), n) })
//@ fn change_authority
//@|    ensures r matches Ok(u) ==> old(self).token(id) is Some && ({ let d = fungible(old(self).token(id)); let n = FungibleTokenData { authority: new_authority, ..d };
//@|        !frozen(d) && rewritten(*old(self), *final(self), id, n)
//@|        && u is ChangeTokenAuthority && u->ChangeTokenAuthority_0.id == id && back(u->ChangeTokenAuthority_0.undo_data, old(self).token(id), n) })
//@ fn change_metadata_uri
//@|    ensures r matches Ok(u) ==> old(self).token(id) is Some && ({ let d = fungible(old(self).token(id)); let n = FungibleTokenData { metadata_uri: new_metadata_uri, ..d };
//@|        !frozen(d) && rewritten(*old(self), *final(self), id, n)
//@|        && u is ChangeTokenMetadataUri && u->ChangeTokenMetadataUri_0.id == id && back(u->ChangeTokenMetadataUri_0.undo_data, old(self).token(id), n) })
//@ fn undo
//@|    ensures r is Ok ==> undone(*old(self), *final(self), undo_data)
//@ endimpl
/// Undoing leaves the state as it was
fn issue_undo<P: TokensAccountingView>(c: &mut TokensAccountingCache<P>, id: TokenId, d: TokenData) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.issue_token(id, d) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn mint_undo<P: TokensAccountingView>(c: &mut TokensAccountingCache<P>, id: TokenId, a: Amount) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.mint_tokens(id, a) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn unmint_undo<P: TokensAccountingView>(c: &mut TokensAccountingCache<P>, id: TokenId, a: Amount) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.unmint_tokens(id, a) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn lock_undo<P: TokensAccountingView>(c: &mut TokensAccountingCache<P>, id: TokenId) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.lock_circulating_supply(id) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn freeze_undo<P: TokensAccountingView>(c: &mut TokensAccountingCache<P>, id: TokenId, x: IsTokenUnfreezable) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.freeze_token(id, x) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn unfreeze_undo<P: TokensAccountingView>(c: &mut TokensAccountingCache<P>, id: TokenId) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.unfreeze_token(id) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn authority_undo<P: TokensAccountingView>(c: &mut TokensAccountingCache<P>, id: TokenId, x: Destination) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.change_authority(id, x) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn uri_undo<P: TokensAccountingView>(c: &mut TokensAccountingCache<P>, id: TokenId, x: Vec<u8>) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.change_metadata_uri(id, x) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }

/// a store of what is known of tokens
pub trait TokensAccountingStorageWrite: Sized {
    type Error;
    spec fn token(&self, id: TokenId) -> Option<TokenData>;
    spec fn supply(&self, id: TokenId) -> Option<Amount>;
    fn get_token_data(&self, id: &TokenId) -> (r: Result<Option<TokenData>, Self::Error>) ensures r matches Ok(x) ==> x == self.token(*id);
    fn get_circulating_supply(&self, id: &TokenId) -> (r: Result<Option<Amount>, Self::Error>) ensures r matches Ok(x) ==> x == self.supply(*id);
    fn set_token_data(&mut self, id: &TokenId, data: &TokenData) -> (r: Result<(), Self::Error>) ensures r is Ok ==> (forall|j: TokenId| #[trigger] final(self).token(j) == (if j == *id { Some(*data) } else { old(self).token(j) })) && (forall|j: TokenId| #[trigger] final(self).supply(j) == old(self).supply(j));
    fn del_token_data(&mut self, id: &TokenId) -> (r: Result<(), Self::Error>) ensures r is Ok ==> (forall|j: TokenId| #[trigger] final(self).token(j) == (if j == *id { None } else { old(self).token(j) })) && (forall|j: TokenId| #[trigger] final(self).supply(j) == old(self).supply(j));
    fn set_circulating_supply(&mut self, id: &TokenId, supply: &Amount) -> (r: Result<(), Self::Error>) ensures r is Ok ==> (forall|j: TokenId| #[trigger] final(self).token(j) == old(self).token(j)) && (forall|j: TokenId| #[trigger] final(self).supply(j) == (if j == *id { Some(*supply) } else { old(self).supply(j) }));
    fn del_circulating_supply(&mut self, id: &TokenId) -> (r: Result<(), Self::Error>) ensures r is Ok ==> (forall|j: TokenId| #[trigger] final(self).token(j) == old(self).token(j)) && (forall|j: TokenId| #[trigger] final(self).supply(j) == (if j == *id { None } else { old(self).supply(j) }));
}
pub open spec fn undo_at(m: Map<TokenId, DataDeltaUndo<TokenData>>, k: TokenId) -> Option<DataDelta<TokenData>> { if m.contains_key(k) { Some(m[k].0) } else { None } }
pub open spec fn atoms(a: Option<Amount>) -> int { match a { Some(x) => x.atoms as int, None => 0 } }
pub open spec fn amount_or_none(x: int) -> Option<Amount> { if x > 0 { Some(Amount { atoms: x as u128 }) } else { None } }
//@ impl B impl<S: TokensAccountingStorageWrite> TokensAccountingDB<S>
//@ fn merge_with_delta
//@ . opt fornext
//@ . replace delta.neg() =>> (-delta)
//@|    ensures r matches Ok(u) ==> (forall|k: TokenId| #[trigger] final(self).0.token(k) == effect(old(self).0.token(k), other.token_data.of(k)))
//@|        && (forall|k: TokenId| (#[trigger] other.token_data.of(k)) is Some ==> old(self).0.token(k) == other.token_data.of(k)->0.old)
//@|        && (forall|k: TokenId| #[trigger] final(self).0.supply(k) == (if other.circulating_supply.of(k) == 0 && final(self).0.supply(k) == old(self).0.supply(k) { old(self).0.supply(k) } else { amount_or_none(atoms(old(self).0.supply(k)) + other.circulating_supply.of(k)) }))
//@|        && (forall|k: TokenId| #[trigger] u.circulating_supply.of(k) == -other.circulating_supply.of(k))
//@|        && (forall|k: TokenId| #[trigger] u.token_data.of(k) == (match other.token_data.of(k) { Some(d) => Some(inverse(d)), None => None }))
//@ . loop 0
//@|    invariant forall|k: TokenId| #[trigger] vf_it0.rest().contains_key(k) ==> other.token_data.of(k) == Some(vf_it0.rest()[k]),
//@|        forall|k: TokenId| #[trigger] self.0.token(k) == (if vf_it0.rest().contains_key(k) { old(self).0.token(k) } else { effect(old(self).0.token(k), other.token_data.of(k)) }),
//@|        forall|k: TokenId| #[trigger] self.0.supply(k) == old(self).0.supply(k),
//@|        forall|k: TokenId| (#[trigger] other.token_data.of(k)) is Some && !vf_it0.rest().contains_key(k) ==> old(self).0.token(k) == other.token_data.of(k)->0.old,
//@|        forall|k: TokenId| #![trigger vf_m.map().contains_key(k)] undo_at(vf_m.map(), k) == (if vf_it0.rest().contains_key(k) { None } else { match other.token_data.of(k) { Some(d) => Some(inverse(d)), None => None } }),
//@|    ensures vf_it0.rest() == Map::<TokenId, DataDelta<TokenData>>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ . loop 1
//@|    invariant forall|k: TokenId| #[trigger] vf_it1.rest().contains_key(k) ==> other.circulating_supply.of(k) == vf_it1.rest()[k].val,
//@|        forall|k: TokenId| #[trigger] self.0.token(k) == effect(old(self).0.token(k), other.token_data.of(k)),
//@|        forall|k: TokenId| #[trigger] self.0.supply(k) == (if vf_it1.rest().contains_key(k) || (other.circulating_supply.of(k) == 0 && self.0.supply(k) == old(self).0.supply(k)) { old(self).0.supply(k) } else { amount_or_none(atoms(old(self).0.supply(k)) + other.circulating_supply.of(k)) }),
//@|        forall|k: TokenId| #![trigger vf_m.map().contains_key(k)] sum_of(vf_m.map(), k) == (if vf_it1.rest().contains_key(k) { 0 } else { -other.circulating_supply.of(k) }),
//@|    ensures vf_it1.rest() == Map::<TokenId, SignedAmount>::empty()
//@|    decreases vf_it1.rest().dom().len()
//@ endimpl
}
fn main() {}
