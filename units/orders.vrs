// Orders: what a fill gives, and the accounting of orders, over any parent view.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
//@ source P orders-accounting/src/price_calculation.rs
//@ source D orders-accounting/src/data.rs
//@ source C orders-accounting/src/cache.rs
//@ source O orders-accounting/src/operations.rs
//@ source E orders-accounting/src/error.rs
//@ source B orders-accounting/src/storage/db.rs
//@ source L orders-accounting/src/lib.rs
//@ source V common/src/chain/transaction/output/output_value.rs
//@ source X common/src/chain/upgrades/chainstate_upgrade/mod.rs
//@ path accounting::Error => AccError
//@ path accounting::DataDelta => DataDelta
//@ path accounting::GetDataResult => GetDataResult
//@ path crate::Error => Error
//@ path crate::output_value_amount => output_value_amount
//@ path error::Result => Result
//@ path crate::error::Error => Error
verus! {
global size_of usize == 8;
//@ include amount.vrs
//@ include deltas.vrs
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub type OrderId = u64;
/// a key, a script hash…: nothing here looks into it
#[verifier::external_body]
pub struct Destination { d: u64 }
#[verifier::external_body]
pub struct TokenData { d: u64 }
pub type TokenId = u64;
//@ enum V OutputValue
//@ enum X OrdersVersion
//@ enum E Error
//@ struct D OrderData
//@ struct D OrdersAccountingDeltaData
//@ struct O CreateOrderUndo
//@ struct O ConcludeOrderUndo
//@ struct O FillOrderUndo
//@ struct O FreezeOrderUndo
//@ enum O OrdersAccountingUndo
//@ struct D OrdersAccountingDeltaUndoData
//@ struct C OrdersAccountingCache
impl vstd::std_specs::convert::FromSpecImpl<AccError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: AccError) -> Error { Error::AccountingError(e) } }
impl core::convert::From<AccError> for Error { fn from(e: AccError) -> (r: Error) { Error::AccountingError(e) } }
impl OrderData { #[verifier::external_body] pub fn clone(&self) -> (r: OrderData) ensures r == *self { unimplemented!() } }

/// The numbers of 256 bits: the contracts proved in the unit uint256
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Uint256 { w: u64 }
pub uninterp spec fn of256(x: int) -> Uint256;
pub open spec fn max256() -> int { (u128::MAX + 1) * (u128::MAX + 1) }
#[verifier::external_body]
pub broadcast proof fn of256_num(x: int) requires 0 <= x < max256() ensures (#[trigger] of256(x)).num() == x { }
impl Uint256 {
    pub uninterp spec fn num(&self) -> int;
    #[verifier::external_body]
    pub fn from_u128(x: u128) -> (r: Uint256) ensures r.num() == x { unimplemented!() }
}
impl core::ops::Mul<Uint256> for Uint256 { type Output = Option<Uint256>;
    #[verifier::external_body] fn mul(self, o: Uint256) -> (r: Option<Uint256>) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Uint256> for Uint256 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Uint256) -> bool { true }
    open spec fn mul_spec(self, o: Uint256) -> Option<Uint256> { if self.num() * o.num() < max256() { Some(of256(self.num() * o.num())) } else { None } }
}
impl core::ops::Div<Uint256> for Uint256 { type Output = Option<Uint256>;
    #[verifier::external_body] fn div(self, o: Uint256) -> (r: Option<Uint256>) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<Uint256> for Uint256 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Uint256) -> bool { true }
    open spec fn div_spec(self, o: Uint256) -> Option<Uint256> { if o.num() != 0 { Some(of256(self.num() / o.num())) } else { None } }
}
impl VfTryInto<u128> for Uint256 {
    open spec fn vf_into(self) -> Option<u128> { if self.num() <= u128::MAX { Some(self.num() as u128) } else { None } }
    #[verifier::external_body] fn vf_try_into(self) -> (r: core::result::Result<u128, ()>) { unimplemented!() }
}

/// The value of an order's side, if it can have one
pub open spec fn value_of(v: OutputValue) -> Option<int> { match v { OutputValue::Coin(a) => Some(a.atoms as int), OutputValue::TokenV1(_, a) => Some(a.atoms as int), OutputValue::TokenV0(_) => None } }
/// What filling gives: the share of `give` that `fill` is of `ask`, rounded down
pub open spec fn share(ask: int, give: int, fill: int) -> int { (give * fill) / ask }
proof fn product(a: int, b: int) requires 0 <= a <= u128::MAX, 0 <= b <= u128::MAX ensures 0 <= a * b < max256() { assert(0 <= a * b <= u128::MAX * u128::MAX) by (nonlinear_arith) requires 0 <= a <= u128::MAX, 0 <= b <= u128::MAX; }
proof fn quotient(a: int, b: int) requires 0 <= a, 0 < b ensures 0 <= a / b <= a { assert(0 <= a / b <= a) by (nonlinear_arith) requires 0 <= a, 0 < b; }
//@ fn L output_value_amount
//@|    ensures match r { Ok(a) => value_of(*value) == Some(a.atoms as int), Err(_) => value_of(*value) is None }
//@ fn P calculate_filled_amount
//@ . method try_into => vf_try_into
//@|    ensures r == (if ask_amount.atoms != 0 && share(ask_amount.atoms as int, give_amount.atoms as int, fill_amount_in_ask_currency.atoms as int) <= u128::MAX { Some(Amount { atoms: share(ask_amount.atoms as int, give_amount.atoms as int, fill_amount_in_ask_currency.atoms as int) as u128 }) } else { None })
//@ . proof start
//@|    broadcast use of256_num;
//@|    proof { let (a, g, f) = (ask_amount.atoms as int, give_amount.atoms as int, fill_amount_in_ask_currency.atoms as int); product(g, f); if a > 0 { quotient(g * f, a); } }

pub trait OrdersAccountingView: Sized {
    type Error;
    /// the state that is read (when reading succeeds)
    spec fn order(&self, id: OrderId) -> Option<OrderData>;
    spec fn ask(&self, id: OrderId) -> int;
    spec fn give(&self, id: OrderId) -> int;
    fn get_order_data(&self, id: &OrderId) -> (r: Result<Option<OrderData>, Self::Error>) ensures r matches Ok(x) ==> x == self.order(*id);
    fn get_ask_balance(&self, id: &OrderId) -> (r: Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.ask(*id);
    fn get_give_balance(&self, id: &OrderId) -> (r: Result<Amount, Self::Error>) ensures r matches Ok(x) ==> x.atoms == self.give(*id);
}
//@ impl D impl OrderData
//@ fn conclude_key
//@|    ensures *r == self.conclude_key
//@ fn ask
//@|    ensures *r == self.ask
//@ fn give
//@|    ensures *r == self.give
//@ fn is_frozen
//@|    ensures r == self.is_frozen
//@ fn try_freeze
//@|    ensures match r { Ok(x) => !self.is_frozen && x == (OrderData { is_frozen: true, ..self }), Err(x) => self.is_frozen && x == self }
//@ endimpl
/// the amounts that a fill uses: of the remaining balances before, of the order itself since
pub open spec fn filled(v: OrdersVersion, o: OrderData, ask: int, give: int, fill: int) -> int { match v { OrdersVersion::V0 => share(ask, give, fill), OrdersVersion::V1 => share(value_of(o.ask)->0, value_of(o.give)->0, fill) } }
//@ fn P calculate_fill_order_based_on_remaining_balances
//@|    ensures r matches Ok(x) ==> fill_amount_in_ask_currency.atoms <= view.ask(order_id) && view.ask(order_id) > 0 && x.atoms == share(view.ask(order_id), view.give(order_id), fill_amount_in_ask_currency.atoms as int)
//@ fn P calculate_fill_order_based_on_original_price
//@|    ensures r matches Ok(x) ==> view.order(order_id) is Some && ({ let o = view.order(order_id)->0;
//@|        fill_amount_in_ask_currency.atoms <= view.ask(order_id) && value_of(o.ask) is Some && value_of(o.give) is Some && value_of(o.ask)->0 > 0 && x.atoms > 0 && x.atoms == share(value_of(o.ask)->0, value_of(o.give)->0, fill_amount_in_ask_currency.atoms as int) })
//@ fn P calculate_fill_order
//@|    ensures r matches Ok(x) ==> ({ let (o, a, g, f) = (view.order(order_id)->0, view.ask(order_id), view.give(order_id), fill_amount_in_ask_currency.atoms as int);
//@|        f <= a && (orders_version is V1 ==> view.order(order_id) is Some && x.atoms > 0 && value_of(o.ask) is Some && value_of(o.give) is Some && value_of(o.ask)->0 > 0) && (orders_version is V0 ==> a > 0) && x.atoms == filled(orders_version, o, a, g, f) })
//@ impl C impl<P: OrdersAccountingView> OrdersAccountingView for OrdersAccountingCache<P>
    open spec fn order(&self, id: OrderId) -> Option<OrderData> { effect(self.parent.order(id), self.data.order_data.of(id)) }
    open spec fn ask(&self, id: OrderId) -> int { self.parent.ask(id) + self.data.ask_balances.of(id) }
    open spec fn give(&self, id: OrderId) -> int { self.parent.give(id) + self.data.give_balances.of(id) }
//@ fn get_order_data
//@ fn get_ask_balance
//@ . replace self.data.ask_balances.data().get(id).cloned() =>> vf_cloned(self.data.ask_balances.data().get(id))
//@ fn get_give_balance
//@ . replace self.data.give_balances.data().get(id).cloned() =>> vf_cloned(self.data.give_balances.data().get(id))
//@ endimpl
//@ impl D impl OrdersAccountingDeltaData
//@ fn new
//@|    ensures forall|k: OrderId| #[trigger] r.order_data.of(k) is None, forall|k: OrderId| #[trigger] r.ask_balances.of(k) == 0, forall|k: OrderId| #[trigger] r.give_balances.of(k) == 0
//@ endimpl
/// only the order `id` differs, and is as given
pub open spec fn changed<P: OrdersAccountingView>(a: OrdersAccountingCache<P>, b: OrdersAccountingCache<P>, id: OrderId, o: Option<OrderData>, ask: int, give: int) -> bool {
    &&& b.parent == a.parent
    &&& forall|j: OrderId| #[trigger] b.order(j) == (if j == id { o } else { a.order(j) })
    &&& forall|j: OrderId| #[trigger] b.ask(j) == (if j == id { ask } else { a.ask(j) })
    &&& forall|j: OrderId| #[trigger] b.give(j) == (if j == id { give } else { a.give(j) })
}
pub open spec fn same<P: OrdersAccountingView>(a: OrdersAccountingCache<P>, b: OrdersAccountingCache<P>) -> bool {
    b.parent == a.parent && forall|j: OrderId| #[trigger] b.order(j) == a.order(j) && b.ask(j) == a.ask(j) && b.give(j) == a.give(j)
}
/// What an order holds is enough for all of its ask at its price
pub open spec fn covers(o: OrderData, ask: int, give: int) -> bool {
    value_of(o.ask) is Some && value_of(o.give) is Some && value_of(o.ask)->0 > 0 && value_of(o.give)->0 > 0
        && 0 <= ask <= value_of(o.ask)->0 && 0 <= give <= value_of(o.give)->0 && give * value_of(o.ask)->0 >= ask * value_of(o.give)->0
}
pub open spec fn order_ok<P: OrdersAccountingView>(c: OrdersAccountingCache<P>, id: OrderId) -> bool { match c.order(id) { Some(o) => covers(o, c.ask(id), c.give(id)), None => c.ask(id) == 0 && c.give(id) == 0 } }
/// However an order is filled, it can give what is asked of it, and stays able to
proof fn fill_keeps(v: OrdersVersion, o: OrderData, a: int, g: int, f: int)
    requires covers(o, a, g), 0 <= f <= a, a > 0
    ensures 0 <= filled(v, o, a, g, f) <= g, covers(o, a - f, g - filled(v, o, a, g, f)), f == a && v is V0 ==> filled(v, o, a, g, f) == g
{
    let (a0, g0, x) = (value_of(o.ask)->0, value_of(o.give)->0, filled(v, o, a, g, f));
    match v {
        OrdersVersion::V1 => {
            let p = g0 * f;
            assert(p >= 0) by (nonlinear_arith) requires p == g0 * f, g0 > 0, f >= 0;
            assert(x * a0 <= p && 0 <= x) by (nonlinear_arith) requires x == p / a0, a0 > 0, p >= 0;
            assert((g - x) * a0 >= (a - f) * g0) by (nonlinear_arith) requires x * a0 <= g0 * f, g * a0 >= a * g0;
            assert((a - f) * g0 >= 0) by (nonlinear_arith) requires a >= f, g0 > 0;
            assert(g - x >= 0) by (nonlinear_arith) requires (g - x) * a0 >= 0, a0 > 0;
        }
        OrdersVersion::V0 => {
            let p = g * f;
            assert(p >= 0) by (nonlinear_arith) requires p == g * f, g >= 0, f >= 0;
            assert(x * a <= p && 0 <= x) by (nonlinear_arith) requires x == p / a, a > 0, p >= 0;
            let y = g - x;
            assert(y * a >= g * (a - f)) by (nonlinear_arith) requires x * a <= g * f, y == g - x;
            assert(g * (a - f) >= 0) by (nonlinear_arith) requires g >= 0, a >= f;
            assert(y >= 0) by (nonlinear_arith) requires y * a >= 0, a > 0;
            let (n, m, d) = (g * a0, a * g0, a - f);
            assert(n * d >= m * d) by (nonlinear_arith) requires n >= m, d >= 0;
            assert(n * d == g * d * a0) by (nonlinear_arith) requires n == g * a0;
            assert(y * a * a0 >= g * d * a0) by (nonlinear_arith) requires y * a >= g * d, a0 > 0;
            let (l, r) = (y * a0, g0 * d);
            assert(y * a * a0 == l * a) by (nonlinear_arith) requires l == y * a0;
            assert(m * d == r * a) by (nonlinear_arith) requires m == a * g0, r == g0 * d;
            assert(l >= r) by (nonlinear_arith) requires l * a >= r * a, a > 0;
            assert(r == d * g0) by (nonlinear_arith) requires r == g0 * d;
            if f == a { assert(x == g) by (nonlinear_arith) requires x == (g * a) / a, a > 0; }
        }
    }
}
//@ impl D impl OrdersAccountingDeltaData
//@ fn merge_with_delta
//@|    ensures r matches Ok(u) ==> all_merged(old(self).order_data, |k: OrderId| other.order_data.of(k), final(self).order_data)
//@|        && (forall|k: OrderId| #[trigger] final(self).ask_balances.of(k) == old(self).ask_balances.of(k) + other.ask_balances.of(k))
//@|        && (forall|k: OrderId| #[trigger] final(self).give_balances.of(k) == old(self).give_balances.of(k) + other.give_balances.of(k))
//@|        && u.ask_balances == other.ask_balances && u.give_balances == other.give_balances
//@|        && (forall|k: OrderId| #[trigger] u.order_data.of(k) == (match other.order_data.of(k) { Some(d) => Some(inverse(d)), None => None }))
//@ endimpl
//@ inherent C impl<P> FlushableOrdersAccountingView for OrdersAccountingCache<P>
//@ fn batch_write_orders_data
//@|    ensures r is Ok ==> final(self).parent == old(self).parent && all_merged(old(self).data.order_data, |k: OrderId| delta.order_data.of(k), final(self).data.order_data)
//@|        && (forall|k: OrderId| #[trigger] final(self).data.ask_balances.of(k) == old(self).data.ask_balances.of(k) + delta.ask_balances.of(k))
//@|        && (forall|k: OrderId| #[trigger] final(self).data.give_balances.of(k) == old(self).data.give_balances.of(k) + delta.give_balances.of(k))
//@ endimpl
/// Writing the changes of a child cache to its parent makes the parent what the child was
fn flush<P: OrdersAccountingView>(child: OrdersAccountingCache<OrdersAccountingCache<P>>) -> (r: Result<OrdersAccountingCache<P>>)
    ensures r matches Ok(p) ==> forall|j: OrderId| #[trigger] p.order(j) == child.order(j) && p.ask(j) == child.ask(j) && p.give(j) == child.give(j)
{
    let OrdersAccountingCache { parent, data } = child;
    let mut parent = parent;
    match parent.batch_write_orders_data(data) { Ok(_) => Ok(parent), Err(e) => Err(e) }
}
//@ inherent C impl<P: OrdersAccountingView> OrdersAccountingOperations for OrdersAccountingCache<P>
//@ fn create_order
//@|    ensures r matches Ok(u) ==> old(self).order(id) is None && old(self).ask(id) == 0 && value_of(data.ask) is Some && value_of(data.give) is Some && value_of(data.ask)->0 > 0 && value_of(data.give)->0 > 0
//@|        && changed(*old(self), *final(self), id, Some(data), value_of(data.ask)->0, old(self).give(id) + value_of(data.give)->0)
//@|        && u is CreateOrder && u->CreateOrder_0.id == id && u->CreateOrder_0.undo_data.0 == (DataDelta { old: Some(data), new: None }) && u->CreateOrder_0.ask_balance.atoms == value_of(data.ask)->0 && u->CreateOrder_0.give_balance.atoms == value_of(data.give)->0
//@ fn conclude_order
//@|    ensures r matches Ok(u) ==> old(self).order(id) is Some && changed(*old(self), *final(self), id, None, 0, 0)
//@|        && u is ConcludeOrder && u->ConcludeOrder_0.id == id && u->ConcludeOrder_0.undo_data.0 == (DataDelta { old: None, new: old(self).order(id) }) && u->ConcludeOrder_0.ask_balance.atoms == old(self).ask(id) && u->ConcludeOrder_0.give_balance.atoms == old(self).give(id)
//@ fn fill_order
//@|    ensures r matches Ok(u) ==> old(self).order(id) is Some && !old(self).order(id)->0.is_frozen
//@|        && ({ let (o, a, g, f) = (old(self).order(id)->0, old(self).ask(id), old(self).give(id), fill_amount_in_ask_currency.atoms as int); let x = filled(orders_version, o, a, g, f);
//@|            f <= a && changed(*old(self), *final(self), id, Some(o), a - f, g - x)
//@|            && u is FillOrder && u->FillOrder_0.id == id && u->FillOrder_0.ask_balance.atoms == f && u->FillOrder_0.give_balance.atoms == x
//@|            && (orders_version is V1 ==> x > 0)
//@|            && (order_ok(*old(self), id) ==> 0 <= x <= g && order_ok(*final(self), id)) })
//@ . proof end
//@|    proof { let (o, a, g, f) = (old(self).order(id)->0, old(self).ask(id), old(self).give(id), fill_amount_in_ask_currency.atoms as int); if order_ok(*old(self), id) { if a > 0 { fill_keeps(orders_version, o, a, g, f); } else { let (g0, a0) = (value_of(o.give)->0, value_of(o.ask)->0); assert(share(a0, g0, 0) == 0) by { assert(g0 * 0 == 0); } } } }
//@ fn freeze_order
//@|    ensures r matches Ok(u) ==> old(self).order(id) is Some && !old(self).order(id)->0.is_frozen && changed(*old(self), *final(self), id, Some(OrderData { is_frozen: true, ..old(self).order(id)->0 }), old(self).ask(id), old(self).give(id))
//@|        && u is FreezeOrder && u->FreezeOrder_0.id == id && u->FreezeOrder_0.undo_data.0 == (DataDelta { old: Some(OrderData { is_frozen: true, ..old(self).order(id)->0 }), new: old(self).order(id) })
//@ fn undo
//@|    ensures r is Ok ==> undone(*old(self), *final(self), undo_data)
//@ endimpl
//@ impl C impl<P: OrdersAccountingView> OrdersAccountingCache<P>
//@ fn new
//@|    ensures r.parent == parent, forall|j: OrderId| #[trigger] r.order(j) == parent.order(j) && r.ask(j) == parent.ask(j) && r.give(j) == parent.give(j)
//@ fn undo_create_order
//@|    ensures r is Ok ==> undone(*old(self), *final(self), OrdersAccountingUndo::CreateOrder(undo))
//@ fn undo_conclude_order
//@|    ensures r is Ok ==> undone(*old(self), *final(self), OrdersAccountingUndo::ConcludeOrder(undo))
//@ fn undo_fill_order
//@|    ensures r is Ok ==> undone(*old(self), *final(self), OrdersAccountingUndo::FillOrder(undo))
//@ fn undo_freeze_order
//@|    ensures r is Ok ==> undone(*old(self), *final(self), OrdersAccountingUndo::FreezeOrder(undo))
//@ endimpl
pub open spec fn undone<P: OrdersAccountingView>(a: OrdersAccountingCache<P>, b: OrdersAccountingCache<P>, u: OrdersAccountingUndo) -> bool {
    match u {
        OrdersAccountingUndo::CreateOrder(u) => changed(a, b, u.id, u.undo_data.0.new, 0, 0) && a.order(u.id) is Some && a.ask(u.id) == u.ask_balance.atoms && a.give(u.id) == u.give_balance.atoms,
        OrdersAccountingUndo::ConcludeOrder(u) => changed(a, b, u.id, u.undo_data.0.new, u.ask_balance.atoms as int, u.give_balance.atoms as int) && a.order(u.id) is None && a.ask(u.id) == 0 && a.give(u.id) == 0,
        OrdersAccountingUndo::FillOrder(u) => changed(a, b, u.id, a.order(u.id), a.ask(u.id) + u.ask_balance.atoms, a.give(u.id) + u.give_balance.atoms),
        OrdersAccountingUndo::FreezeOrder(u) => changed(a, b, u.id, u.undo_data.0.new, a.ask(u.id), a.give(u.id)) && a.order(u.id) is Some,
    }
}
/// Undoing leaves the state as it was
fn fill_undo<P: OrdersAccountingView>(c: &mut OrdersAccountingCache<P>, id: OrderId, f: Amount, v: OrdersVersion) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.fill_order(id, f, v) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn freeze_undo<P: OrdersAccountingView>(c: &mut OrdersAccountingCache<P>, id: OrderId) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.freeze_order(id) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn conclude_undo<P: OrdersAccountingView>(c: &mut OrdersAccountingCache<P>, id: OrderId) -> (r: Result<()>) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.conclude_order(id) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
fn create_undo<P: OrdersAccountingView>(c: &mut OrdersAccountingCache<P>, id: OrderId, d: OrderData) -> (r: Result<()>) requires order_ok(*old(c), id) ensures r is Ok ==> same(*old(c), *final(c)) { let u = match c.create_order(id, d) { Ok(u) => u, Err(e) => return Err(e) }; c.undo(u) }
/// An order is in order from its creation on
fn create_ok<P: OrdersAccountingView>(c: &mut OrdersAccountingCache<P>, id: OrderId, d: OrderData) -> (r: Result<OrdersAccountingUndo>) requires order_ok(*old(c), id) ensures r is Ok ==> order_ok(*final(c), id) {
    let r = c.create_order(id, d);
    proof { if r is Ok { let (a0, g0) = (value_of(d.ask)->0, value_of(d.give)->0); assert(g0 * a0 == a0 * g0) by (nonlinear_arith); } }
    r
}
/// a store of what is known of orders
pub trait OrdersAccountingStorageWrite: Sized {
    type Error;
    spec fn order(&self, id: OrderId) -> Option<OrderData>;
    spec fn ask(&self, id: OrderId) -> Option<Amount>;
    spec fn give(&self, id: OrderId) -> Option<Amount>;
    fn get_order_data(&self, id: &OrderId) -> (r: Result<Option<OrderData>, Self::Error>) ensures r matches Ok(x) ==> x == self.order(*id);
    fn set_order_data(&mut self, id: &OrderId, v: &OrderData) -> (r: Result<(), Self::Error>) ensures r is Ok ==> (forall|j: OrderId| #[trigger] final(self).order(j) == (if j == *id { Some(*v) } else { old(self).order(j) })) && (forall|j: OrderId| #[trigger] final(self).ask(j) == old(self).ask(j)) && (forall|j: OrderId| #[trigger] final(self).give(j) == old(self).give(j));
    fn del_order_data(&mut self, id: &OrderId) -> (r: Result<(), Self::Error>) ensures r is Ok ==> (forall|j: OrderId| #[trigger] final(self).order(j) == (if j == *id { None } else { old(self).order(j) })) && (forall|j: OrderId| #[trigger] final(self).ask(j) == old(self).ask(j)) && (forall|j: OrderId| #[trigger] final(self).give(j) == old(self).give(j));
    fn get_ask_balance(&self, id: &OrderId) -> (r: Result<Option<Amount>, Self::Error>) ensures r matches Ok(x) ==> x == self.ask(*id);
    fn set_ask_balance(&mut self, id: &OrderId, v: &Amount) -> (r: Result<(), Self::Error>) ensures r is Ok ==> (forall|j: OrderId| #[trigger] final(self).order(j) == old(self).order(j)) && (forall|j: OrderId| #[trigger] final(self).ask(j) == (if j == *id { Some(*v) } else { old(self).ask(j) })) && (forall|j: OrderId| #[trigger] final(self).give(j) == old(self).give(j));
    fn del_ask_balance(&mut self, id: &OrderId) -> (r: Result<(), Self::Error>) ensures r is Ok ==> (forall|j: OrderId| #[trigger] final(self).order(j) == old(self).order(j)) && (forall|j: OrderId| #[trigger] final(self).ask(j) == (if j == *id { None } else { old(self).ask(j) })) && (forall|j: OrderId| #[trigger] final(self).give(j) == old(self).give(j));
    fn get_give_balance(&self, id: &OrderId) -> (r: Result<Option<Amount>, Self::Error>) ensures r matches Ok(x) ==> x == self.give(*id);
    fn set_give_balance(&mut self, id: &OrderId, v: &Amount) -> (r: Result<(), Self::Error>) ensures r is Ok ==> (forall|j: OrderId| #[trigger] final(self).order(j) == old(self).order(j)) && (forall|j: OrderId| #[trigger] final(self).ask(j) == old(self).ask(j)) && (forall|j: OrderId| #[trigger] final(self).give(j) == (if j == *id { Some(*v) } else { old(self).give(j) }));
    fn del_give_balance(&mut self, id: &OrderId) -> (r: Result<(), Self::Error>) ensures r is Ok ==> (forall|j: OrderId| #[trigger] final(self).order(j) == old(self).order(j)) && (forall|j: OrderId| #[trigger] final(self).ask(j) == old(self).ask(j)) && (forall|j: OrderId| #[trigger] final(self).give(j) == (if j == *id { None } else { old(self).give(j) }));
}
pub open spec fn undo_at(m: Map<OrderId, DataDeltaUndo<OrderData>>, k: OrderId) -> Option<DataDelta<OrderData>> { if m.contains_key(k) { Some(m[k].0) } else { None } }
pub open spec fn atoms(a: Option<Amount>) -> int { match a { Some(x) => x.atoms as int, None => 0 } }
pub open spec fn amount_or_none(x: int) -> Option<Amount> { if x > 0 { Some(Amount { atoms: x as u128 }) } else { None } }
/// what is stored after a sum changed: a balance, or nothing for none; untouched if the change is none
pub open spec fn summed(a: Option<Amount>, d: int, b: Option<Amount>) -> bool { (d == 0 && b == a) || b == amount_or_none(atoms(a) + d) }
//@ struct B OrdersAccountingDB
//@ impl B impl<S: OrdersAccountingStorageWrite> OrdersAccountingDB<S>
//@ fn merge_with_delta
//@ . opt fornext
//@ . replace delta.neg() =>> (-delta)
//@|    ensures r matches Ok(u) ==> (forall|k: OrderId| #[trigger] final(self).0.order(k) == effect(old(self).0.order(k), other.order_data.of(k)))
//@|        && (forall|k: OrderId| (#[trigger] other.order_data.of(k)) is Some ==> old(self).0.order(k) == other.order_data.of(k)->0.old)
//@|        && (forall|k: OrderId| summed(old(self).0.ask(k), other.ask_balances.of(k), #[trigger] final(self).0.ask(k)))
//@|        && (forall|k: OrderId| summed(old(self).0.give(k), other.give_balances.of(k), #[trigger] final(self).0.give(k)))
//@|        && (forall|k: OrderId| #[trigger] u.ask_balances.of(k) == -other.ask_balances.of(k)) && (forall|k: OrderId| #[trigger] u.give_balances.of(k) == -other.give_balances.of(k))
//@|        && (forall|k: OrderId| #[trigger] u.order_data.of(k) == (match other.order_data.of(k) { Some(d) => Some(inverse(d)), None => None }))
//@ . loop 0
//@|    invariant forall|k: OrderId| #[trigger] vf_it0.rest().contains_key(k) ==> other.order_data.of(k) == Some(vf_it0.rest()[k]),
//@|        forall|k: OrderId| #[trigger] self.0.order(k) == (if vf_it0.rest().contains_key(k) { old(self).0.order(k) } else { effect(old(self).0.order(k), other.order_data.of(k)) }),
//@|        forall|k: OrderId| #[trigger] self.0.ask(k) == old(self).0.ask(k), forall|k: OrderId| #[trigger] self.0.give(k) == old(self).0.give(k),
//@|        forall|k: OrderId| (#[trigger] other.order_data.of(k)) is Some && !vf_it0.rest().contains_key(k) ==> old(self).0.order(k) == other.order_data.of(k)->0.old,
//@|        forall|k: OrderId| #![trigger vf_m.map().contains_key(k)] undo_at(vf_m.map(), k) == (if vf_it0.rest().contains_key(k) { None } else { match other.order_data.of(k) { Some(d) => Some(inverse(d)), None => None } }),
//@|    ensures vf_it0.rest() == Map::<OrderId, DataDelta<OrderData>>::empty()
//@|    decreases vf_it0.rest().dom().len()
//@ . loop 1
//@|    invariant forall|k: OrderId| #[trigger] vf_it1.rest().contains_key(k) ==> other.ask_balances.of(k) == vf_it1.rest()[k].val,
//@|        forall|k: OrderId| #[trigger] self.0.order(k) == effect(old(self).0.order(k), other.order_data.of(k)),
//@|        forall|k: OrderId| if vf_it1.rest().contains_key(k) { self.0.ask(k) == old(self).0.ask(k) } else { summed(old(self).0.ask(k), other.ask_balances.of(k), #[trigger] self.0.ask(k)) },
//@|        forall|k: OrderId| #![trigger vf_m.map().contains_key(k)] sum_of(vf_m.map(), k) == (if vf_it1.rest().contains_key(k) { 0 } else { -other.ask_balances.of(k) }),
//@|        forall|k: OrderId| #[trigger] self.0.give(k) == old(self).0.give(k),
//@|    ensures vf_it1.rest() == Map::<OrderId, SignedAmount>::empty()
//@|    decreases vf_it1.rest().dom().len()
//@ . loop 2
//@|    invariant forall|k: OrderId| #[trigger] vf_it2.rest().contains_key(k) ==> other.give_balances.of(k) == vf_it2.rest()[k].val,
//@|        forall|k: OrderId| #[trigger] self.0.order(k) == effect(old(self).0.order(k), other.order_data.of(k)),
//@|        forall|k: OrderId| if vf_it2.rest().contains_key(k) { self.0.give(k) == old(self).0.give(k) } else { summed(old(self).0.give(k), other.give_balances.of(k), #[trigger] self.0.give(k)) },
//@|        forall|k: OrderId| #![trigger vf_m.map().contains_key(k)] sum_of(vf_m.map(), k) == (if vf_it2.rest().contains_key(k) { 0 } else { -other.give_balances.of(k) }),
//@|        forall|k: OrderId| summed(old(self).0.ask(k), other.ask_balances.of(k), #[trigger] self.0.ask(k)),
//@|    ensures vf_it2.rest() == Map::<OrderId, SignedAmount>::empty()
//@|    decreases vf_it2.rest().dom().len()
//@ endimpl
}
fn main() {}
