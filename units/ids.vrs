/// an identifier (a hash) of a T
#[verifier::reject_recursive_types(T)]
pub struct VfId<T> { pub x: u64, pub t: core::marker::PhantomData<T> }
pub type Id<T> = VfId<T>;
impl<T> Copy for VfId<T> { }
impl<T> Clone for VfId<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> PartialEqSpecImpl for VfId<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &VfId<T>) -> bool { *self == *o } }
impl<T> PartialEq for VfId<T> { #[verifier::external_body] fn eq(&self, o: &VfId<T>) -> (r: bool) { self.x == o.x } }
