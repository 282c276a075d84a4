/// std's iterators over slices and vectors
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T> { k: &'a [T] }
pub trait VfSlice<T> { fn vf_iter(&self) -> (r: SliceIter<'_, T>) ensures r.rest() == self.seq(); spec fn seq(&self) -> Seq<T>; }
impl<T> VfSlice<T> for [T] { open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_iter(&self) -> (r: SliceIter<'_, T>) { unimplemented!() } }
impl<'a, T> SliceIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    pub fn vf_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<&'a T>) ensures match r { Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ListIter<T> { k: Vec<T> }
impl<T> ListIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    pub fn vf_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn vf_next(&mut self) -> (r: Option<T>) ensures match r { Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_rev(self) -> (r: Self) ensures r.rest() == self.rest().reverse() { unimplemented!() }
}
pub trait VfList<T>: Sized { fn vf_list(self) -> (r: ListIter<T>) ensures r.rest() == self.items(); spec fn items(&self) -> Seq<T>; }
impl<T> VfList<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_list(self) -> (r: ListIter<T>) { unimplemented!() } }
impl<T, const N: usize> VfList<T> for [T; N] { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_list(self) -> (r: ListIter<T>) { unimplemented!() } }
pub trait VfExtend<T> { fn vf_extend(&mut self, it: ListIter<T>); }
impl<T> VfExtend<T> for Vec<T> { #[verifier::external_body] fn vf_extend(&mut self, it: ListIter<T>) ensures final(self)@ == old(self)@ + it.rest() { unimplemented!() } }
