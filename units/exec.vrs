// The stacks of the script interpreter: the nesting of conditionals and the access to elements from the top, for all depths.
use vstd::prelude::*;
use core::ops::Range;
//@ source I script/src/interpreter.rs
//@ source E script/src/error.rs
verus! {
//@ path crate::Result => VfResult
pub type VfResult<T> = Result<T, Error>;
//@ enum E Error
//@ struct I ExecStack
/// How many of the enclosing branches are not taken
pub open spec fn idle(s: Seq<bool>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { idle(s.drop_last()) + (if s.last() { 0nat } else { 1nat }) } }
pub open spec fn all_taken(s: Seq<bool>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] }
proof fn idle_of_all_taken(s: Seq<bool>) ensures idle(s) == 0 <==> all_taken(s), idle(s) <= s.len() decreases s.len() {
    if s.len() > 0 { idle_of_all_taken(s.drop_last()); assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == s[i]); assert(s.last() == s[s.len() - 1]);
        if all_taken(s) { assert(all_taken(s.drop_last())); } }
}
impl ExecStack { pub open spec fn ok(self) -> bool { self.num_idle == idle(self.stack@) } }
//@ impl I impl ExecStack
//@ fn push
//@|    requires old(self).ok(), old(self).stack@.len() < usize::MAX
//@|    ensures final(self).ok(), final(self).stack@ == old(self).stack@.push(executing)
//@ . proof start
//@|    proof { idle_of_all_taken(self.stack@); assert(self.stack@.push(executing).drop_last() =~= self.stack@); }
//@ fn pop
//@ . opt option
//@|    requires old(self).ok()
//@|    ensures final(self).ok(), match r { Some(b) => old(self).stack@.len() > 0 && b == old(self).stack@.last() && final(self).stack@ == old(self).stack@.drop_last(), None => old(self).stack@.len() == 0 && final(self).stack@ == old(self).stack@ }
//@ fn executing
//@|    requires self.ok()
//@|    ensures r == all_taken(self.stack@)
//@ . proof start
//@|    proof { idle_of_all_taken(self.stack@); }
//@ fn is_empty
//@|    ensures r == (self.stack@.len() == 0)
//@ endimpl

pub type Item<'a> = &'a [u8];
//@ struct I Stack
//@ impl I impl<'a> Stack<'a>
//@ fn len
//@|    ensures r == self.0@.len()
//@ fn at_least
//@|    ensures match r { Ok(l) => l == self.0@.len() && l >= num, Err(e) => self.0@.len() < num && e == Error::NotEnoughElementsOnStack }
//@ fn pop
//@|    ensures match r { Ok(x) => old(self).0@.len() > 0 && x == old(self).0@.last() && final(self).0@ == old(self).0@.drop_last(), Err(e) => old(self).0@.len() == 0 && e == Error::NotEnoughElementsOnStack && final(self).0@ == old(self).0@ }
//@ fn push
//@|    ensures final(self).0@ == old(self).0@.push(item)
//@ fn top
//@|    requires idx < usize::MAX
//@|    ensures match r { Ok(x) => idx < self.0@.len() && *x == self.0@[self.0@.len() - 1 - idx], Err(e) => idx >= self.0@.len() && e == Error::NotEnoughElementsOnStack }
//@ fn top_range -> res
//@|    requires r.start <= r.end
//@|    ensures match res { Ok(x) => r.end <= self.0@.len() && x.start == self.0@.len() - r.end && x.end == self.0@.len() - r.start, Err(e) => self.0@.len() < r.end && e == Error::NotEnoughElementsOnStack }
//@ fn drop
//@|    ensures match r { Ok(_) => num_drop <= old(self).0@.len() && final(self).0@ == old(self).0@.take(old(self).0@.len() - num_drop), Err(e) => old(self).0@.len() < num_drop && final(self).0@ == old(self).0@ && e == Error::NotEnoughElementsOnStack }
//@ fn remove
//@|    requires n < usize::MAX
//@|    ensures match r { Ok(x) => n < old(self).0@.len() && x == old(self).0@[old(self).0@.len() - 1 - n] && final(self).0@ == old(self).0@.remove(old(self).0@.len() - 1 - n), Err(e) => n >= old(self).0@.len() && final(self).0@ == old(self).0@ && e == Error::NotEnoughElementsOnStack }
//@ endimpl
} // verus!
fn main() {}
