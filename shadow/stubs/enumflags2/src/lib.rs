//! Stand-in for the crate of this name: sets of the variants of an enum (only what storage/failing uses).
pub use enumflags2_derive::bitflags;
use std::marker::PhantomData;
pub trait Flag: Copy + 'static { const LIST: &'static [Self]; fn bit(self) -> u64; }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct BitFlags<T>(u64, PhantomData<T>);
impl<T: Flag> BitFlags<T> {
    pub const ALL: Self = Self((1 << T::LIST.len()) - 1, PhantomData);
    pub fn is_empty(&self) -> bool { self.0 == 0 }
    pub fn iter(&self) -> std::vec::IntoIter<T> { T::LIST.iter().copied().filter(|x| self.0 & x.bit() != 0).collect::<Vec<_>>().into_iter() }
}
impl<T: Flag> From<T> for BitFlags<T> { fn from(x: T) -> Self { Self(x.bit(), PhantomData) } }
impl<T: Flag> FromIterator<T> for BitFlags<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { Self(i.into_iter().fold(0, |a, x| a | x.bit()), PhantomData) } }
