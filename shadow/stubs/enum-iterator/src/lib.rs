//! Offline stand-in for enum-iterator (not in the registry cache): unit enums only.
pub use enum_iterator_derive::Sequence;
pub trait Sequence: Sized + Clone + 'static {
    const ALL: &'static [Self];
    fn next(&self) -> Option<Self> {
        let k = Self::ALL.iter().position(|x| std::mem::discriminant(x) == std::mem::discriminant(self))?;
        Self::ALL.get(k + 1).cloned()
    }
    fn first() -> Option<Self> { Self::ALL.first().cloned() }
    fn last() -> Option<Self> { Self::ALL.last().cloned() }
}
pub fn all<T: Sequence>() -> impl Iterator<Item = T> { T::ALL.iter().cloned() }
