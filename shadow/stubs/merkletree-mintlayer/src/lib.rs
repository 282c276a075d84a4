//! Offline stand-in for merkletree-mintlayer (git dependency, not available here): the API surface /repo uses.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleTreeFormError { TooSmall(usize) }
impl std::fmt::Display for MerkleTreeFormError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for MerkleTreeFormError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleTreeProofExtractionError { IndexOutOfRange(u32, u32) }
impl std::fmt::Display for MerkleTreeProofExtractionError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for MerkleTreeProofExtractionError {}
pub mod hasher {
    pub trait PairHasher: Clone {
        type NodeType: Clone;
        fn hash_pair(left: &Self::NodeType, right: &Self::NodeType) -> Self::NodeType;
        fn hash_single(data: &Self::NodeType) -> Self::NodeType;
    }
}
pub mod tree {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct MerkleTree<T, H> { pub(crate) levels: Vec<Vec<T>>, _h: std::marker::PhantomData<H> }
    pub struct Node<'a, T>(&'a T);
    impl<'a, T> Node<'a, T> { pub fn hash(&self) -> &'a T { self.0 } }
    impl<T: Clone, H: hasher::PairHasher<NodeType = T>> MerkleTree<T, H> {
        pub fn from_leaves(leaves: impl IntoIterator<Item = T>) -> Result<Self, MerkleTreeFormError> {
            let mut l: Vec<T> = leaves.into_iter().collect();
            if l.is_empty() { return Err(MerkleTreeFormError::TooSmall(0)); }
            while !l.len().is_power_of_two() { let h = H::hash_single(l.last().expect("nonempty")); l.push(h); }
            let mut levels = vec![l];
            while levels.last().expect("nonempty").len() > 1 {
                let n = levels.last().expect("nonempty").chunks(2).map(|c| H::hash_pair(&c[0], &c[1])).collect();
                levels.push(n);
            }
            Ok(Self { levels, _h: std::marker::PhantomData })
        }
        pub fn root(&self) -> T { self.levels.last().expect("nonempty")[0].clone() }
        pub fn node_from_bottom(&self, level: u32, index: u32) -> Option<Node<'_, T>> { self.levels.get(level as usize)?.get(index as usize).map(Node) }
        pub fn leaf_count(&self) -> usize { self.levels[0].len() }
    }
}
pub mod proof { pub mod single {
    use crate::*;
    pub struct SingleProofNodes<'a, T, H> { tree: &'a tree::MerkleTree<T, H>, index: u32 }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct SingleProofHashes<T, H> { leaf_index: u32, branch: Vec<T>, _h: std::marker::PhantomData<H> }
    impl<'a, T: Clone, H: hasher::PairHasher<NodeType = T>> SingleProofNodes<'a, T, H> {
        pub fn from_tree_leaf(tree: &'a tree::MerkleTree<T, H>, index: u32) -> Result<Self, MerkleTreeProofExtractionError> {
            if index as usize >= tree.leaf_count() { return Err(MerkleTreeProofExtractionError::IndexOutOfRange(index, tree.leaf_count() as u32)); }
            Ok(Self { tree, index })
        }
        pub fn into_values(self) -> SingleProofHashes<T, H> {
            let mut i = self.index as usize;
            let mut branch = vec![];
            for l in &self.tree.levels[..self.tree.levels.len() - 1] { branch.push(l[i ^ 1].clone()); i /= 2; }
            SingleProofHashes { leaf_index: self.index, branch, _h: std::marker::PhantomData }
        }
    }
    impl<T: Clone, H> SingleProofHashes<T, H> {
        pub fn branch(&self) -> &[T] { &self.branch }
        pub fn into_hashes(self) -> Vec<T> { self.branch }
    }
} }
