//! The hashing interface of rs_merkle; romeo builds its trees itself.
pub trait Hasher: Clone {
    type Hash: Copy + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>>;

    fn hash(data: &[u8]) -> Self::Hash;

    fn concat_and_hash(left: &Self::Hash, right: Option<&Self::Hash>) -> Self::Hash {
        let mut all: Vec<u8> = (*left).into();
        match right {
            Some(r) => {
                let mut r: Vec<u8> = (*r).into();
                all.append(&mut r);
                Self::hash(&all)
            }
            None => *left,
        }
    }
    fn hash_size() -> usize {
        std::mem::size_of::<Self::Hash>()
    }
}
