pub mod transactional;
pub mod types;
pub mod unhashed;
pub use sp_runtime::TransactionOutcome;
pub use transactional::{in_storage_layer, with_storage_layer, with_transaction, with_transaction_unchecked};
pub mod bounded_vec {
    pub use sp_core::bounded::bounded_vec::*;
}
pub mod bounded_btree_map {
    pub use sp_core::bounded::bounded_btree_map::*;
}
pub mod bounded_btree_set {
    pub use sp_core::bounded::bounded_btree_set::*;
}
pub mod migration {
    pub use crate::migration::*;
}

pub fn storage_prefix(pallet: &[u8], storage: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 32];
    k[..16].copy_from_slice(&sp_io::hashing::twox_128(pallet));
    k[16..].copy_from_slice(&sp_io::hashing::twox_128(storage));
    k
}

#[doc(hidden)]
pub trait StorageList {}

/// values whose encoding can be extended by one item at the end
pub trait StorageAppend<Item: codec::Encode> {}
impl<T: codec::Encode> StorageAppend<T> for Vec<T> {}
/// values whose length can be read from the start of the encoding
pub trait StorageDecodeLength: codec::DecodeLength {
    fn decode_len(key: &[u8]) -> Option<usize> {
        let mut data = [0u8; 5];
        let len = sp_io::storage::read(key, &mut data, 0)?;
        let len = data.len().min(len as usize);
        <Self as codec::DecodeLength>::len(&data[..len]).ok()
    }
}
impl<T> StorageDecodeLength for Vec<T> {}
impl<T, S> StorageDecodeLength for sp_core::bounded::BoundedVec<T, S> {}
impl<T, S> StorageDecodeLength for sp_core::bounded::WeakBoundedVec<T, S> {}

pub trait StorageTryAppend<Item>: StorageDecodeLength {
    fn bound() -> usize;
}
impl<T, S: crate::traits::Get<u32>> StorageTryAppend<T> for sp_core::bounded::BoundedVec<T, S> {
    fn bound() -> usize {
        S::get() as usize
    }
}
impl<T, S: crate::traits::Get<u32>> StorageTryAppend<T> for sp_core::bounded::WeakBoundedVec<T, S> {
    fn bound() -> usize {
        S::get() as usize
    }
}
