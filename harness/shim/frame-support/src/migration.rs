//! the storage of pallets by name
pub fn storage_prefix(pallet: &[u8], storage: &[u8]) -> [u8; 32] {
    crate::storage::storage_prefix(pallet, storage)
}
pub fn clear_storage_prefix(
    module: &[u8],
    item: &[u8],
    hash: &[u8],
    maybe_limit: Option<u32>,
    _maybe_cursor: Option<&[u8]>,
) -> sp_io::MultiRemovalResults {
    let mut p = storage_prefix(module, item).to_vec();
    p.extend_from_slice(hash);
    crate::storage::unhashed::clear_prefix(&p, maybe_limit, None)
}
pub fn get_storage_value<T: codec::Decode>(module: &[u8], item: &[u8], hash: &[u8]) -> Option<T> {
    let mut p = storage_prefix(module, item).to_vec();
    p.extend_from_slice(hash);
    crate::storage::unhashed::get(&p)
}
pub fn put_storage_value<T: codec::Encode>(module: &[u8], item: &[u8], hash: &[u8], v: T) {
    let mut p = storage_prefix(module, item).to_vec();
    p.extend_from_slice(hash);
    crate::storage::unhashed::put(&p, &v)
}
