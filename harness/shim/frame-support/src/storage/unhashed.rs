use codec::{Decode, Encode};

pub fn get_raw(key: &[u8]) -> Option<Vec<u8>> {
    sp_io::storage::get(key).map(|b| b.to_vec())
}
/// a value that does not decode is taken for absent, as in FRAME
pub fn get<T: Decode>(key: &[u8]) -> Option<T> {
    let b = sp_io::storage::get(key)?;
    match T::decode(&mut &b[..]) {
        Ok(v) => Some(v),
        Err(e) => {
            log::error!("Corrupted state at {:?}: {}", key, e);
            None
        }
    }
}
pub fn get_or_default<T: Decode + Default>(key: &[u8]) -> T {
    get(key).unwrap_or_default()
}
pub fn put<T: Encode + ?Sized>(key: &[u8], v: &T) {
    v.using_encoded(|b| sp_io::storage::set(key, b))
}
pub fn put_raw(key: &[u8], v: &[u8]) {
    sp_io::storage::set(key, v)
}
pub fn exists(key: &[u8]) -> bool {
    sp_io::storage::exists(key)
}
pub fn kill(key: &[u8]) {
    sp_io::storage::clear(key)
}
pub fn take<T: Decode>(key: &[u8]) -> Option<T> {
    let v = get(key);
    if v.is_some() {
        kill(key)
    }
    v
}
pub fn clear_prefix(prefix: &[u8], limit: Option<u32>, _cursor: Option<&[u8]>) -> sp_io::MultiRemovalResults {
    // keys written in the current block count too: the state machine's own limit does not
    let mut n = 0;
    let mut loops = 0;
    let mut more = false;
    while let Some(k) = next(prefix, prefix) {
        if limit.map_or(false, |l| n >= l) {
            more = true;
            break;
        }
        kill(&k);
        n += 1;
        loops += 1;
    }
    if exists(prefix) && limit.map_or(true, |l| n < l) {
        kill(prefix);
        n += 1;
    }
    sp_io::MultiRemovalResults { maybe_cursor: more.then(|| prefix.to_vec()), backend: n, unique: n, loops }
}
/// the key after `key` with `prefix`
pub fn next(prefix: &[u8], key: &[u8]) -> Option<Vec<u8>> {
    sp_io::storage::next_key(key).filter(|k| k.starts_with(prefix))
}
