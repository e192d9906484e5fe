//! storage hashers
use sp_io::hashing::{blake2_128, blake2_256, twox_128, twox_256, twox_64};

pub trait StorageHasher: 'static {
    type Output: AsRef<[u8]>;
    fn hash(x: &[u8]) -> Self::Output;
}
/// hashers whose output ends with the key itself
pub trait ReversibleStorageHasher: StorageHasher {
    fn reverse(x: &[u8]) -> &[u8];
}

pub struct Identity;
impl StorageHasher for Identity {
    type Output = Vec<u8>;
    fn hash(x: &[u8]) -> Vec<u8> {
        x.to_vec()
    }
}
impl ReversibleStorageHasher for Identity {
    fn reverse(x: &[u8]) -> &[u8] {
        x
    }
}
pub struct Twox64Concat;
impl StorageHasher for Twox64Concat {
    type Output = Vec<u8>;
    fn hash(x: &[u8]) -> Vec<u8> {
        twox_64(x).iter().chain(x.iter()).cloned().collect()
    }
}
impl ReversibleStorageHasher for Twox64Concat {
    fn reverse(x: &[u8]) -> &[u8] {
        x.get(8..).unwrap_or(&[])
    }
}
pub struct Blake2_128Concat;
impl StorageHasher for Blake2_128Concat {
    type Output = Vec<u8>;
    fn hash(x: &[u8]) -> Vec<u8> {
        blake2_128(x).iter().chain(x.iter()).cloned().collect()
    }
}
impl ReversibleStorageHasher for Blake2_128Concat {
    fn reverse(x: &[u8]) -> &[u8] {
        x.get(16..).unwrap_or(&[])
    }
}
macro_rules! plain {
    ($($n:ident $f:ident $l:expr;)*) => {$(
        pub struct $n;
        impl StorageHasher for $n {
            type Output = [u8; $l];
            fn hash(x: &[u8]) -> [u8; $l] { $f(x) }
        }
    )*};
}
plain! {
    Blake2_128 blake2_128 16;
    Blake2_256 blake2_256 32;
    Twox128 twox_128 16;
    Twox256 twox_256 32;
}
