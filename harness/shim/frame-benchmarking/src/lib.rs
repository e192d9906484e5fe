//! what mock runtimes use of the benchmarking library
use codec::{Decode, Encode};
pub fn account<A: Decode>(name: &'static str, index: u32, seed: u32) -> A {
    let e = (name, index, seed).using_encoded(sp_io::hashing::blake2_256);
    A::decode(&mut sp_runtime::traits::TrailingZeroInput::new(&e)).expect("zeroes are an account")
}
pub fn whitelisted_caller<A: Decode>() -> A {
    account("whitelisted_caller", 0, 0)
}
