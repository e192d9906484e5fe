//! the block types of mock runtimes
use std::marker::PhantomData;
pub type MockUncheckedExtrinsic<T, S = (), E = ()> = OpaqueExtrinsic<(T, S, E)>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OpaqueExtrinsic<T>(PhantomData<T>);
pub struct MockBlock<T>(PhantomData<T>);
impl<T> crate::HeaderProvider for MockBlock<T> {
    type HeaderT = sp_runtime::generic::Header<u64, sp_runtime::traits::BlakeTwo256>;
    type Number = u64;
}
pub struct MockBlockU32<T>(PhantomData<T>);
impl<T> crate::HeaderProvider for MockBlockU32<T> {
    type HeaderT = sp_runtime::generic::Header<u32, sp_runtime::traits::BlakeTwo256>;
    type Number = u32;
}
impl<X: sp_runtime::traits::MaybeSerialize> crate::HeaderProvider
    for sp_runtime::generic::Block<sp_runtime::generic::Header<u32, sp_runtime::traits::BlakeTwo256>, X>
{
    type HeaderT = sp_runtime::generic::Header<u32, sp_runtime::traits::BlakeTwo256>;
    type Number = u32;
}
impl<X: sp_runtime::traits::MaybeSerialize> crate::HeaderProvider
    for sp_runtime::generic::Block<sp_runtime::generic::Header<u64, sp_runtime::traits::BlakeTwo256>, X>
{
    type HeaderT = sp_runtime::generic::Header<u64, sp_runtime::traits::BlakeTwo256>;
    type Number = u64;
}
