//! The two runtimes, cut down to the pallets that are here.
#![allow(unused_imports)]

/// what the rest of a runtime supplies
#[macro_export]
macro_rules! runtime {
    ($name:ident, $file:literal) => {
        pub mod $name {
            #![allow(dead_code, clippy::all, ambiguous_glob_reexports)]
            use $crate::runtime_common;
            #[allow(unused_imports)]
            use {frame_support::traits::{Currency as _, Get as _, Imbalance as _}, sp_runtime::traits::AccountIdConversion as _};
            pub mod weights {}
            pub type Block = sp_runtime::generic::Block<sp_runtime::generic::Header<BlockNumber, sp_runtime::traits::BlakeTwo256>, sp_runtime::OpaqueExtrinsic>;
            pub type UncheckedExtrinsic = sp_runtime::testing::TestXt<RuntimeCall, ()>;
            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct BalanceWrapper<B> {
                pub amount: B,
            }
            impl frame_system::Config for Runtime {
                type BaseCallFilter = frame_support::traits::Everything;
                type BlockWeights = ();
                type BlockLength = ();
                type DbWeight = frame_support::weights::constants::RocksDbWeight;
                type RuntimeOrigin = RuntimeOrigin;
                type RuntimeCall = RuntimeCall;
                type Nonce = primitives::Nonce;
                type Block = Block;
                type Hash = sp_core::H256;
                type Hashing = sp_runtime::traits::BlakeTwo256;
                type AccountId = AccountId;
                type Lookup = sp_runtime::traits::IdentityLookup<AccountId>;
                type RuntimeEvent = RuntimeEvent;
                type BlockHashCount = ();
                type Version = ();
                type PalletInfo = PalletInfo;
                type AccountData = ();
                type OnNewAccount = ();
                type OnKilledAccount = ();
                type SystemWeightInfo = ();
                type SS58Prefix = ();
                type OnSetCode = ();
                type MaxConsumers = frame_support::traits::ConstU32<16>;
            }
            impl pallet_authorship::Config for Runtime {
                type FindAuthor = Author;
                type EventHandler = NoOne;
            }
            pub struct NoOne;
            impl pallet_authorship::EventHandler<AccountId, BlockNumber> for NoOne {
                fn note_author(_: AccountId) {}
            }
            std::thread_local! {
                static AUTHOR: std::cell::RefCell<Option<AccountId>> = std::cell::RefCell::new(None);
            }
            pub fn set_author(a: Option<AccountId>) {
                AUTHOR.with(|x| *x.borrow_mut() = a)
            }
            /// the author of the block, as the case says
            pub struct Author;
            impl frame_support::traits::FindAuthor<AccountId> for Author {
                fn find_author<'a, I>(_: I) -> Option<AccountId>
                where
                    I: 'a + IntoIterator<Item = (frame_support::ConsensusEngineId, &'a [u8])>,
                {
                    AUTHOR.with(|x| x.borrow().clone())
                }
            }
            include!(concat!(env!("OUT_DIR"), $file));
        }
    };
}
runtime!(kintsugi, "/kintsugi.rs");
runtime!(interlay, "/interlay.rs");
