//! What the pallet harnesses share: the usual parts of a mock runtime, a transaction around a call, exact rationals.
pub use codec;
pub use frame_support;
pub use frame_system;
pub use num_bigint::{self, BigInt};
pub use num_traits::{Signed, ToPrimitive, Zero};
pub use orml_tokens;
pub use orml_traits;
pub use scale_info;
pub use sp_arithmetic;
pub use sp_core;
pub use sp_io;
pub use sp_runtime;
use frame_support::storage::{with_transaction, TransactionOutcome};
use sp_runtime::{DispatchError, FixedPointNumber};

pub type Rat = num_rational::BigRational;

pub fn rat<N: Into<BigInt>>(n: N) -> Rat {
    Rat::from_integer(n.into())
}
pub fn ratio<N: Into<BigInt>, D: Into<BigInt>>(n: N, d: D) -> Rat {
    Rat::new(n.into(), d.into())
}
/// the value of a fixed point number
pub fn fx<F: FixedPointNumber>(f: F) -> Rat
where
    F::Inner: Into<BigInt>,
{
    Rat::new(f.into_inner().into(), F::DIV.into())
}
/// 10^-18
pub fn ulp() -> Rat {
    ratio(1, 1_000_000_000_000_000_000u64)
}
pub fn floor_u128(r: &Rat) -> u128 {
    r.floor().to_integer().to_u128().unwrap_or(u128::MAX)
}
pub fn show(r: &Rat) -> String {
    format!("{:.6}", r.to_f64().unwrap_or(f64::NAN))
}

/// run a call as the runtime would: nothing of a failed one stays
pub fn tx<R, E: From<DispatchError>>(f: impl FnOnce() -> Result<R, E>) -> Result<R, E> {
    with_transaction(|| match f() {
        Ok(r) => TransactionOutcome::Commit(Ok(r)),
        Err(e) => TransactionOutcome::Rollback(Err(e)),
    })
}
/// run a call and take everything back
pub fn dry<R>(f: impl FnOnce() -> R) -> R {
    with_transaction(|| TransactionOutcome::Rollback(Ok::<_, DispatchError>(f()))).unwrap()
}

pub fn storage_root() -> Vec<u8> {
    sp_io::storage::root(sp_runtime::StateVersion::V1)
}

#[macro_export]
macro_rules! mock_system {
    ($rt:ident, $acc:ty, $nonce:ty, $block:ty) => {
        $crate::frame_support::parameter_types! {
            pub const BlockHashCount: u64 = 250;
            pub const SS58Prefix: u8 = 42;
        }
        impl frame_system::Config for $rt {
            type BaseCallFilter = $crate::frame_support::traits::Everything;
            type BlockWeights = ();
            type BlockLength = ();
            type DbWeight = ();
            type RuntimeOrigin = RuntimeOrigin;
            type RuntimeCall = RuntimeCall;
            type Nonce = $nonce;
            type Block = $block;
            type Hash = $crate::sp_core::H256;
            type Hashing = $crate::sp_runtime::traits::BlakeTwo256;
            type AccountId = $acc;
            type Lookup = $crate::sp_runtime::traits::IdentityLookup<Self::AccountId>;
            type RuntimeEvent = RuntimeEvent;
            type BlockHashCount = BlockHashCount;
            type Version = ();
            type PalletInfo = PalletInfo;
            type AccountData = ();
            type OnNewAccount = ();
            type OnKilledAccount = ();
            type SystemWeightInfo = ();
            type SS58Prefix = SS58Prefix;
            type OnSetCode = ();
            type MaxConsumers = $crate::frame_support::traits::ConstU32<16>;
        }
    };
}

#[macro_export]
macro_rules! mock_tokens {
    ($rt:ident, $cur:ty, $bal:ty) => {
        $crate::frame_support::parameter_types! { pub const MaxLocks: u32 = 50; }
        $crate::orml_traits::parameter_type_with_key! {
            pub ExistentialDeposits: |_currency_id: $cur| -> $bal { 0 };
        }
        impl orml_tokens::Config for $rt {
            type RuntimeEvent = RuntimeEvent;
            type Balance = $bal;
            type Amount = i128;
            type CurrencyId = $cur;
            type WeightInfo = ();
            type ExistentialDeposits = ExistentialDeposits;
            type CurrencyHooks = ();
            type MaxLocks = MaxLocks;
            type DustRemovalWhitelist = $crate::frame_support::traits::Everything;
            type MaxReserves = $crate::frame_support::traits::ConstU32<0>;
            type ReserveIdentifier = ();
        }
    };
}
