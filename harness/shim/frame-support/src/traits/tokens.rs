use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{ArithmeticError, DispatchError, TokenError};

bitflags::bitflags! {
    /// why funds are taken
    #[derive(Encode, Decode, MaxEncodedLen)]
    pub struct WithdrawReasons: u8 {
        const TRANSACTION_PAYMENT = 0b00000001;
        const TRANSFER = 0b00000010;
        const RESERVE = 0b00000100;
        const FEE = 0b00001000;
        const TIP = 0b00010000;
    }
}
impl WithdrawReasons {
    pub fn except(one: impl Into<WithdrawReasons>) -> Self {
        let mut flags = Self::all();
        flags.toggle(one.into());
        flags
    }
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum ExistenceRequirement {
    KeepAlive,
    AllowDeath,
}
#[derive(Copy, Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum BalanceStatus {
    Free,
    Reserved,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Preservation {
    Expendable,
    Protect,
    Preserve,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Fortitude {
    Polite,
    Force,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Precision {
    Exact,
    BestEffort,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Provenance {
    Minted,
    Extant,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum DepositConsequence {
    BelowMinimum,
    CannotCreate,
    UnknownAsset,
    Overflow,
    Success,
    Blocked,
}
impl DepositConsequence {
    pub fn into_result(self) -> Result<(), DispatchError> {
        Err(match self {
            Self::BelowMinimum => TokenError::BelowMinimum.into(),
            Self::CannotCreate => TokenError::CannotCreate.into(),
            Self::UnknownAsset => TokenError::UnknownAsset.into(),
            Self::Overflow => ArithmeticError::Overflow.into(),
            Self::Blocked => TokenError::Blocked.into(),
            Self::Success => return Ok(()),
        })
    }
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum WithdrawConsequence<Balance> {
    BalanceLow,
    WouldDie,
    UnknownAsset,
    Underflow,
    Overflow,
    Frozen,
    ReducedToZero(Balance),
    Success,
}
impl<B> WithdrawConsequence<B> {
    pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError>
    where
        B: Default,
    {
        Err(match self {
            Self::BalanceLow => TokenError::FundsUnavailable.into(),
            Self::WouldDie => TokenError::OnlyProvider.into(),
            Self::UnknownAsset => TokenError::UnknownAsset.into(),
            Self::Underflow => ArithmeticError::Underflow.into(),
            Self::Overflow => ArithmeticError::Overflow.into(),
            Self::Frozen => TokenError::Frozen.into(),
            Self::ReducedToZero(_) if keep_nonzero => TokenError::NotExpendable.into(),
            Self::ReducedToZero(b) => return Ok(b),
            Self::Success => return Ok(B::default()),
        })
    }
}
pub trait AssetId: codec::FullCodec + Clone + Eq + PartialEq + core::fmt::Debug + TypeInfo + MaxEncodedLen {}
impl<T: codec::FullCodec + Clone + Eq + PartialEq + core::fmt::Debug + TypeInfo + MaxEncodedLen> AssetId for T {}
pub trait Balance:
    sp_runtime::traits::AtLeast32BitUnsigned + codec::FullCodec + Copy + Default + core::fmt::Debug + TypeInfo + MaxEncodedLen + Send + Sync + sp_runtime::traits::MaybeSerializeDeserialize + 'static
{
}
impl<
        T: sp_runtime::traits::AtLeast32BitUnsigned
            + codec::FullCodec
            + Copy
            + Default
            + core::fmt::Debug
            + TypeInfo
            + MaxEncodedLen
            + Send
            + Sync
            + sp_runtime::traits::MaybeSerializeDeserialize
            + 'static,
    > Balance for T
{
}

pub mod fungible {
    pub trait Inspect<AccountId>: Sized {
        type Balance: super::Balance;
        fn total_issuance() -> Self::Balance;
        fn minimum_balance() -> Self::Balance;
        fn total_balance(who: &AccountId) -> Self::Balance;
        fn balance(who: &AccountId) -> Self::Balance;
    }
}
pub mod fungibles {
    use super::*;
    pub trait Inspect<AccountId>: Sized {
        type AssetId: AssetId;
        type Balance: Balance;
        fn total_issuance(asset: Self::AssetId) -> Self::Balance;
        fn active_issuance(asset: Self::AssetId) -> Self::Balance {
            Self::total_issuance(asset)
        }
        fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
        fn total_balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
        fn balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
        fn reducible_balance(asset: Self::AssetId, who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
        fn can_deposit(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
        fn can_withdraw(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
        fn asset_exists(asset: Self::AssetId) -> bool;
    }
}
