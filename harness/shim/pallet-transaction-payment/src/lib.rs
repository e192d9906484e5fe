//! How a fee is taken before a call, and corrected after it.
use frame_support::traits::{Currency, ExistenceRequirement, Imbalance, OnUnbalanced, WithdrawReasons};
use sp_runtime::{
    traits::{DispatchInfoOf, PostDispatchInfoOf, Saturating, Zero},
    transaction_validity::{InvalidTransaction, TransactionValidityError},
};
use std::marker::PhantomData;

pub trait Config: frame_system::Config {
    type OnChargeTransaction: OnChargeTransaction<Self>;
}
pub trait OnChargeTransaction<T: frame_system::Config> {
    type Balance;
    type LiquidityInfo: Default;
    fn withdraw_fee(
        who: &T::AccountId,
        call: &T::RuntimeCall,
        dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
        fee: Self::Balance,
        tip: Self::Balance,
    ) -> Result<Self::LiquidityInfo, TransactionValidityError>;
    fn correct_and_deposit_fee(
        who: &T::AccountId,
        dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
        post_info: &PostDispatchInfoOf<T::RuntimeCall>,
        corrected_fee: Self::Balance,
        tip: Self::Balance,
        already_withdrawn: Self::LiquidityInfo,
    ) -> Result<(), TransactionValidityError>;
}
/// fees and tips in one currency
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
type Neg<C, T> = <C as Currency<<T as frame_system::Config>::AccountId>>::NegativeImbalance;
impl<T, C, OU> OnChargeTransaction<T> for CurrencyAdapter<C, OU>
where
    T: Config,
    C: Currency<T::AccountId>,
    C::PositiveImbalance: Imbalance<C::Balance, Opposite = C::NegativeImbalance>,
    C::NegativeImbalance: Imbalance<C::Balance, Opposite = C::PositiveImbalance>,
    OU: OnUnbalanced<Neg<C, T>>,
{
    type LiquidityInfo = Option<Neg<C, T>>;
    type Balance = C::Balance;

    fn withdraw_fee(
        who: &T::AccountId,
        _: &T::RuntimeCall,
        _: &DispatchInfoOf<T::RuntimeCall>,
        fee: C::Balance,
        tip: C::Balance,
    ) -> Result<Self::LiquidityInfo, TransactionValidityError> {
        if fee.is_zero() {
            return Ok(None);
        }
        let reasons = if tip.is_zero() {
            WithdrawReasons::TRANSACTION_PAYMENT
        } else {
            WithdrawReasons::TRANSACTION_PAYMENT | WithdrawReasons::TIP
        };
        C::withdraw(who, fee, reasons, ExistenceRequirement::KeepAlive).map(Some).map_err(|_| InvalidTransaction::Payment.into())
    }
    fn correct_and_deposit_fee(
        who: &T::AccountId,
        _: &DispatchInfoOf<T::RuntimeCall>,
        _: &PostDispatchInfoOf<T::RuntimeCall>,
        corrected_fee: C::Balance,
        tip: C::Balance,
        already_withdrawn: Self::LiquidityInfo,
    ) -> Result<(), TransactionValidityError> {
        if let Some(paid) = already_withdrawn {
            let refund = paid.peek().saturating_sub(corrected_fee);
            let refund = C::deposit_into_existing(who, refund).unwrap_or_else(|_| C::PositiveImbalance::zero());
            let paid = paid.offset(refund).same().map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
            let (tip, fee) = paid.split(tip);
            OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
        }
        Ok(())
    }
}
