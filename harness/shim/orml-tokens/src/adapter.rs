//! one of the currencies, as a currency of its own
use crate::{Config, Pallet, TotalIssuance};
use frame_support::traits::{
    BalanceStatus, Currency, ExistenceRequirement, Get, Imbalance, LockIdentifier, LockableCurrency, ReservableCurrency, SameOrOther,
    SignedImbalance, TryDrop, WithdrawReasons,
};
use orml_traits::{MultiCurrency, MultiLockableCurrency, MultiReservableCurrency};
use sp_runtime::{
    traits::{Saturating, Zero},
    DispatchError, DispatchResult,
};
use std::{marker::PhantomData, mem};

macro_rules! imbalance {
    ($name:ident, $other:ident, $on_drop:ident) => {
        pub struct $name<T: Config, G: Get<T::CurrencyId>>(T::Balance, PhantomData<G>);
        impl<T: Config, G: Get<T::CurrencyId>> $name<T, G> {
            pub fn new(amount: T::Balance) -> Self {
                Self(amount, PhantomData)
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> Default for $name<T, G> {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> TryDrop for $name<T, G> {
            fn try_drop(self) -> Result<(), Self> {
                self.drop_zero()
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> Imbalance<T::Balance> for $name<T, G> {
            type Opposite = $other<T, G>;
            fn zero() -> Self {
                Self::new(Zero::zero())
            }
            fn drop_zero(self) -> Result<(), Self> {
                if self.0.is_zero() {
                    Ok(())
                } else {
                    Err(self)
                }
            }
            fn split(self, amount: T::Balance) -> (Self, Self) {
                let first = self.0.min(amount);
                let second = self.0 - first;
                mem::forget(self);
                (Self::new(first), Self::new(second))
            }
            fn merge(mut self, other: Self) -> Self {
                self.0 = self.0.saturating_add(other.0);
                mem::forget(other);
                self
            }
            fn subsume(&mut self, other: Self) {
                self.0 = self.0.saturating_add(other.0);
                mem::forget(other);
            }
            fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
                let (a, b) = (self.0, other.0);
                mem::forget((self, other));
                if a > b {
                    SameOrOther::Same(Self::new(a - b))
                } else if b > a {
                    SameOrOther::Other($other::new(b - a))
                } else {
                    SameOrOther::None
                }
            }
            fn peek(&self) -> T::Balance {
                self.0
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> Drop for $name<T, G> {
            fn drop(&mut self) {
                TotalIssuance::<T>::mutate(G::get(), |v| *v = v.$on_drop(self.0));
            }
        }
    };
}
imbalance!(PositiveImbalance, NegativeImbalance, saturating_add);
imbalance!(NegativeImbalance, PositiveImbalance, saturating_sub);

pub struct CurrencyAdapter<T, GetCurrencyId>(PhantomData<(T, GetCurrencyId)>);

impl<T: Config, G: Get<T::CurrencyId>> Currency<T::AccountId> for CurrencyAdapter<T, G> {
    type Balance = T::Balance;
    type PositiveImbalance = PositiveImbalance<T, G>;
    type NegativeImbalance = NegativeImbalance<T, G>;
    fn total_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiCurrency<_>>::total_balance(G::get(), who)
    }
    fn can_slash(who: &T::AccountId, value: T::Balance) -> bool {
        <Pallet<T> as MultiCurrency<_>>::can_slash(G::get(), who, value)
    }
    fn total_issuance() -> T::Balance {
        TotalIssuance::<T>::get(G::get())
    }
    fn minimum_balance() -> T::Balance {
        <Pallet<T> as MultiCurrency<_>>::minimum_balance(G::get())
    }
    fn burn(mut amount: T::Balance) -> Self::PositiveImbalance {
        if amount.is_zero() {
            return PositiveImbalance::zero();
        }
        TotalIssuance::<T>::mutate(G::get(), |t| {
            amount = amount.min(*t);
            *t -= amount;
        });
        PositiveImbalance::new(amount)
    }
    fn issue(mut amount: T::Balance) -> Self::NegativeImbalance {
        use sp_runtime::traits::Bounded;
        if amount.is_zero() {
            return NegativeImbalance::zero();
        }
        TotalIssuance::<T>::mutate(G::get(), |t| {
            amount = amount.min(T::Balance::max_value() - *t);
            *t += amount;
        });
        NegativeImbalance::new(amount)
    }
    fn free_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiCurrency<_>>::free_balance(G::get(), who)
    }
    fn ensure_can_withdraw(who: &T::AccountId, amount: T::Balance, _: WithdrawReasons, _: T::Balance) -> DispatchResult {
        <Pallet<T> as MultiCurrency<_>>::ensure_can_withdraw(G::get(), who, amount)
    }
    fn transfer(source: &T::AccountId, dest: &T::AccountId, value: T::Balance, existence: ExistenceRequirement) -> DispatchResult {
        Pallet::<T>::do_transfer(G::get(), source, dest, value, existence)
    }
    fn slash(who: &T::AccountId, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        if value.is_zero() {
            return (NegativeImbalance::zero(), value);
        }
        let (mut free, mut reserved) = (Zero::zero(), Zero::zero());
        Pallet::<T>::mutate_account(who, G::get(), |a, _| {
            free = a.free.min(value);
            a.free -= free;
            reserved = a.reserved.min(value - free);
            a.reserved -= reserved;
        });
        (NegativeImbalance::new(free + reserved), value - free - reserved)
    }
    fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
        if value.is_zero() {
            return Ok(PositiveImbalance::zero());
        }
        Pallet::<T>::do_deposit(G::get(), who, value, true, false)?;
        Ok(PositiveImbalance::new(value))
    }
    fn deposit_creating(who: &T::AccountId, value: T::Balance) -> Self::PositiveImbalance {
        if value.is_zero() || Pallet::<T>::do_deposit(G::get(), who, value, false, false).is_err() {
            return PositiveImbalance::zero();
        }
        PositiveImbalance::new(value)
    }
    fn withdraw(who: &T::AccountId, value: T::Balance, _: WithdrawReasons, liveness: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError> {
        if value.is_zero() {
            return Ok(NegativeImbalance::zero());
        }
        Pallet::<T>::do_withdraw(G::get(), who, value, liveness, false)?;
        Ok(NegativeImbalance::new(value))
    }
    fn make_free_balance_be(who: &T::AccountId, value: T::Balance) -> SignedImbalance<T::Balance, Self::PositiveImbalance> {
        Pallet::<T>::mutate_account(who, G::get(), |a, _| {
            let r = if a.free <= value {
                SignedImbalance::Positive(PositiveImbalance::new(value - a.free))
            } else {
                SignedImbalance::Negative(NegativeImbalance::new(a.free - value))
            };
            a.free = value;
            r
        })
    }
}
impl<T: Config, G: Get<T::CurrencyId>> ReservableCurrency<T::AccountId> for CurrencyAdapter<T, G> {
    fn can_reserve(who: &T::AccountId, value: T::Balance) -> bool {
        <Pallet<T> as MultiReservableCurrency<_>>::can_reserve(G::get(), who, value)
    }
    fn slash_reserved(who: &T::AccountId, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        let actual = Self::reserved_balance(who).min(value);
        let rest = <Pallet<T> as MultiReservableCurrency<_>>::slash_reserved(G::get(), who, value);
        // the slash has lowered the issuance, which dropping the imbalance does too
        TotalIssuance::<T>::mutate(G::get(), |t| *t = t.saturating_add(actual));
        (NegativeImbalance::new(actual), rest)
    }
    fn reserved_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiReservableCurrency<_>>::reserved_balance(G::get(), who)
    }
    fn reserve(who: &T::AccountId, value: T::Balance) -> DispatchResult {
        <Pallet<T> as MultiReservableCurrency<_>>::reserve(G::get(), who, value)
    }
    fn unreserve(who: &T::AccountId, value: T::Balance) -> T::Balance {
        <Pallet<T> as MultiReservableCurrency<_>>::unreserve(G::get(), who, value)
    }
    fn repatriate_reserved(slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        <Pallet<T> as MultiReservableCurrency<_>>::repatriate_reserved(G::get(), slashed, beneficiary, value, status)
    }
}
impl<T: Config, G: Get<T::CurrencyId>> LockableCurrency<T::AccountId> for CurrencyAdapter<T, G> {
    type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
    type MaxLocks = T::MaxLocks;
    fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _: WithdrawReasons) {
        let _ = <Pallet<T> as MultiLockableCurrency<_>>::set_lock(id, G::get(), who, amount);
    }
    fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _: WithdrawReasons) {
        let _ = <Pallet<T> as MultiLockableCurrency<_>>::extend_lock(id, G::get(), who, amount);
    }
    fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
        let _ = <Pallet<T> as MultiLockableCurrency<_>>::remove_lock(id, G::get(), who);
    }
}

impl<T: Config, G: Get<T::CurrencyId>> frame_support::traits::fungible::Inspect<T::AccountId> for CurrencyAdapter<T, G> {
    type Balance = T::Balance;
    fn total_issuance() -> T::Balance {
        Pallet::<T>::total_issuance(G::get())
    }
    fn minimum_balance() -> T::Balance {
        <T::ExistentialDeposits as orml_traits::GetByKey<_, _>>::get(&G::get())
    }
    fn total_balance(who: &T::AccountId) -> T::Balance {
        Pallet::<T>::accounts(who, G::get()).total()
    }
    fn balance(who: &T::AccountId) -> T::Balance {
        Pallet::<T>::accounts(who, G::get()).total()
    }
}
/// dust goes to an account
pub struct TransferDust<T, A>(std::marker::PhantomData<(T, A)>);
impl<T: Config, A: Get<T::AccountId>> orml_traits::currency::OnDust<T::AccountId, T::CurrencyId, T::Balance> for TransferDust<T, A> {
    fn on_dust(who: &T::AccountId, currency_id: T::CurrencyId, amount: T::Balance) {
        let _ = <Pallet<T> as orml_traits::MultiCurrency<T::AccountId>>::transfer(currency_id, who, &A::get(), amount);
    }
}
