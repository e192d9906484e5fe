//! The part of FRAME's balances pallet that the pallets of /repo use: see DESIGN.md.
#![allow(clippy::all)]
pub use imbalances::{NegativeImbalance, PositiveImbalance};
pub use pallet::*;

use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32BitUnsigned, Saturating};

pub trait WeightInfo {}
impl WeightInfo for () {}

#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, MaxEncodedLen, Debug, TypeInfo)]
pub struct AccountData<Balance> {
    pub free: Balance,
    pub reserved: Balance,
    pub frozen: Balance,
    pub flags: u128,
}
impl<B: Saturating + Copy + Ord + AtLeast32BitUnsigned> AccountData<B> {
    pub fn total(&self) -> B {
        self.free.saturating_add(self.reserved)
    }
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, MaxEncodedLen, Debug, TypeInfo)]
pub struct BalanceLock<Balance> {
    pub id: [u8; 8],
    pub amount: Balance,
    pub reasons: u8,
}

#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::{
        pallet_prelude::*,
        traits::{
            tokens::{Fortitude, Preservation},
            BalanceStatus, Currency, ExistenceRequirement, Imbalance, LockIdentifier, LockableCurrency, OnUnbalanced, ReservableCurrency,
            SignedImbalance, StoredMap, WithdrawReasons,
        },
    };
    use frame_system::pallet_prelude::*;
    use sp_runtime::{
        traits::{Bounded, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, StaticLookup, Zero},
        ArithmeticError, FixedPointOperand, TokenError,
    };

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type Balance: Parameter + Member + AtLeast32BitUnsigned + codec::Codec + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + TypeInfo + FixedPointOperand;
        type DustRemoval: OnUnbalanced<NegativeImbalance<Self>>;
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        #[pallet::constant]
        type ExistentialDeposit: Get<Self::Balance>;
        type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
        type WeightInfo;
        type MaxLocks: Get<u32>;
        type MaxReserves: Get<u32>;
        type ReserveIdentifier;
        type RuntimeHoldReason;
        type FreezeIdentifier;
        type MaxFreezes;
        type MaxHolds;
    }

    #[pallet::pallet]
    pub struct Pallet<T>(_);

    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event<T: Config> {
        Endowed { account: T::AccountId, free_balance: T::Balance },
        DustLost { account: T::AccountId, amount: T::Balance },
        Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
        BalanceSet { who: T::AccountId, free: T::Balance },
        Reserved { who: T::AccountId, amount: T::Balance },
        Unreserved { who: T::AccountId, amount: T::Balance },
        ReserveRepatriated { from: T::AccountId, to: T::AccountId, amount: T::Balance, destination_status: BalanceStatus },
        Deposit { who: T::AccountId, amount: T::Balance },
        Withdraw { who: T::AccountId, amount: T::Balance },
        Slashed { who: T::AccountId, amount: T::Balance },
    }

    #[pallet::error]
    pub enum Error<T> {
        VestingBalance,
        LiquidityRestrictions,
        InsufficientBalance,
        ExistentialDeposit,
        Expendability,
        ExistingVestingSchedule,
        DeadAccount,
        TooManyReserves,
        TooManyHolds,
        TooManyFreezes,
    }

    #[pallet::storage]
    #[pallet::getter(fn total_issuance)]
    pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
    #[pallet::storage]
    pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<BalanceLock<T::Balance>>, ValueQuery>;

    #[pallet::genesis_config]
    #[derive(frame_support::DefaultNoBound)]
    pub struct GenesisConfig<T: Config> {
        pub balances: Vec<(T::AccountId, T::Balance)>,
    }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            let total = self.balances.iter().fold(Zero::zero(), |a: T::Balance, x| a + x.1);
            TotalIssuance::<T>::put(total);
            for (who, free) in &self.balances {
                assert!(*free >= T::ExistentialDeposit::get(), "the balance of any account should always be at least the existential deposit.");
                frame_system::Pallet::<T>::inc_providers(who);
                T::AccountStore::insert(who, AccountData { free: *free, ..Default::default() }).expect("stored");
            }
        }
    }

    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            <Self as Currency<_>>::transfer(&from, &to, value, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(2)]
        #[pallet::weight(Weight::zero())]
        pub fn force_transfer(
            origin: OriginFor<T>,
            source: <T::Lookup as StaticLookup>::Source,
            dest: <T::Lookup as StaticLookup>::Source,
            #[pallet::compact] value: T::Balance,
        ) -> DispatchResult {
            ensure_root(origin)?;
            let from = T::Lookup::lookup(source)?;
            let to = T::Lookup::lookup(dest)?;
            <Self as Currency<_>>::transfer(&from, &to, value, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(3)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            <Self as Currency<_>>::transfer(&from, &to, value, ExistenceRequirement::KeepAlive)
        }
        #[pallet::call_index(7)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            <Self as Currency<_>>::transfer(&from, &to, value, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(8)]
        #[pallet::weight(Weight::zero())]
        pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
            ensure_root(origin)?;
            let who = T::Lookup::lookup(who)?;
            let new_free = if new_free < T::ExistentialDeposit::get() { Zero::zero() } else { new_free };
            let old = Self::mutate(&who, |a| -> Result<_, DispatchError> { Ok(core::mem::replace(&mut a.free, new_free)) })?;
            TotalIssuance::<T>::mutate(|t| *t = (*t + new_free).saturating_sub(old));
            Self::deposit_event(Event::BalanceSet { who, free: new_free });
            Ok(())
        }
    }

    impl<T: Config> Pallet<T> {
        pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
            T::AccountStore::get(who)
        }
        pub fn free_balance(who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance {
            Self::account(who.borrow()).free
        }
        pub fn reserved_balance(who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance {
            Self::account(who.borrow()).reserved
        }
        pub fn usable_balance(who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance {
            let a = Self::account(who.borrow());
            a.free.saturating_sub(a.frozen)
        }
        pub fn reducible_balance(who: &T::AccountId, p: Preservation, _: Fortitude) -> T::Balance {
            let a = Self::account(who);
            let keep = if p == Preservation::Expendable { Zero::zero() } else { T::ExistentialDeposit::get() };
            a.free.saturating_sub(a.frozen.max(keep))
        }
        fn mutate<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> Result<R, E>) -> Result<R, E> {
            let existed = Self::account(who).total() >= T::ExistentialDeposit::get() && !Self::account(who).total().is_zero();
            let mut dust: T::Balance = Zero::zero();
            let mut lives = true;
            let r = T::AccountStore::try_mutate_exists(who, |m| {
                let mut a = m.take().unwrap_or_default();
                let r = f(&mut a)?;
                if a.reserved.is_zero() && a.free < T::ExistentialDeposit::get() || a.total().is_zero() {
                    dust = a.free;
                    lives = false;
                    *m = None;
                } else {
                    if !existed {
                        frame_system::Pallet::<T>::inc_providers(who);
                    }
                    *m = Some(a);
                }
                Ok::<R, E>(r)
            })?;
            if !lives && existed {
                let _ = frame_system::Pallet::<T>::dec_providers(who);
            }
            if !dust.is_zero() {
                T::DustRemoval::on_unbalanced(NegativeImbalance::new(dust));
                Self::deposit_event(Event::DustLost { account: who.clone(), amount: dust });
            }
            Ok(r)
        }
        fn update_locks(who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) {
            let _ = Self::mutate(who, |a| -> DispatchResult {
                a.frozen = locks.iter().fold(Zero::zero(), |m: T::Balance, l| m.max(l.amount));
                Ok(())
            });
            let existed = Locks::<T>::contains_key(who);
            if locks.is_empty() {
                Locks::<T>::remove(who);
                if existed {
                    frame_system::Pallet::<T>::dec_consumers(who);
                }
            } else {
                Locks::<T>::insert(who, locks.to_vec());
                if !existed {
                    let _ = frame_system::Pallet::<T>::inc_consumers_without_limit(who);
                }
            }
        }
    }

    impl<T: Config> Currency<T::AccountId> for Pallet<T> {
        type Balance = T::Balance;
        type PositiveImbalance = PositiveImbalance<T>;
        type NegativeImbalance = NegativeImbalance<T>;
        fn total_balance(who: &T::AccountId) -> T::Balance {
            Self::account(who).total()
        }
        fn can_slash(who: &T::AccountId, value: T::Balance) -> bool {
            value.is_zero() || Self::free_balance(who) >= value
        }
        fn total_issuance() -> T::Balance {
            TotalIssuance::<T>::get()
        }
        fn minimum_balance() -> T::Balance {
            T::ExistentialDeposit::get()
        }
        fn burn(mut amount: T::Balance) -> PositiveImbalance<T> {
            TotalIssuance::<T>::mutate(|t| {
                amount = amount.min(*t);
                *t -= amount;
            });
            PositiveImbalance::new(amount)
        }
        fn issue(mut amount: T::Balance) -> NegativeImbalance<T> {
            TotalIssuance::<T>::mutate(|t| {
                amount = amount.min(T::Balance::max_value() - *t);
                *t += amount;
            });
            NegativeImbalance::new(amount)
        }
        fn free_balance(who: &T::AccountId) -> T::Balance {
            Self::account(who).free
        }
        fn ensure_can_withdraw(who: &T::AccountId, amount: T::Balance, _: WithdrawReasons, new_balance: T::Balance) -> DispatchResult {
            if amount.is_zero() {
                return Ok(());
            }
            ensure!(new_balance >= Self::account(who).frozen, Error::<T>::LiquidityRestrictions);
            Ok(())
        }
        fn transfer(source: &T::AccountId, dest: &T::AccountId, value: T::Balance, existence: ExistenceRequirement) -> DispatchResult {
            if value.is_zero() || source == dest {
                return Ok(());
            }
            frame_support::storage::with_storage_layer(|| -> DispatchResult {
                let a = Self::account(source);
                let rest = a.free.checked_sub(&value).ok_or(TokenError::FundsUnavailable)?;
                ensure!(rest >= a.frozen, TokenError::Frozen);
                ensure!(
                    rest >= T::ExistentialDeposit::get()
                        || existence == ExistenceRequirement::AllowDeath && a.reserved.is_zero() && frame_system::Pallet::<T>::can_dec_provider(source),
                    TokenError::NotExpendable
                );
                let b = Self::account(dest);
                let new = b.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
                ensure!(new >= T::ExistentialDeposit::get(), TokenError::BelowMinimum);
                Self::mutate(dest, |b| -> DispatchResult {
                    b.free = new;
                    Ok(())
                })?;
                Self::mutate(source, |a| -> DispatchResult {
                    a.free = rest;
                    Ok(())
                })?;
                Self::deposit_event(Event::Transfer { from: source.clone(), to: dest.clone(), amount: value });
                Ok(())
            })
        }
        fn slash(who: &T::AccountId, value: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
            let actual = Self::free_balance(who).min(value);
            let _ = Self::mutate(who, |a| -> DispatchResult {
                a.free -= actual;
                Ok(())
            });
            (NegativeImbalance::new(actual), value - actual)
        }
        fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<PositiveImbalance<T>, DispatchError> {
            if value.is_zero() {
                return Ok(PositiveImbalance::zero());
            }
            ensure!(!Self::account(who).total().is_zero(), Error::<T>::DeadAccount);
            Self::mutate(who, |a| -> Result<_, DispatchError> {
                a.free = a.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
                Ok(PositiveImbalance::new(value))
            })
        }
        fn deposit_creating(who: &T::AccountId, value: T::Balance) -> PositiveImbalance<T> {
            if value.is_zero() || Self::account(who).total().is_zero() && value < T::ExistentialDeposit::get() {
                return PositiveImbalance::zero();
            }
            Self::mutate(who, |a| -> Result<_, DispatchError> {
                a.free = a.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
                Ok(PositiveImbalance::new(value))
            })
            .unwrap_or_else(|_| PositiveImbalance::zero())
        }
        fn withdraw(who: &T::AccountId, value: T::Balance, _: WithdrawReasons, liveness: ExistenceRequirement) -> Result<NegativeImbalance<T>, DispatchError> {
            if value.is_zero() {
                return Ok(NegativeImbalance::zero());
            }
            Self::mutate(who, |a| -> Result<_, DispatchError> {
                let rest = a.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
                ensure!(rest >= a.frozen, Error::<T>::LiquidityRestrictions);
                ensure!(liveness == ExistenceRequirement::AllowDeath || rest >= T::ExistentialDeposit::get(), Error::<T>::Expendability);
                a.free = rest;
                Ok(NegativeImbalance::new(value))
            })
        }
        fn make_free_balance_be(who: &T::AccountId, value: T::Balance) -> SignedImbalance<T::Balance, PositiveImbalance<T>> {
            Self::mutate(who, |a| -> Result<_, DispatchError> {
                let r = if a.free <= value {
                    SignedImbalance::Positive(PositiveImbalance::new(value - a.free))
                } else {
                    SignedImbalance::Negative(NegativeImbalance::new(a.free - value))
                };
                a.free = value;
                Ok(r)
            })
            .unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero()))
        }
    }

    impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
        fn can_reserve(who: &T::AccountId, value: T::Balance) -> bool {
            let a = Self::account(who);
            value.is_zero() || a.free.checked_sub(&value).map_or(false, |r| r >= a.frozen.max(T::ExistentialDeposit::get()))
        }
        fn slash_reserved(who: &T::AccountId, value: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
            let actual = Self::reserved_balance(who).min(value);
            let _ = Self::mutate(who, |a| -> DispatchResult {
                a.reserved -= actual;
                Ok(())
            });
            (NegativeImbalance::new(actual), value - actual)
        }
        fn reserved_balance(who: &T::AccountId) -> T::Balance {
            Self::account(who).reserved
        }
        fn reserve(who: &T::AccountId, value: T::Balance) -> DispatchResult {
            if value.is_zero() {
                return Ok(());
            }
            Self::mutate(who, |a| -> DispatchResult {
                let rest = a.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
                ensure!(rest >= a.frozen, Error::<T>::LiquidityRestrictions);
                a.free = rest;
                a.reserved = a.reserved.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
                Ok(())
            })?;
            Self::deposit_event(Event::Reserved { who: who.clone(), amount: value });
            Ok(())
        }
        fn unreserve(who: &T::AccountId, value: T::Balance) -> T::Balance {
            let actual = Self::reserved_balance(who).min(value);
            let _ = Self::mutate(who, |a| -> DispatchResult {
                a.reserved -= actual;
                a.free += actual;
                Ok(())
            });
            Self::deposit_event(Event::Unreserved { who: who.clone(), amount: actual });
            value - actual
        }
        fn repatriate_reserved(slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
            if slashed == beneficiary {
                return Ok(match status {
                    BalanceStatus::Free => Self::unreserve(slashed, value),
                    BalanceStatus::Reserved => value.saturating_sub(Self::reserved_balance(slashed)),
                });
            }
            let actual = Self::reserved_balance(slashed).min(value);
            ensure!(!Self::account(beneficiary).total().is_zero(), Error::<T>::DeadAccount);
            Self::mutate(beneficiary, |a| -> DispatchResult {
                match status {
                    BalanceStatus::Free => a.free += actual,
                    BalanceStatus::Reserved => a.reserved += actual,
                }
                Ok(())
            })?;
            Self::mutate(slashed, |a| -> DispatchResult {
                a.reserved -= actual;
                Ok(())
            })?;
            Ok(value - actual)
        }
    }
    impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
        type Moment = BlockNumberFor<T>;
        type MaxLocks = T::MaxLocks;
        fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, r: WithdrawReasons) {
            if r.is_empty() || amount.is_zero() {
                return Self::remove_lock(id, who);
            }
            let mut l: Vec<_> = Locks::<T>::get(who);
            l.retain(|x| x.id != id);
            l.push(BalanceLock { id, amount, reasons: r.bits() });
            Self::update_locks(who, &l);
        }
        fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, r: WithdrawReasons) {
            if r.is_empty() || amount.is_zero() {
                return;
            }
            let mut l: Vec<_> = Locks::<T>::get(who);
            match l.iter_mut().find(|x| x.id == id) {
                Some(x) => x.amount = x.amount.max(amount),
                None => l.push(BalanceLock { id, amount, reasons: r.bits() }),
            }
            Self::update_locks(who, &l);
        }
        fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
            let mut l: Vec<_> = Locks::<T>::get(who);
            l.retain(|x| x.id != id);
            Self::update_locks(who, &l);
        }
    }
}

mod imbalances {
    use super::{Config, TotalIssuance};
    use frame_support::traits::{Imbalance, SameOrOther, TryDrop};
    use sp_runtime::traits::{Saturating, Zero};
    use std::mem;

    macro_rules! imbalance {
        ($name:ident, $other:ident, $on_drop:ident) => {
            pub struct $name<T: Config>(T::Balance);
            impl<T: Config> $name<T> {
                pub fn new(amount: T::Balance) -> Self {
                    Self(amount)
                }
            }
            impl<T: Config> Default for $name<T> {
                fn default() -> Self {
                    Self::zero()
                }
            }
            impl<T: Config> TryDrop for $name<T> {
                fn try_drop(self) -> Result<(), Self> {
                    self.drop_zero()
                }
            }
            impl<T: Config> Imbalance<T::Balance> for $name<T> {
                type Opposite = $other<T>;
                fn zero() -> Self {
                    Self(Zero::zero())
                }
                fn drop_zero(self) -> Result<(), Self> {
                    if self.0.is_zero() {
                        Ok(())
                    } else {
                        Err(self)
                    }
                }
                fn split(self, amount: T::Balance) -> (Self, Self) {
                    let first = self.0.min(amount);
                    let second = self.0 - first;
                    mem::forget(self);
                    (Self(first), Self(second))
                }
                fn merge(mut self, other: Self) -> Self {
                    self.0 = self.0.saturating_add(other.0);
                    mem::forget(other);
                    self
                }
                fn subsume(&mut self, other: Self) {
                    self.0 = self.0.saturating_add(other.0);
                    mem::forget(other);
                }
                fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
                    let (a, b) = (self.0, other.0);
                    mem::forget((self, other));
                    if a > b {
                        SameOrOther::Same(Self(a - b))
                    } else if b > a {
                        SameOrOther::Other($other::new(b - a))
                    } else {
                        SameOrOther::None
                    }
                }
                fn peek(&self) -> T::Balance {
                    self.0
                }
            }
            impl<T: Config> Drop for $name<T> {
                fn drop(&mut self) {
                    TotalIssuance::<T>::mutate(|v| *v = v.$on_drop(self.0));
                }
            }
        };
    }
    imbalance!(PositiveImbalance, NegativeImbalance, saturating_add);
    imbalance!(NegativeImbalance, PositiveImbalance, saturating_sub);
}
