//! The part of orml-tokens that the pallets of /repo use, with its rules for reserves, locks, existential deposits and hooks: see DESIGN.md.
#![allow(clippy::all)]
mod adapter;
pub use adapter::*;
pub use module::*;

use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::{
    ensure,
    traits::{
        tokens::{fungibles, DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence},
        BalanceStatus, Contains, ExistenceRequirement, Get, LockIdentifier,
    },
    BoundedVec,
};
use orml_traits::{
    currency::{MutationHooks, OnDeposit, OnDust, OnSlash, OnTransfer},
    GetByKey, Happened, MultiCurrency, MultiCurrencyExtended, MultiLockableCurrency, MultiReservableCurrency,
};
use scale_info::TypeInfo;
use sp_runtime::{
    traits::{AtLeast32BitUnsigned, CheckedAdd, CheckedSub, Saturating, Zero},
    ArithmeticError, DispatchError, DispatchResult,
};

pub trait WeightInfo {}
impl WeightInfo for () {}

#[derive(Encode, Decode, Clone, PartialEq, Eq, MaxEncodedLen, Debug, TypeInfo)]
pub struct BalanceLock<Balance> {
    pub id: LockIdentifier,
    pub amount: Balance,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, MaxEncodedLen, Debug, TypeInfo)]
pub struct AccountData<Balance> {
    pub free: Balance,
    pub reserved: Balance,
    pub frozen: Balance,
}
impl<B: Saturating + Copy + Ord> AccountData<B> {
    pub fn frozen(&self) -> B {
        self.frozen
    }
    pub fn total(&self) -> B {
        self.free.saturating_add(self.reserved)
    }
}

#[frame_support::pallet]
pub mod module {
    use super::*;
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;
    use sp_runtime::traits::{MaybeSerializeDeserialize, StaticLookup};

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type Balance: Parameter + Member + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + TypeInfo + sp_runtime::FixedPointOperand;
        type Amount: TryInto<Self::Balance> + TryFrom<Self::Balance> + Parameter + Member + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + PartialOrd + Zero;
        type CurrencyId: Parameter + Member + Copy + MaybeSerializeDeserialize + Ord + TypeInfo + MaxEncodedLen;
        type WeightInfo: WeightInfo;
        type ExistentialDeposits: GetByKey<Self::CurrencyId, Self::Balance>;
        type CurrencyHooks: MutationHooks<Self::AccountId, Self::CurrencyId, Self::Balance>;
        #[pallet::constant]
        type MaxLocks: Get<u32>;
        #[pallet::constant]
        type MaxReserves: Get<u32>;
        type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
        type DustRemovalWhitelist: Contains<Self::AccountId>;
    }

    #[pallet::error]
    pub enum Error<T> {
        BalanceTooLow,
        AmountIntoBalanceFailed,
        LiquidityRestrictions,
        MaxLocksExceeded,
        KeepAlive,
        ExistentialDeposit,
        DeadAccount,
        TooManyReserves,
    }

    #[pallet::event]
    #[pallet::generate_deposit(pub(crate) fn deposit_event)]
    pub enum Event<T: Config> {
        Endowed { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        DustLost { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Transfer { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
        Reserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Unreserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        ReserveRepatriated { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance, status: BalanceStatus },
        BalanceSet { currency_id: T::CurrencyId, who: T::AccountId, free: T::Balance, reserved: T::Balance },
        TotalIssuanceSet { currency_id: T::CurrencyId, amount: T::Balance },
        Withdrawn { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Slashed { currency_id: T::CurrencyId, who: T::AccountId, free_amount: T::Balance, reserved_amount: T::Balance },
        Deposited { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        LockSet { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        LockRemoved { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId },
        Locked { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Unlocked { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
    }

    #[pallet::storage]
    #[pallet::getter(fn total_issuance)]
    pub type TotalIssuance<T: Config> = StorageMap<_, Twox64Concat, T::CurrencyId, T::Balance, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn locks)]
    pub type Locks<T: Config> =
        StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, BoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn accounts)]
    pub type Accounts<T: Config> =
        StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, AccountData<T::Balance>, ValueQuery>;

    #[pallet::genesis_config]
    #[derive(frame_support::DefaultNoBound)]
    pub struct GenesisConfig<T: Config> {
        pub balances: Vec<(T::AccountId, T::CurrencyId, T::Balance)>,
    }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            for (who, id, initial) in &self.balances {
                assert!(*initial >= T::ExistentialDeposits::get(id), "the balance of any account should always be more than existential deposit.");
                Pallet::<T>::mutate_account(who, *id, |a, _| a.free = *initial);
                TotalIssuance::<T>::mutate(id, |t| *t = t.checked_add(initial).expect("total issuance cannot overflow"));
            }
        }
    }

    #[pallet::pallet]
    pub struct Pallet<T>(_);

    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(1)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, keep_alive: bool) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            let preservation = if keep_alive { Preservation::Protect } else { Preservation::Expendable };
            let amount = <Self as fungibles::Inspect<T::AccountId>>::reducible_balance(currency_id, &from, preservation, Fortitude::Polite);
            Self::do_transfer(currency_id, &from, &to, amount, if keep_alive { ExistenceRequirement::KeepAlive } else { ExistenceRequirement::AllowDeath })
        }
        #[pallet::call_index(2)]
        #[pallet::weight(Weight::zero())]
        pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResultWithPostInfo {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::KeepAlive)?;
            Ok(().into())
        }
        #[pallet::call_index(3)]
        #[pallet::weight(Weight::zero())]
        pub fn force_transfer(
            origin: OriginFor<T>,
            source: <T::Lookup as StaticLookup>::Source,
            dest: <T::Lookup as StaticLookup>::Source,
            currency_id: T::CurrencyId,
            #[pallet::compact] amount: T::Balance,
        ) -> DispatchResult {
            ensure_root(origin)?;
            let from = T::Lookup::lookup(source)?;
            let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(4)]
        #[pallet::weight(Weight::zero())]
        pub fn set_balance(
            origin: OriginFor<T>,
            who: <T::Lookup as StaticLookup>::Source,
            currency_id: T::CurrencyId,
            #[pallet::compact] new_free: T::Balance,
            #[pallet::compact] new_reserved: T::Balance,
        ) -> DispatchResult {
            ensure_root(origin)?;
            let who = T::Lookup::lookup(who)?;
            Self::try_mutate_account(&who, currency_id, |account, _| -> DispatchResult {
                let mut new_total = new_free.checked_add(&new_reserved).ok_or(ArithmeticError::Overflow)?;
                let (new_free, new_reserved) = if new_total < T::ExistentialDeposits::get(&currency_id) {
                    new_total = Zero::zero();
                    (Zero::zero(), Zero::zero())
                } else {
                    (new_free, new_reserved)
                };
                let old_total = account.total();
                account.free = new_free;
                account.reserved = new_reserved;
                if new_total > old_total {
                    TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult {
                        *t = t.checked_add(&(new_total - old_total)).ok_or(ArithmeticError::Overflow)?;
                        Ok(())
                    })?;
                } else if new_total < old_total {
                    TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult {
                        *t = t.checked_sub(&(old_total - new_total)).ok_or(ArithmeticError::Underflow)?;
                        Ok(())
                    })?;
                }
                Self::deposit_event(Event::BalanceSet { currency_id, who: who.clone(), free: new_free, reserved: new_reserved });
                Ok(())
            })?;
            Ok(())
        }
    }
}

type HooksOf<T> = <T as Config>::CurrencyHooks;
macro_rules! hook {
    ($t:ident) => {
        <HooksOf<T> as MutationHooks<T::AccountId, T::CurrencyId, T::Balance>>::$t
    };
}

impl<T: Config> Pallet<T> {
    pub fn try_mutate_account<R, E>(
        who: &T::AccountId,
        currency_id: T::CurrencyId,
        f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>,
    ) -> Result<R, E> {
        let (endowed, existed, exists, dust, result) = Accounts::<T>::try_mutate_exists(who, currency_id, |maybe| {
            let existed = maybe.is_some();
            let mut account = maybe.take().unwrap_or_default();
            f(&mut account, existed).map(|result| {
                let endowed = (!existed).then(|| account.free);
                let mut dust = None;
                let total = account.total();
                *maybe = if total < T::ExistentialDeposits::get(&currency_id) {
                    // below the existential deposit: gone when empty, otherwise dust
                    if total.is_zero() {
                        None
                    } else {
                        if !T::DustRemovalWhitelist::contains(who) {
                            dust = Some(total);
                        }
                        Some(account)
                    }
                } else {
                    // an existential deposit of zero: an account is never removed
                    Some(account)
                };
                (endowed, existed, maybe.is_some(), dust, result)
            })
        })?;
        if existed && !exists {
            let _ = frame_system::Pallet::<T>::dec_providers(who);
            <hook!(OnKilledTokenAccount)>::happened(&(who.clone(), currency_id));
        } else if !existed && exists {
            frame_system::Pallet::<T>::inc_providers(who);
            <hook!(OnNewTokenAccount)>::happened(&(who.clone(), currency_id));
        }
        if let Some(amount) = endowed {
            Self::deposit_event(Event::Endowed { currency_id, who: who.clone(), amount });
        }
        if let Some(amount) = dust {
            <hook!(OnDust)>::on_dust(who, currency_id, amount);
            Self::deposit_event(Event::DustLost { currency_id, who: who.clone(), amount });
        }
        Ok(result)
    }
    pub fn mutate_account<R>(who: &T::AccountId, currency_id: T::CurrencyId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> R) -> R {
        Self::try_mutate_account(who, currency_id, |a, e| -> Result<R, std::convert::Infallible> { Ok(f(a, e)) }).expect("infallible")
    }
    /// whether there is a record of this account
    pub fn exists(who: &T::AccountId, currency_id: T::CurrencyId) -> bool {
        Accounts::<T>::contains_key(who, currency_id)
    }

    fn would_be_dead(who: &T::AccountId, currency_id: T::CurrencyId, total: T::Balance) -> bool {
        if total < T::ExistentialDeposits::get(&currency_id) {
            total.is_zero() || !T::DustRemovalWhitelist::contains(who)
        } else {
            false
        }
    }

    #[frame_support::transactional]
    pub fn do_transfer(
        currency_id: T::CurrencyId,
        from: &T::AccountId,
        to: &T::AccountId,
        amount: T::Balance,
        existence: ExistenceRequirement,
    ) -> DispatchResult {
        if amount.is_zero() || from == to {
            return Ok(());
        }
        <hook!(PreTransfer)>::on_transfer(currency_id, from, to, amount)?;
        Self::try_mutate_account(to, currency_id, |to_account, _| -> DispatchResult {
            Self::try_mutate_account(from, currency_id, |from_account, _| -> DispatchResult {
                from_account.free = from_account.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
                to_account.free = to_account.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
                let ed = T::ExistentialDeposits::get(&currency_id);
                ensure!(to_account.total() >= ed || T::DustRemovalWhitelist::contains(to), Error::<T>::ExistentialDeposit);
                Self::ensure_can_withdraw(currency_id, from, amount)?;
                let allow_death = existence == ExistenceRequirement::AllowDeath && frame_system::Pallet::<T>::can_dec_provider(from);
                ensure!(allow_death || !Self::would_be_dead(from, currency_id, from_account.total()), Error::<T>::KeepAlive);
                Ok(())
            })
        })?;
        <hook!(PostTransfer)>::on_transfer(currency_id, from, to, amount)?;
        Self::deposit_event(Event::Transfer { currency_id, from: from.clone(), to: to.clone(), amount });
        Ok(())
    }

    #[frame_support::transactional]
    pub fn do_withdraw(
        currency_id: T::CurrencyId,
        who: &T::AccountId,
        amount: T::Balance,
        existence: ExistenceRequirement,
        change_total_issuance: bool,
    ) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        Self::ensure_can_withdraw(currency_id, who, amount)?;
        Self::try_mutate_account(who, currency_id, |account, _| -> DispatchResult {
            let previous = account.total();
            account.free = account.free.saturating_sub(amount);
            let would_kill = Self::would_be_dead(who, currency_id, account.total())
                && (previous >= T::ExistentialDeposits::get(&currency_id) || !previous.is_zero());
            ensure!(existence == ExistenceRequirement::AllowDeath || !would_kill, Error::<T>::KeepAlive);
            if change_total_issuance {
                TotalIssuance::<T>::mutate(currency_id, |t| *t = t.saturating_sub(amount));
            }
            Self::deposit_event(Event::Withdrawn { currency_id, who: who.clone(), amount });
            Ok(())
        })
    }

    #[frame_support::transactional]
    pub fn do_deposit(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance, require_existed: bool, change_total_issuance: bool) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        <hook!(PreDeposit)>::on_deposit(currency_id, who, amount)?;
        Self::try_mutate_account(who, currency_id, |account, existed| -> DispatchResult {
            if require_existed {
                ensure!(existed, Error::<T>::DeadAccount);
            } else {
                ensure!(amount >= T::ExistentialDeposits::get(&currency_id) || existed, Error::<T>::ExistentialDeposit);
            }
            let total = Self::total_issuance(currency_id).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
            if change_total_issuance {
                TotalIssuance::<T>::insert(currency_id, total);
            }
            account.free = account.free.saturating_add(amount);
            Ok(())
        })?;
        <hook!(PostDeposit)>::on_deposit(currency_id, who, amount)?;
        Self::deposit_event(Event::Deposited { currency_id, who: who.clone(), amount });
        Ok(())
    }

    fn update_locks(currency_id: T::CurrencyId, who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) -> DispatchResult {
        Self::mutate_account(who, currency_id, |account, _| {
            account.frozen = locks.iter().fold(Zero::zero(), |m: T::Balance, l| m.max(l.amount));
        });
        let existed = Locks::<T>::contains_key(who, currency_id);
        if locks.is_empty() {
            Locks::<T>::remove(who, currency_id);
            if existed {
                frame_system::Pallet::<T>::dec_consumers(who);
            }
        } else {
            let bounded: BoundedVec<BalanceLock<T::Balance>, T::MaxLocks> = locks.to_vec().try_into().map_err(|_| Error::<T>::MaxLocksExceeded)?;
            Locks::<T>::insert(who, currency_id, bounded);
            if !existed {
                let _ = frame_system::Pallet::<T>::inc_consumers(who);
            }
        }
        Ok(())
    }
}

impl<T: Config> MultiCurrency<T::AccountId> for Pallet<T> {
    type CurrencyId = T::CurrencyId;
    type Balance = T::Balance;
    fn minimum_balance(currency_id: T::CurrencyId) -> T::Balance {
        T::ExistentialDeposits::get(&currency_id)
    }
    fn total_issuance(currency_id: T::CurrencyId) -> T::Balance {
        Self::total_issuance(currency_id)
    }
    fn total_balance(currency_id: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, currency_id).total()
    }
    fn free_balance(currency_id: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, currency_id).free
    }
    fn ensure_can_withdraw(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let new_balance = <Self as MultiCurrency<_>>::free_balance(currency_id, who).checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
        ensure!(new_balance >= Self::accounts(who, currency_id).frozen(), Error::<T>::LiquidityRestrictions);
        Ok(())
    }
    fn transfer(currency_id: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_transfer(currency_id, from, to, amount, ExistenceRequirement::AllowDeath)
    }
    fn deposit(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_deposit(currency_id, who, amount, false, true)
    }
    fn withdraw(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_withdraw(currency_id, who, amount, ExistenceRequirement::AllowDeath, true)
    }
    fn can_slash(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero() || <Self as MultiCurrency<_>>::free_balance(currency_id, who) >= value
    }
    fn slash(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> T::Balance {
        if amount.is_zero() {
            return amount;
        }
        <hook!(OnSlash)>::on_slash(currency_id, who, amount);
        let account = Self::accounts(who, currency_id);
        let free = account.free.min(amount);
        let reserved = account.reserved.min(amount - free);
        Self::mutate_account(who, currency_id, |a, _| {
            a.free = account.free - free;
            a.reserved = account.reserved - reserved;
        });
        TotalIssuance::<T>::mutate(currency_id, |t| *t = t.saturating_sub(free + reserved));
        Self::deposit_event(Event::Slashed { currency_id, who: who.clone(), free_amount: free, reserved_amount: reserved });
        amount - free - reserved
    }
}

impl<T: Config> MultiCurrencyExtended<T::AccountId> for Pallet<T> {
    type Amount = T::Amount;
    fn update_balance(currency_id: T::CurrencyId, who: &T::AccountId, by_amount: T::Amount) -> DispatchResult {
        if by_amount.is_zero() {
            return Ok(());
        }
        if by_amount > T::Amount::zero() {
            let n: T::Balance = by_amount.try_into().map_err(|_| Error::<T>::AmountIntoBalanceFailed)?;
            <Self as MultiCurrency<_>>::deposit(currency_id, who, n)
        } else {
            Err(Error::<T>::AmountIntoBalanceFailed.into())
        }
    }
}

impl<T: Config> MultiLockableCurrency<T::AccountId> for Pallet<T> {
    type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
    fn set_lock(id: LockIdentifier, currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let mut locks: Vec<_> = Self::locks(who, currency_id).into_inner();
        match locks.iter_mut().find(|l| l.id == id) {
            Some(l) => l.amount = amount,
            None => locks.push(BalanceLock { id, amount }),
        }
        Self::update_locks(currency_id, who, &locks)?;
        Self::deposit_event(Event::LockSet { lock_id: id, currency_id, who: who.clone(), amount });
        Ok(())
    }
    fn extend_lock(id: LockIdentifier, currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let mut locks: Vec<_> = Self::locks(who, currency_id).into_inner();
        match locks.iter_mut().find(|l| l.id == id) {
            Some(l) => l.amount = l.amount.max(amount),
            None => locks.push(BalanceLock { id, amount }),
        }
        Self::update_locks(currency_id, who, &locks)
    }
    fn remove_lock(id: LockIdentifier, currency_id: T::CurrencyId, who: &T::AccountId) -> DispatchResult {
        let mut locks: Vec<_> = Self::locks(who, currency_id).into_inner();
        locks.retain(|l| l.id != id);
        Self::update_locks(currency_id, who, &locks)?;
        Self::deposit_event(Event::LockRemoved { lock_id: id, currency_id, who: who.clone() });
        Ok(())
    }
}

impl<T: Config> MultiReservableCurrency<T::AccountId> for Pallet<T> {
    fn can_reserve(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero() || Self::ensure_can_withdraw(currency_id, who, value).is_ok()
    }
    fn slash_reserved(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        <hook!(OnSlash)>::on_slash(currency_id, who, value);
        let reserved = <Self as MultiReservableCurrency<_>>::reserved_balance(currency_id, who);
        let actual = reserved.min(value);
        Self::mutate_account(who, currency_id, |a, _| a.reserved = reserved - actual);
        TotalIssuance::<T>::mutate(currency_id, |t| *t = t.saturating_sub(actual));
        Self::deposit_event(Event::Slashed { currency_id, who: who.clone(), free_amount: Zero::zero(), reserved_amount: actual });
        value - actual
    }
    fn reserved_balance(currency_id: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, currency_id).reserved
    }
    fn reserve(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> DispatchResult {
        if value.is_zero() {
            return Ok(());
        }
        Self::ensure_can_withdraw(currency_id, who, value)?;
        Self::mutate_account(who, currency_id, |a, _| {
            a.free = a.free.saturating_sub(value);
            a.reserved = a.reserved.saturating_add(value);
        });
        Self::deposit_event(Event::Reserved { currency_id, who: who.clone(), amount: value });
        Ok(())
    }
    fn unreserve(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        let remaining = Self::mutate_account(who, currency_id, |a, _| {
            let actual = a.reserved.min(value);
            a.reserved -= actual;
            a.free = a.free.saturating_add(actual);
            value - actual
        });
        Self::deposit_event(Event::Unreserved { currency_id, who: who.clone(), amount: value - remaining });
        remaining
    }
    fn repatriate_reserved(
        currency_id: T::CurrencyId,
        slashed: &T::AccountId,
        beneficiary: &T::AccountId,
        value: T::Balance,
        status: BalanceStatus,
    ) -> Result<T::Balance, DispatchError> {
        if value.is_zero() {
            return Ok(value);
        }
        if slashed == beneficiary {
            return Ok(match status {
                BalanceStatus::Free => Self::unreserve(currency_id, slashed, value),
                BalanceStatus::Reserved => value.saturating_sub(<Self as MultiReservableCurrency<_>>::reserved_balance(currency_id, slashed)),
            });
        }
        let from = Self::accounts(slashed, currency_id);
        let actual = from.reserved.min(value);
        Self::mutate_account(beneficiary, currency_id, |a, _| match status {
            BalanceStatus::Free => a.free = a.free.saturating_add(actual),
            BalanceStatus::Reserved => a.reserved = a.reserved.saturating_add(actual),
        });
        Self::mutate_account(slashed, currency_id, |a, _| a.reserved = from.reserved - actual);
        Self::deposit_event(Event::ReserveRepatriated { currency_id, from: slashed.clone(), to: beneficiary.clone(), amount: actual, status });
        Ok(value - actual)
    }
}

impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T> {
    type AssetId = T::CurrencyId;
    type Balance = T::Balance;
    fn total_issuance(asset: T::CurrencyId) -> T::Balance {
        Self::total_issuance(asset)
    }
    fn minimum_balance(asset: T::CurrencyId) -> T::Balance {
        T::ExistentialDeposits::get(&asset)
    }
    fn balance(asset: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, asset).free
    }
    fn total_balance(asset: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, asset).total()
    }
    fn reducible_balance(asset: T::CurrencyId, who: &T::AccountId, preservation: Preservation, _force: Fortitude) -> T::Balance {
        let a = Self::accounts(who, asset);
        let liquid = a.free.saturating_sub(a.frozen);
        if frame_system::Pallet::<T>::can_dec_provider(who) && preservation != Preservation::Protect {
            liquid
        } else {
            let must_remain = T::ExistentialDeposits::get(&asset).saturating_sub(a.total() - liquid);
            liquid.saturating_sub(must_remain)
        }
    }
    fn can_deposit(asset: T::CurrencyId, who: &T::AccountId, amount: T::Balance, _: Provenance) -> DepositConsequence {
        if amount.is_zero() {
            return DepositConsequence::Success;
        }
        if Self::total_issuance(asset).checked_add(&amount).is_none() {
            return DepositConsequence::Overflow;
        }
        let a = Self::accounts(who, asset);
        match a.total().checked_add(&amount) {
            None => DepositConsequence::Overflow,
            Some(n) if n < T::ExistentialDeposits::get(&asset) => DepositConsequence::BelowMinimum,
            Some(_) => DepositConsequence::Success,
        }
    }
    fn can_withdraw(asset: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
        if amount.is_zero() {
            return WithdrawConsequence::Success;
        }
        if Self::total_issuance(asset).checked_sub(&amount).is_none() {
            return WithdrawConsequence::Underflow;
        }
        let a = Self::accounts(who, asset);
        let Some(new_total) = a.total().checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
        let ed = T::ExistentialDeposits::get(&asset);
        let success = if new_total < ed {
            if frame_system::Pallet::<T>::can_dec_provider(who) {
                WithdrawConsequence::ReducedToZero(new_total)
            } else {
                return WithdrawConsequence::WouldDie;
            }
        } else {
            WithdrawConsequence::Success
        };
        match a.free.checked_sub(&amount) {
            None => WithdrawConsequence::BalanceLow,
            Some(b) if b < a.frozen => WithdrawConsequence::Frozen,
            _ => success,
        }
    }
    fn asset_exists(asset: T::CurrencyId) -> bool {
        TotalIssuance::<T>::contains_key(asset)
    }
}
#[allow(dead_code)]
fn _unused<T: Config>(a: &T::Balance) -> Option<T::Balance> {
    CheckedAdd::checked_add(a, a)
}
