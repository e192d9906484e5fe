pub use super::tokens::{BalanceStatus, ExistenceRequirement, WithdrawReasons};
use super::{SameOrOther, TryDrop};
use codec::MaxEncodedLen;
use sp_runtime::{traits::MaybeSerializeDeserialize, DispatchError, DispatchResult};

pub type LockIdentifier = [u8; 8];

pub trait Imbalance<Balance>: Sized + TryDrop + Default {
    type Opposite: Imbalance<Balance>;
    fn zero() -> Self;
    fn drop_zero(self) -> Result<(), Self>;
    fn split(self, amount: Balance) -> (Self, Self);
    fn ration(self, first: u32, second: u32) -> (Self, Self)
    where
        Balance: From<u32> + sp_runtime::traits::Saturating + core::ops::Div<Output = Balance>,
    {
        let total: u32 = first.saturating_add(second);
        if total == 0 {
            return (Self::zero(), Self::zero());
        }
        let amount1 = self.peek().saturating_mul(first.into()) / total.into();
        self.split(amount1)
    }
    fn merge(self, other: Self) -> Self;
    fn merge_into(self, other: &mut Self) {
        let mut result = Self::zero();
        core::mem::swap(&mut result, other);
        *other = result.merge(self)
    }
    fn subsume(&mut self, other: Self);
    fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
    fn peek(&self) -> Balance;
}

pub enum SignedImbalance<B, PositiveImbalance: Imbalance<B>> {
    Positive(PositiveImbalance),
    Negative(PositiveImbalance::Opposite),
}
impl<B: Default, P: Imbalance<B, Opposite = N>, N: Imbalance<B, Opposite = P>> SignedImbalance<B, P> {
    pub fn zero() -> Self {
        SignedImbalance::Positive(P::zero())
    }
}

pub trait OnUnbalanced<Imbalance: TryDrop> {
    fn on_unbalanceds<B>(amounts: impl Iterator<Item = Imbalance>)
    where
        Imbalance: super::Imbalance<B>,
    {
        Self::on_unbalanced(amounts.fold(<Imbalance as super::Imbalance<B>>::zero(), |i, x| x.merge(i)))
    }
    fn on_unbalanced(amount: Imbalance) {
        amount.try_drop().unwrap_or_else(Self::on_nonzero_unbalanced)
    }
    fn on_nonzero_unbalanced(amount: Imbalance) {
        drop(amount);
    }
}
impl<I: TryDrop> OnUnbalanced<I> for () {}

pub trait Currency<AccountId> {
    type Balance: sp_runtime::traits::AtLeast32BitUnsigned
        + codec::FullCodec
        + Copy
        + MaybeSerializeDeserialize
        + core::fmt::Debug
        + Default
        + From<u32>
        + scale_info::TypeInfo
        + MaxEncodedLen
        + sp_runtime::FixedPointOperand;
    type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
    type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
    fn total_balance(who: &AccountId) -> Self::Balance;
    fn can_slash(who: &AccountId, value: Self::Balance) -> bool;
    fn total_issuance() -> Self::Balance;
    fn active_issuance() -> Self::Balance {
        Self::total_issuance()
    }
    fn deactivate(_: Self::Balance) {}
    fn reactivate(_: Self::Balance) {}
    fn minimum_balance() -> Self::Balance;
    fn burn(amount: Self::Balance) -> Self::PositiveImbalance;
    fn issue(amount: Self::Balance) -> Self::NegativeImbalance;
    fn pair(amount: Self::Balance) -> (Self::PositiveImbalance, Self::NegativeImbalance) {
        (Self::burn(amount), Self::issue(amount))
    }
    fn free_balance(who: &AccountId) -> Self::Balance;
    fn ensure_can_withdraw(who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons, new_balance: Self::Balance) -> DispatchResult;
    fn transfer(source: &AccountId, dest: &AccountId, value: Self::Balance, existence: ExistenceRequirement) -> DispatchResult;
    fn slash(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn deposit_into_existing(who: &AccountId, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
    fn resolve_into_existing(who: &AccountId, value: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> {
        let v = value.peek();
        match Self::deposit_into_existing(who, v) {
            Ok(opposite) => Ok(drop(value.offset(opposite))),
            _ => Err(value),
        }
    }
    fn deposit_creating(who: &AccountId, value: Self::Balance) -> Self::PositiveImbalance;
    fn resolve_creating(who: &AccountId, value: Self::NegativeImbalance) {
        let v = value.peek();
        drop(value.offset(Self::deposit_creating(who, v)));
    }
    fn withdraw(
        who: &AccountId,
        value: Self::Balance,
        reasons: WithdrawReasons,
        liveness: ExistenceRequirement,
    ) -> Result<Self::NegativeImbalance, DispatchError>;
    fn settle(
        who: &AccountId,
        value: Self::PositiveImbalance,
        reasons: WithdrawReasons,
        liveness: ExistenceRequirement,
    ) -> Result<(), Self::PositiveImbalance> {
        let v = value.peek();
        match Self::withdraw(who, v, reasons, liveness) {
            Ok(opposite) => Ok(drop(value.offset(opposite))),
            _ => Err(value),
        }
    }
    fn make_free_balance_be(who: &AccountId, balance: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
}

pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
    fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
    fn slash_reserved(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn reserved_balance(who: &AccountId) -> Self::Balance;
    fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
    fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn repatriate_reserved(
        slashed: &AccountId,
        beneficiary: &AccountId,
        value: Self::Balance,
        status: BalanceStatus,
    ) -> Result<Self::Balance, DispatchError>;
}

pub trait LockableCurrency<AccountId>: Currency<AccountId> {
    type Moment;
    type MaxLocks: super::Get<u32>;
    fn set_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
    fn extend_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
    fn remove_lock(id: LockIdentifier, who: &AccountId);
}
