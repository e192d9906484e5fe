//! One network.
pub use super::rt::{self, *};
pub use super::{FEES_TO_AUTHOR, NATIVE, RELAY, WRAPPED, WRAPPED_PER};
pub use frame_support::traits::{Get, Hooks};
pub use mockrt::{dry, floor_u128, fx, rat, ratio, show, tx, ulp, Rat, Signed, Zero};
pub type VaultId = primitives::VaultId<AccountId, CurrencyId>;
pub type NativeCurrency = orml_tokens::CurrencyAdapter<Runtime, GetNativeCurrencyId>;
pub use orml_traits::MultiCurrency;
pub use pbt::{check, check_eq, fail, guarded, Src, R};
pub use primitives::{AccountId, CurrencyId};
pub use reward::RewardsApi;
use sp_runtime::BuildStorage;

pub const YEAR: u32 = 365 * 24 * 60 * 5;
pub const WEEK: u32 = 7 * 24 * 60 * 5;

pub fn user(i: usize) -> AccountId {
    AccountId::new([10 + i as u8; 32])
}
pub fn by(i: usize) -> RuntimeOrigin {
    RuntimeOrigin::signed(user(i))
}
pub fn give(c: CurrencyId, who: &AccountId, x: u128) {
    Tokens::deposit(c, who, x).unwrap()
}
pub fn bal(c: CurrencyId, who: &AccountId) -> u128 {
    Tokens::accounts(who, c).free
}
pub fn issuance(c: CurrencyId) -> u128 {
    Tokens::total_issuance(c)
}
pub fn pair(c: CurrencyId) -> primitives::VaultCurrencyPair<CurrencyId> {
    primitives::VaultCurrencyPair { collateral: c, wrapped: WRAPPED }
}
pub fn size(s: &mut Src) -> u128 {
    match s.below(3) {
        0 => s.u128(20_000_000),
        1 => s.u128(1_000_000_000_000),
        _ => s.u128(10u128.pow(18)),
    }
}
pub fn err(e: impl std::fmt::Debug) -> String {
    format!("{e:?}")
}
/// amount and end of a lock
pub fn lock(u: usize) -> (u128, u32) {
    use codec::{Decode, Encode};
    Decode::decode(&mut &Escrow::locked_balance(user(u)).encode()[..]).unwrap()
}
/// a chain with its oracle and the thresholds of two collaterals
pub fn open<T>(f: impl FnOnce() -> T) -> T {
    open_with(false, f)
}
/// every payment counts as proven, or none
pub fn open_with<T>(proven: bool, f: impl FnOnce() -> T) -> T {
    frame_system::set_quiet(true);
    let fixed = |n: u128| UnsignedFixedPoint::from_inner(n * 10u128.pow(16));
    let cols = [NATIVE, RELAY];
    let each = |n: u128| cols.iter().map(|c| (pair(*c), fixed(n))).collect::<Vec<_>>();
    let mut st = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
    vault_registry::GenesisConfig::<Runtime> {
        minimum_collateral_vault: cols.iter().map(|c| (*c, 0)).collect(),
        punishment_delay: 8640,
        system_collateral_ceiling: cols.iter().map(|c| (pair(*c), u128::MAX / 2)).collect(),
        secure_collateral_threshold: each(260),
        premium_redeem_threshold: each(200),
        liquidation_collateral_threshold: each(150),
    }
    .assimilate_storage(&mut st)
    .unwrap();
    oracle::GenesisConfig::<Runtime> { authorized_oracles: vec![(user(90), Default::default())], max_delay: 3_600_000 }.assimilate_storage(&mut st).unwrap();
    nomination::GenesisConfig::<Runtime> { is_nomination_enabled: true, _marker: Default::default() }.assimilate_storage(&mut st).unwrap();
    loans::GenesisConfig::<Runtime> {
        max_exchange_rate: primitives::Rate::from_inner(10u128.pow(18)),
        min_exchange_rate: primitives::Rate::from_inner(2 * 10u128.pow(16)),
        _marker: Default::default(),
    }
    .assimilate_storage(&mut st)
    .unwrap();
    btc_relay::GenesisConfig::<Runtime> { bitcoin_confirmations: 1, parachain_confirmations: 0, disable_difficulty_check: false, disable_inclusion_check: proven, ..Default::default() }
        .assimilate_storage(&mut st)
        .unwrap();
    sp_io::TestExternalities::from(st).execute_with(|| {
        System::set_block_number(1);
        Security::set_active_block_number(1);
        f()
    })
}
pub fn now() -> u32 {
    System::block_number()
}
/// the hooks of the pallets that emit, as the runtime runs them
pub fn block(n: u32) -> Result<(), String> {
    System::set_block_number(n);
    guarded(|| {
        Supply::on_initialize(n);
        EscrowAnnuity::on_initialize(n);
        VaultAnnuity::on_initialize(n);
    })
}

/// the smallest lock with a vote that does not vanish
pub fn least_lock() -> u128 {
    <Runtime as escrow::Config>::MaxPeriod::get() as u128
}
