//! The lending market with the oracle and the tokens it moves, wired as in the parachain.
use frame_support::{
    traits::{ConstU32, Hooks},
    BoundedVec, PalletId,
};
use frame_system::EnsureRoot;
pub use loans::{CurveModel, InterestRateModel, JumpModel, Market, MarketState};
pub use mockrt::*;
use oracle::OracleKey;
use orml_traits::currency::MutationHooks;
pub use primitives::{CurrencyId, CurrencyId::LendToken, CurrencyId::Token, DOT, IBTC, INTR, KSM};
pub use sp_arithmetic::{FixedI128, FixedU128, Permill};
use sp_runtime::{testing::TestXt, traits::AccountIdConversion, AccountId32, BuildStorage};

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Tokens: orml_tokens::{Pallet, Storage, Config<T>, Event<T>},
        Security: security::{Pallet, Call, Storage, Event<T>},
        Oracle: oracle::{Pallet, Call, Config<T>, Storage, Event<T>},
        Currency: currency::{Pallet},
        Loans: loans::{Pallet, Call, Storage, Event<T>, Config<T>},
    }
);
mockrt::mock_system!(Test, AccountId32, u64, frame_system::mocking::MockBlock<Test>);

pub struct LendHooks;
impl MutationHooks<AccountId32, CurrencyId, u128> for LendHooks {
    type OnDust = ();
    type OnSlash = loans::OnSlashHook<Test>;
    type PreDeposit = loans::PreDeposit<Test>;
    type PostDeposit = loans::PostDeposit<Test>;
    type PreTransfer = loans::PreTransfer<Test>;
    type PostTransfer = loans::PostTransfer<Test>;
    type OnNewTokenAccount = ();
    type OnKilledTokenAccount = ();
}
frame_support::parameter_types! {
    pub const MaxLocks: u32 = 50;
    pub const MinimumPeriod: u64 = 5;
    pub const GetNativeCurrencyId: CurrencyId = Token(INTR);
    pub const GetRelayChainCurrencyId: CurrencyId = Token(DOT);
    pub const GetWrappedCurrencyId: CurrencyId = Token(IBTC);
    pub const LoansPalletId: PalletId = PalletId(*b"par/loan");
}
orml_traits::parameter_type_with_key! {
    pub ExistentialDeposits: |_currency_id: CurrencyId| -> u128 { 0 };
}
impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = u128;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = LendHooks;
    type MaxLocks = MaxLocks;
    type DustRemovalWhitelist = frame_support::traits::Everything;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = MinimumPeriod;
    type WeightInfo = ();
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
    RuntimeCall: From<C>,
{
    type OverarchingCall = RuntimeCall;
    type Extrinsic = TestXt<RuntimeCall, ()>;
}
impl security::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl currency::Config for Test {
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type UnsignedFixedPoint = FixedU128;
    type Balance = u128;
    type GetNativeCurrencyId = GetNativeCurrencyId;
    type GetRelayChainCurrencyId = GetRelayChainCurrencyId;
    type GetWrappedCurrencyId = GetWrappedCurrencyId;
    type CurrencyConversion = currency::CurrencyConvert<Test, Oracle, Loans>;
}
impl oracle::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type OnExchangeRateChange = ();
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}
impl loans::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type PalletId = LoansPalletId;
    type ReserveOrigin = EnsureRoot<AccountId32>;
    type UpdateOrigin = EnsureRoot<AccountId32>;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type RewardAssetId = GetNativeCurrencyId;
    type ReferenceAssetId = GetWrappedCurrencyId;
    type OnExchangeRateChange = ();
}

pub const ONE: u128 = 1_000_000_000_000_000_000;
pub const REWARD: CurrencyId = Token(INTR);
/// the markets: the last is in the reference currency
pub const ASSETS: [CurrencyId; 3] = [Token(DOT), Token(KSM), Token(IBTC)];
pub const M: usize = 3;
pub const REF: usize = 2;
pub fn lend(m: usize) -> CurrencyId {
    LendToken(m as u32 + 1)
}
/// users, then the account of the pallet, of the incentive reserve and of the rewards
pub const USERS: usize = 5;
pub const POOL: usize = 5;
pub const INCENTIVE: usize = 6;
pub const REWARDS: usize = 7;
pub const ACCS: usize = 8;
pub fn acc(i: usize) -> AccountId32 {
    let pallet = LoansPalletId::get();
    match i {
        POOL => pallet.into_account_truncating(),
        INCENTIVE => Loans::incentive_reward_account_id(),
        REWARDS => Loans::reward_account_id(),
        _ => AccountId32::new([i as u8 + 1; 32]),
    }
}
pub fn by(i: usize) -> RuntimeOrigin {
    RuntimeOrigin::signed(acc(i))
}
pub const ORACLE: AccountId32 = AccountId32::new([90; 32]);
pub const YEAR: u64 = 31_536_000;

pub fn fxu(inner: u128) -> FixedU128 {
    FixedU128::from_inner(inner)
}
pub fn now() -> u64 {
    Timestamp::get() / 1000
}
pub fn open<R>(min: u128, max: u128, balances: Vec<(AccountId32, CurrencyId, u128)>, f: impl FnOnce() -> R) -> R {
    frame_system::set_quiet(true);
    let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    orml_tokens::GenesisConfig::<Test> { balances }.assimilate_storage(&mut st).unwrap();
    oracle::GenesisConfig::<Test> {
        authorized_oracles: vec![(ORACLE, BoundedVec::truncate_from(b"a".to_vec()))],
        max_delay: u32::MAX,
    }
    .assimilate_storage(&mut st)
    .unwrap();
    loans::GenesisConfig::<Test> { max_exchange_rate: fxu(max), min_exchange_rate: fxu(min), _marker: Default::default() }
        .assimilate_storage(&mut st)
        .unwrap();
    sp_io::TestExternalities::from(st).execute_with(|| {
        System::set_block_number(1);
        Security::set_active_block_number(1);
        Timestamp::set_timestamp(6000);
        f()
    })
}
/// the price of the assets, in units of each per unit of the reference
pub fn feed(rates: &[u128; M]) -> Result<(), String> {
    let values = (0..M).filter(|m| *m != REF).map(|m| (OracleKey::ExchangeRate(ASSETS[m]), fxu(rates[m]))).collect();
    Oracle::feed_values(RuntimeOrigin::signed(ORACLE), values).map_err(|e| format!("feed_values: {e:?}"))?;
    <Oracle as Hooks<u64>>::on_initialize(System::block_number());
    Ok(())
}
pub fn pass(secs: u64, blocks: u64) {
    Timestamp::set_timestamp(Timestamp::get() + secs * 1000);
    Security::set_active_block_number(Security::active_block_number() + blocks);
    System::set_block_number(System::block_number() + blocks);
}
