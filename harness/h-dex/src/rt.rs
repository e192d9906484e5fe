//! The exchange: pairs, stable pools and the router with the tokens they move, wired as in the parachain.
use dex_general::{GenerateLpAssetId, ValidateAsset};
use dex_stable::traits::{StablePoolLpCurrencyIdGenerate, ValidateCurrency};
use frame_support::{
    traits::{Contains, Currency as _, Get, Imbalance, OnUnbalanced},
    PalletId,
};
pub use mockrt::*;
pub use primitives::{
    CurrencyId::{self, ForeignAsset, LendToken, LpToken, StableLpToken, Token},
    DOT, IBTC, INTR, KSM,
};
use sp_arithmetic::{FixedI128, FixedU128};
use sp_runtime::{traits::AccountIdConversion, AccountId32, BuildStorage};
use std::cell::{Cell, RefCell};

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Tokens: orml_tokens::{Pallet, Storage, Config<T>, Event<T>},
        General: dex_general::{Pallet, Call, Storage, Event<T>},
        Stable: dex_stable::{Pallet, Call, Storage, Event<T>},
        Router: dex_swap_router::{Pallet, Call, Event<T>},
        Currency: currency::{Pallet},
        Payment: multi_transaction_payment::{Pallet, Call},
        Costs: costs::{Pallet, Call},
    }
);
frame_support::parameter_types! {
    pub const BlockHashCount: u64 = 250;
    pub const SS58Prefix: u8 = 42;
}
impl frame_system::Config for Test {
    type BaseCallFilter = Allowed;
    type BlockWeights = ();
    type BlockLength = ();
    type DbWeight = ();
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type Nonce = u64;
    type Block = frame_system::mocking::MockBlock<Test>;
    type Hash = sp_core::H256;
    type Hashing = sp_runtime::traits::BlakeTwo256;
    type AccountId = AccountId32;
    type Lookup = sp_runtime::traits::IdentityLookup<Self::AccountId>;
    type RuntimeEvent = RuntimeEvent;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = ();
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = frame_support::traits::ConstU32<16>;
}
thread_local! {
    static NATIVE: Cell<CurrencyId> = Cell::new(Token(INTR));
    static SWAPS_OFF: Cell<bool> = Cell::new(false);
    static COLLECTED: RefCell<Vec<u128>> = RefCell::new(vec![]);
}
/// with the calls of the pairs switched off
pub fn swaps_off(x: bool) {
    SWAPS_OFF.with(|c| c.set(x))
}
pub struct Allowed;
impl Contains<RuntimeCall> for Allowed {
    fn contains(c: &RuntimeCall) -> bool {
        !SWAPS_OFF.with(|x| x.get()) || !matches!(c, RuntimeCall::General(_))
    }
}
pub struct NativeId;
impl NativeId {
    pub fn set(c: CurrencyId) {
        NATIVE.with(|x| x.set(c))
    }
}
impl Get<CurrencyId> for NativeId {
    fn get() -> CurrencyId {
        NATIVE.with(|c| c.get())
    }
}
pub type Native = orml_tokens::CurrencyAdapter<Test, NativeId>;
/// fees and tips go to one account, and what they were is written down
pub struct Collector;
pub fn collector() -> Acc {
    AccountId32::new([99; 32])
}
pub fn collected() -> Vec<u128> {
    COLLECTED.with(|v| v.take())
}
impl OnUnbalanced<orml_tokens::NegativeImbalance<Test, NativeId>> for Collector {
    fn on_unbalanceds<B>(amounts: impl Iterator<Item = orml_tokens::NegativeImbalance<Test, NativeId>>) {
        for x in amounts {
            COLLECTED.with(|v| v.borrow_mut().push(x.peek()));
            <Native as frame_support::traits::Currency<Acc>>::resolve_creating(&collector(), x);
        }
    }
}
pub struct NoConversion;
impl currency::CurrencyConversion<currency::Amount<Test>, CurrencyId> for NoConversion {
    fn convert(_: &currency::Amount<Test>, _: CurrencyId) -> Result<currency::Amount<Test>, sp_runtime::DispatchError> {
        Err(sp_runtime::DispatchError::Unavailable)
    }
}
impl currency::Config for Test {
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type UnsignedFixedPoint = FixedU128;
    type Balance = u128;
    type GetNativeCurrencyId = NativeId;
    type GetRelayChainCurrencyId = NativeId;
    type GetWrappedCurrencyId = NativeId;
    type CurrencyConversion = NoConversion;
}
impl multi_transaction_payment::Config for Test {
    type RuntimeCall = RuntimeCall;
    type Dex = General;
    type Currency = Native;
    type OnUnbalanced = Collector;
    type DexWeightInfo = ();
}
impl pallet_transaction_payment::Config for Test {
    type OnChargeTransaction = Payment;
}
/// calls that tell what they cost
#[frame_support::pallet]
pub mod costs {
    use frame_support::{
        dispatch::{DispatchErrorWithPostInfo, PostDispatchInfo},
        pallet_prelude::*,
    };
    use frame_system::pallet_prelude::*;

    #[pallet::config]
    pub trait Config: frame_system::Config {}
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::error]
    pub enum Error<T> {
        Fail,
    }
    /// who called, and how often
    #[pallet::storage]
    pub type Seen<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, u32, ValueQuery>;
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight((*_expected, if *operational { DispatchClass::Operational } else { DispatchClass::Normal }))]
        pub fn cost(origin: OriginFor<T>, _expected: Weight, actual: Option<Weight>, fail: bool, free: bool, operational: bool) -> DispatchResultWithPostInfo {
            let _ = operational;
            let who = ensure_signed(origin)?;
            Seen::<T>::mutate(who, |n| *n += 1);
            let post_info = PostDispatchInfo { actual_weight: actual, pays_fee: if free { Pays::No } else { Pays::Yes } };
            if fail {
                Err(DispatchErrorWithPostInfo { error: Error::<T>::Fail.into(), post_info })
            } else {
                Ok(post_info)
            }
        }
    }
}
impl costs::Config for Test {}
mockrt::mock_tokens!(Test, CurrencyId, u128);

frame_support::parameter_types! {
    pub const MinimumPeriod: u64 = 5;
    pub const GeneralId: PalletId = PalletId(*b"dex/genr");
    pub const StableId: PalletId = PalletId(*b"dex/stbl");
    pub const CurrencyLimit: u32 = 10;
    pub const StringLimit: u32 = 50;
    pub const MaxBootstrapRewards: u32 = 1000;
    pub const MaxBootstrapLimits: u32 = 1000;
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = MinimumPeriod;
    type WeightInfo = ();
}
pub struct PairLp;
impl GenerateLpAssetId<CurrencyId> for PairLp {
    fn generate_lp_asset_id(a: CurrencyId, b: CurrencyId) -> Option<CurrencyId> {
        CurrencyId::join_lp_token(a, b)
    }
}
/// one the network does not let into pairs, though shares of such a pair could be made
pub const BARRED: CurrencyId = ForeignAsset(13);
pub struct PairAsset;
impl ValidateAsset<CurrencyId> for PairAsset {
    fn validate_asset(id: &CurrencyId) -> bool {
        id.is_lp_token() && *id != BARRED
    }
}
impl dex_general::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type MultiCurrency = Tokens;
    type PalletId = GeneralId;
    type AssetId = CurrencyId;
    type EnsurePairAsset = PairAsset;
    type LpGenerate = PairLp;
    type WeightInfo = ();
    type MaxBootstrapRewards = MaxBootstrapRewards;
    type MaxBootstrapLimits = MaxBootstrapLimits;
}
pub struct PoolLp;
impl StablePoolLpCurrencyIdGenerate<CurrencyId, u32> for PoolLp {
    fn generate_by_pool_id(id: u32) -> CurrencyId {
        StableLpToken(id)
    }
}
pub struct PoolAsset;
impl ValidateCurrency<CurrencyId> for PoolAsset {
    fn validate_pooled_currency(_: &[CurrencyId]) -> bool {
        true
    }
    fn validate_pool_lp_currency(id: CurrencyId) -> bool {
        Tokens::total_issuance(id) == 0
    }
}
impl dex_stable::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type CurrencyId = CurrencyId;
    type MultiCurrency = Tokens;
    type PoolId = u32;
    type TimeProvider = Timestamp;
    type EnsurePoolAsset = PoolAsset;
    type LpGenerate = PoolLp;
    type PoolCurrencyLimit = CurrencyLimit;
    type PoolCurrencySymbolLimit = StringLimit;
    type PalletId = StableId;
    type WeightInfo = ();
}
impl dex_swap_router::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type StablePoolId = u32;
    type Balance = u128;
    type CurrencyId = CurrencyId;
    type GeneralAmm = General;
    type StableAmm = Stable;
    type GeneralWeightInfo = ();
    type StableWeightInfo = ();
    type WeightInfo = ();
}

pub type Acc = AccountId32;
pub fn user(i: usize) -> Acc {
    AccountId32::new([i as u8 + 1; 32])
}
pub fn by(i: usize) -> RuntimeOrigin {
    RuntimeOrigin::signed(user(i))
}
pub fn root() -> RuntimeOrigin {
    RuntimeOrigin::root()
}
pub fn boot_account() -> Acc {
    GeneralId::get().into_sub_account_truncating("boot")
}
pub fn bal(c: CurrencyId, who: &Acc) -> u128 {
    Tokens::accounts(who, c).free
}
pub fn issued(c: CurrencyId) -> u128 {
    Tokens::total_issuance(c)
}
pub fn give(c: CurrencyId, who: &Acc, x: u128) {
    use orml_traits::MultiCurrency;
    Tokens::deposit(c, who, x).unwrap()
}
pub fn send(c: CurrencyId, from: &Acc, to: &Acc, x: u128) -> Result<(), String> {
    use orml_traits::MultiCurrency;
    <Tokens as MultiCurrency<Acc>>::transfer(c, from, to, x).map_err(|e| format!("{e:?}"))
}
pub fn big(x: u128) -> BigInt {
    BigInt::from(x)
}
/// a * b / c, rounded down
pub fn md(a: u128, b: u128, c: u128) -> Option<u128> {
    (c > 0).then(|| big(a) * big(b) / big(c))?.to_u128()
}
pub fn sqrt(x: &BigInt) -> BigInt {
    x.sqrt()
}
pub fn open<R>(balances: Vec<(Acc, CurrencyId, u128)>, f: impl FnOnce() -> R) -> R {
    frame_system::set_quiet(true);
    swaps_off(false);
    collected();
    let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    orml_tokens::GenesisConfig::<Test> { balances }.assimilate_storage(&mut st).unwrap();
    sp_io::TestExternalities::from(st).execute_with(|| {
        System::set_block_number(1);
        Timestamp::set_timestamp(1_600_000_000_000);
        f()
    })
}
