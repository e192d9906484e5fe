//! Governance and emission: the pallets of the native token and of the farms, wired as in the parachain.
use frame_support::{
    traits::{
        schedule::{v3::Named, DispatchTime, Period},
        Bounded, ConstU32, Contains, QueryPreimage, StorePreimage,
    },
    PalletId,
};
use frame_system::EnsureRoot;
pub use frame_support::traits::Get;
pub use mockrt::*;
pub use primitives::{CurrencyId, CurrencyId::{LpToken, StableLpToken, Token}, DOT, IBTC, INTR, KSM};
pub use sp_arithmetic::{FixedI128, FixedU128};
pub use sp_core::H256;
use sp_runtime::{
    traits::{AccountIdConversion, Convert},
    AccountId32, BuildStorage, DispatchError, DispatchResult,
};
use std::cell::{Cell, RefCell};


frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Tokens: orml_tokens::{Pallet, Storage, Config<T>, Event<T>},
        EscrowRewards: reward::<Instance1>::{Pallet, Call, Storage, Event<T>},
        FarmingRewards: reward::<Instance2>::{Pallet, Call, Storage, Event<T>},
        Escrow: escrow::{Pallet, Call, Storage, Event<T>},
        EscrowAnnuity: annuity::<Instance1>::{Pallet, Call, Storage, Event<T>},
        Supply: supply::{Pallet, Call, Storage, Config<T>, Event<T>},
        Farming: farming::{Pallet, Call, Storage, Event<T>},
        ClientsInfo: clients_info::{Pallet, Call, Storage, Event<T>},
        TxPause: tx_pause::{Pallet, Call, Storage, Config<T>, Event<T>},
        Democracy: democracy::{Pallet, Call, Storage, Config<T>, Event<T>},
        Collators: collator_selection::{Pallet, Call, Storage, Config<T>, Event<T>},
    }
);
mockrt::mock_system!(Test, AccountId32, u32, frame_system::mocking::MockBlock<Test>);
frame_support::parameter_types! { pub const MaxLocks: u32 = 50; }
orml_traits::parameter_type_with_key! {
    pub ExistentialDeposits: |id: CurrencyId| -> u128 { if *id == NativeId::get() { NativeEd::get() } else { 0 } };
}
impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = u128;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = ();
    type MaxLocks = MaxLocks;
    type DustRemovalWhitelist = frame_support::traits::Everything;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}

/// what a history sets before it starts
macro_rules! knobs {
    ($($name:ident: $t:ty = $v:expr;)*) => {
        $(
            pub struct $name;
            impl $name {
                fn with<R>(f: impl FnOnce(&Cell<$t>) -> R) -> R {
                    thread_local!(static X: Cell<$t> = Cell::new($v));
                    X.with(f)
                }
                pub fn set(x: $t) {
                    Self::with(|c| c.set(x))
                }
            }
            impl Get<$t> for $name {
                fn get() -> $t {
                    Self::with(|c| c.get())
                }
            }
        )*
    };
}
knobs! {
    Span: u64 = 10;
    MaxPeriod: u64 = 100;
    EmissionPeriod: u64 = 100;
    InflationPeriod: u64 = 100;
    TotalWrapped: u128 = 0;
    RewardPeriod: u64 = 10;
    PauseTooLongNames: bool = false;
    EnactmentPeriod: u64 = 2;
    VotingPeriod: u64 = 4;
    FastTrackVotingPeriod: u64 = 2;
    LaunchPeriod: u64 = 60 * 60 * 24 * 7;
    MinimumDeposit: u128 = 1;
    NativeEd: u128 = 0;
    KickThreshold: u64 = 10;
    MinCandidates: u32 = 1;
    MaxCandidates: u32 = 6;
}
frame_support::parameter_types! {
    pub const MinimumPeriod: u64 = 5;
    pub const NativeId: CurrencyId = Token(INTR);
    pub const AnnuityId: PalletId = PalletId(*b"esc/annu");
    pub const SupplyId: PalletId = PalletId(*b"mod/supl");
    pub const PotId: PalletId = PalletId(*b"PotStake");
    pub const FarmingId: PalletId = PalletId(*b"mod/farm");
    pub const MaxNameLen: u32 = 20;
    pub const MaxVotes: u32 = 3;
    pub const MaxProposals: u32 = 4;
    pub const MaxDeposits: u32 = 3;
    pub TreasuryAccount: AccountId32 = PalletId(*b"mod/trsy").into_account_truncating();
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = MinimumPeriod;
    type WeightInfo = ();
}
pub type Native = orml_tokens::CurrencyAdapter<Test, NativeId>;
pub struct Blocks;
impl Convert<u64, u128> for Blocks {
    fn convert(a: u64) -> u128 {
        a.into()
    }
}
impl reward::Config<reward::Instance1> for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = ();
    type StakeId = AccountId32;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<1>;
}
impl reward::Config<reward::Instance2> for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = CurrencyId;
    type StakeId = AccountId32;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<2>;
}
impl escrow::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberToBalance = Blocks;
    type Currency = Native;
    type Span = Span;
    type MaxPeriod = MaxPeriod;
    type EscrowRewards = EscrowRewards;
    type WeightInfo = ();
}
pub struct Provider;
impl annuity::BlockRewardProvider<AccountId32> for Provider {
    type Currency = Native;
    fn distribute_block_reward(_: &AccountId32, amount: u128) -> DispatchResult {
        <EscrowRewards as reward::RewardsApi<(), AccountId32, u128>>::distribute_reward(&(), NativeId::get(), amount)
    }
    fn withdraw_reward(who: &AccountId32) -> Result<u128, DispatchError> {
        <EscrowRewards as reward::RewardsApi<(), AccountId32, u128>>::withdraw_reward(&(), who, NativeId::get())
    }
}
impl annuity::Config<annuity::Instance1> for Test {
    type AnnuityPalletId = AnnuityId;
    type RuntimeEvent = RuntimeEvent;
    type Currency = Native;
    type BlockRewardProvider = Provider;
    type BlockNumberToBalance = Blocks;
    type EmissionPeriod = EmissionPeriod;
    type TotalWrapped = TotalWrapped;
    type WeightInfo = ();
}
thread_local! {
    static INFLATED: RefCell<Vec<(Acc, u128)>> = RefCell::new(vec![]);
}
pub fn inflated() -> Vec<(Acc, u128)> {
    INFLATED.with(|v| v.take())
}
pub struct Inflated;
impl supply::OnInflation<AccountId32> for Inflated {
    type Currency = Native;
    fn on_inflation(from: &AccountId32, amount: u128) {
        INFLATED.with(|v| v.borrow_mut().push((from.clone(), amount)))
    }
}
impl supply::Config for Test {
    type SupplyPalletId = SupplyId;
    type RuntimeEvent = RuntimeEvent;
    type UnsignedFixedPoint = FixedU128;
    type Currency = Native;
    type InflationPeriod = InflationPeriod;
    type OnInflation = Inflated;
    type WeightInfo = ();
}
impl farming::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type FarmingPalletId = FarmingId;
    type TreasuryAccountId = TreasuryAccount;
    type RewardPeriod = RewardPeriod;
    type RewardPools = FarmingRewards;
    type MultiCurrency = Tokens;
    type WeightInfo = ();
}
impl clients_info::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<12>;
    type MaxUriLength = ConstU32<16>;
}
pub type FullName = tx_pause::FullNameOf<Test>;
thread_local! {
    static WHITE: RefCell<Vec<(Vec<u8>, Option<Vec<u8>>)>> = RefCell::new(vec![]);
}
pub fn set_white(w: Vec<(Vec<u8>, Option<Vec<u8>>)>) {
    WHITE.with(|v| *v.borrow_mut() = w)
}
pub struct White;
impl Contains<FullName> for White {
    fn contains((p, c): &FullName) -> bool {
        WHITE.with(|v| v.borrow().iter().any(|(wp, wc)| wp[..] == p[..] && wc.as_deref() == c.as_ref().map(|x| &x[..])))
    }
}
impl tx_pause::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type RuntimeCall = RuntimeCall;
    type PauseOrigin = EnsureRoot<AccountId32>;
    type UnpauseOrigin = EnsureRoot<AccountId32>;
    type WhitelistCallNames = White;
    type MaxNameLen = MaxNameLen;
    type PauseTooLongNames = PauseTooLongNames;
    type WeightInfo = ();
}

/// the preimages there are, and how often each is held
pub struct Preimages;
thread_local! {
    static HELD: RefCell<Vec<(H256, i64)>> = RefCell::new(vec![]);
    static HAVE: RefCell<Vec<H256>> = RefCell::new(vec![]);
    static AGENDA: RefCell<Vec<Task>> = RefCell::new(vec![]);
}
/// held and let go by the pallet: call it before a call that may fail, and put back what was there
pub fn held() -> Vec<(H256, i64)> {
    HELD.with(|h| h.borrow().clone())
}
pub fn set_held(v: Vec<(H256, i64)>) {
    HELD.with(|h| *h.borrow_mut() = v)
}
pub fn set_have(v: Vec<H256>) {
    HAVE.with(|h| *h.borrow_mut() = v)
}
fn hold_by(hash: &H256, d: i64) {
    HELD.with(|h| {
        let mut h = h.borrow_mut();
        match h.iter_mut().find(|x| x.0 == *hash) {
            Some(x) => x.1 += d,
            None => h.push((*hash, d)),
        }
    })
}
impl QueryPreimage for Preimages {
    fn len(hash: &H256) -> Option<u32> {
        HAVE.with(|h| h.borrow().contains(hash).then_some(100))
    }
    fn fetch(_: &H256, _: Option<u32>) -> Result<Vec<u8>, DispatchError> {
        Err(DispatchError::Unavailable)
    }
    fn is_requested(hash: &H256) -> bool {
        HELD.with(|h| h.borrow().iter().any(|x| x.0 == *hash && x.1 > 0))
    }
    fn request(hash: &H256) {
        hold_by(hash, 1)
    }
    fn unrequest(hash: &H256) {
        hold_by(hash, -1)
    }
}
impl StorePreimage for Preimages {
    const MAX_LENGTH: usize = 1 << 20;
    fn note(_: Vec<u8>) -> Result<H256, DispatchError> {
        Err(DispatchError::Unavailable)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Task {
    pub id: [u8; 32],
    pub at: u64,
    pub once: bool,
    pub root: bool,
    pub call: H256,
}
pub fn agenda() -> Vec<Task> {
    AGENDA.with(|a| a.take())
}
pub struct Agenda;
impl Named<u64, RuntimeCall, frame_system::RawOrigin<AccountId32>> for Agenda {
    type Address = (u64, u32);
    fn schedule_named(
        id: [u8; 32],
        when: DispatchTime<u64>,
        every: Option<Period<u64>>,
        _: u8,
        origin: frame_system::RawOrigin<AccountId32>,
        call: Bounded<RuntimeCall>,
    ) -> Result<Self::Address, DispatchError> {
        let at = match when {
            DispatchTime::At(n) => n,
            DispatchTime::After(n) => System::block_number() + n + 1,
        };
        AGENDA.with(|a| a.borrow_mut().push(Task { id, at, once: every.is_none(), root: matches!(origin, frame_system::RawOrigin::Root), call: call.hash() }));
        Ok((at, 0))
    }
    fn cancel_named(_: [u8; 32]) -> Result<(), DispatchError> {
        Err(DispatchError::Unavailable)
    }
    fn reschedule_named(_: [u8; 32], _: DispatchTime<u64>) -> Result<Self::Address, DispatchError> {
        Err(DispatchError::Unavailable)
    }
    fn next_dispatch_time(_: [u8; 32]) -> Result<u64, DispatchError> {
        Err(DispatchError::Unavailable)
    }
}
impl democracy::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Scheduler = Agenda;
    type Preimages = Preimages;
    type Currency = Escrow;
    type EnactmentPeriod = EnactmentPeriod;
    type VotingPeriod = VotingPeriod;
    type FastTrackVotingPeriod = FastTrackVotingPeriod;
    type MinimumDeposit = MinimumDeposit;
    type MaxVotes = MaxVotes;
    type MaxProposals = MaxProposals;
    type MaxDeposits = MaxDeposits;
    type FastTrackOrigin = EnsureRoot<AccountId32>;
    type PalletsOrigin = frame_system::RawOrigin<AccountId32>;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type LaunchPeriod = LaunchPeriod;
    type TreasuryAccount = TreasuryAccount;
    type TreasuryCurrency = Native;
}

thread_local! {
    static KEYS: RefCell<Vec<AccountId32>> = RefCell::new(vec![]);
    static NAMELESS: RefCell<Vec<AccountId32>> = RefCell::new(vec![]);
}
/// who has session keys, and who has no validator id at all
pub fn set_keys(with_keys: Vec<Acc>, nameless: Vec<Acc>) {
    KEYS.with(|k| *k.borrow_mut() = with_keys);
    NAMELESS.with(|k| *k.borrow_mut() = nameless);
}
pub struct Keys;
impl frame_support::traits::ValidatorRegistration<[u8; 32]> for Keys {
    fn is_registered(id: &[u8; 32]) -> bool {
        KEYS.with(|k| k.borrow().iter().any(|a| AsRef::<[u8; 32]>::as_ref(a) == id))
    }
}
pub struct ValidatorName;
impl Convert<Acc, Option<[u8; 32]>> for ValidatorName {
    fn convert(a: Acc) -> Option<[u8; 32]> {
        NAMELESS.with(|k| (!k.borrow().contains(&a)).then(|| a.into()))
    }
}
impl pallet_authorship::Config for Test {
    type FindAuthor = ();
    type EventHandler = Collators;
}
impl collator_selection::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type StakingCurrency = Escrow;
    type RewardsCurrency = Native;
    type UpdateOrigin = EnsureRoot<AccountId32>;
    type PotId = PotId;
    type MaxCandidates = MaxCandidates;
    type MinCandidates = MinCandidates;
    type MaxInvulnerables = ConstU32<3>;
    type KickThreshold = KickThreshold;
    type ValidatorId = [u8; 32];
    type ValidatorIdOf = ValidatorName;
    type ValidatorRegistration = Keys;
    type WeightInfo = ();
}

pub type Acc = AccountId32;
pub fn user(i: usize) -> Acc {
    AccountId32::new([i as u8 + 1; 32])
}
pub fn by(i: usize) -> RuntimeOrigin {
    RuntimeOrigin::signed(user(i))
}
pub fn root() -> RuntimeOrigin {
    RuntimeOrigin::root()
}
pub fn origin(as_root: bool) -> RuntimeOrigin {
    if as_root {
        root()
    } else {
        by(0)
    }
}
pub fn annuity_account() -> Acc {
    AnnuityId::get().into_account_truncating()
}
pub fn supply_account() -> Acc {
    SupplyId::get().into_account_truncating()
}
pub fn farm_account(pool: CurrencyId) -> Acc {
    FarmingId::get().into_sub_account_truncating(pool)
}
pub fn bal(c: CurrencyId, who: &Acc) -> u128 {
    Tokens::accounts(who, c).free
}
pub fn reserved(c: CurrencyId, who: &Acc) -> u128 {
    Tokens::accounts(who, c).reserved
}
pub fn issued(c: CurrencyId) -> u128 {
    Tokens::total_issuance(c)
}
pub fn give(c: CurrencyId, who: &Acc, x: u128) {
    use orml_traits::MultiCurrency;
    Tokens::deposit(c, who, x).unwrap()
}
pub fn send(c: CurrencyId, from: &Acc, to: &Acc, x: u128) -> Result<(), String> {
    use orml_traits::MultiCurrency;
    tx(|| <Tokens as MultiCurrency<Acc>>::transfer(c, from, to, x)).map_err(|e| format!("{e:?}"))
}
pub fn now() -> u64 {
    System::block_number()
}
pub fn open<R>(f: impl FnOnce() -> R) -> R {
    open_with(0, 0, FixedU128::from_inner(0), f)
}
pub fn open_with<R>(supply: u128, start: u64, inflation: FixedU128, f: impl FnOnce() -> R) -> R {
    frame_system::set_quiet(true);
    inflated();
    agenda();
    set_held(vec![]);
    set_have(vec![]);
    set_white(vec![]);
    NativeEd::set(0);
    let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    supply::GenesisConfig::<Test> { initial_supply: supply, start_height: start, inflation }.assimilate_storage(&mut st).unwrap();
    sp_io::TestExternalities::from(st).execute_with(|| {
        System::set_block_number(1);
        Timestamp::set_timestamp(1_600_000_000_000);
        f()
    })
}
