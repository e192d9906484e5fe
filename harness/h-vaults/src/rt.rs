//! The runtime the whole vault protocol runs in: every pallet of it, wired as in the parachain.
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    types::{BlockHeader, FullTransactionProof, H256Le, LockTime, Transaction, TransactionInput, TransactionInputSource, TransactionOutput},
    Script,
};
use frame_support::{
    traits::{ConstU32, Hooks},
    BoundedVec, PalletId,
};
use frame_system::EnsureRoot;
pub use mockrt::*;
pub use oracle::OracleKey;
pub use primitives::{CurrencyId, CurrencyId::Token, VaultCurrencyPair, VaultId, DOT, IBTC, INTR, KSM};
use primitives::Rate;
pub use sp_arithmetic::{FixedI128, FixedU128};
use sp_core::U256;
use sp_runtime::{testing::TestXt, traits::AccountIdConversion, BuildStorage};

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Tokens: orml_tokens::{Pallet, Storage, Config<T>, Event<T>},
        CapacityRewards: reward::<Instance1>::{Pallet, Call, Storage, Event<T>},
        VaultRewards: reward::<Instance2>::{Pallet, Call, Storage, Event<T>},
        VaultStaking: staking::{Pallet, Storage, Event<T>},
        BTCRelay: btc_relay::{Pallet, Call, Config<T>, Storage, Event<T>},
        Security: security::{Pallet, Call, Storage, Event<T>},
        VaultRegistry: vault_registry::{Pallet, Call, Config<T>, Storage, Event<T>},
        Oracle: oracle::{Pallet, Call, Config<T>, Storage, Event<T>},
        Issue: issue::{Pallet, Call, Config<T>, Storage, Event<T>},
        Redeem: redeem::{Pallet, Call, Config<T>, Storage, Event<T>},
        Replace: replace::{Pallet, Call, Config<T>, Storage, Event<T>},
        Fee: fee::{Pallet, Call, Config<T>, Storage},
        Currency: currency::{Pallet},
        Nomination: nomination::{Pallet, Call, Storage, Config<T>, Event<T>},
        Loans: loans::{Pallet, Call, Storage, Event<T>, Config<T>},
    }
);
mockrt::mock_system!(Test, u64, u64, frame_system::mocking::MockBlock<Test>);
mockrt::mock_tokens!(Test, CurrencyId, u128);

pub const PER: u64 = 100;
pub const NATIVE: CurrencyId = Token(INTR);
pub const WRAPPED: CurrencyId = Token(IBTC);
frame_support::parameter_types! {
    pub const ParachainBlocksPerBitcoinBlock: u64 = PER;
    pub const MinimumPeriod: u64 = 5;
    pub const GetNativeCurrencyId: CurrencyId = NATIVE;
    pub const GetRelayChainCurrencyId: CurrencyId = Token(DOT);
    pub const GetWrappedCurrencyId: CurrencyId = WRAPPED;
    pub const VaultPalletId: PalletId = PalletId(*b"vreg/mod");
    pub const TreasuryPalletId: PalletId = PalletId(*b"trsy/mod");
    pub const FeePalletId: PalletId = PalletId(*b"fees/mod");
    pub const LoansPalletId: PalletId = PalletId(*b"par/loan");
    pub const MaxExpectedValue: FixedU128 = FixedU128::from_inner(1_000_000_000_000_000_000);
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = MinimumPeriod;
    type WeightInfo = ();
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
    RuntimeCall: From<C>,
{
    type OverarchingCall = RuntimeCall;
    type Extrinsic = TestXt<RuntimeCall, ()>;
}
impl security::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl btc_relay::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type ParachainBlocksPerBitcoinBlock = ParachainBlocksPerBitcoinBlock;
    type WeightInfo = ();
}
impl currency::Config for Test {
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type UnsignedFixedPoint = FixedU128;
    type Balance = u128;
    type GetNativeCurrencyId = GetNativeCurrencyId;
    type GetRelayChainCurrencyId = GetRelayChainCurrencyId;
    type GetWrappedCurrencyId = GetWrappedCurrencyId;
    type CurrencyConversion = currency::CurrencyConvert<Test, Oracle, Loans>;
}
impl reward::Config<reward::Instance1> for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = ();
    type StakeId = CurrencyId;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<10>;
}
impl reward::Config<reward::Instance2> for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = CurrencyId;
    type StakeId = VaultId<u64, CurrencyId>;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<10>;
}
impl staking::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type SignedInner = i128;
    type CurrencyId = CurrencyId;
    type GetNativeCurrencyId = GetNativeCurrencyId;
}
impl oracle::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type OnExchangeRateChange = vault_registry::PoolManager<Test>;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}
impl fee::Config for Test {
    type FeePalletId = FeePalletId;
    type WeightInfo = ();
    type SignedFixedPoint = FixedI128;
    type SignedInner = i128;
    type CapacityRewards = CapacityRewards;
    type VaultRewards = VaultRewards;
    type VaultStaking = VaultStaking;
    type OnSweep = ();
    type MaxExpectedValue = MaxExpectedValue;
    type NominationApi = Nomination;
}
impl loans::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type PalletId = LoansPalletId;
    type ReserveOrigin = EnsureRoot<u64>;
    type UpdateOrigin = EnsureRoot<u64>;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type RewardAssetId = GetNativeCurrencyId;
    type ReferenceAssetId = GetWrappedCurrencyId;
    type OnExchangeRateChange = vault_registry::PoolManager<Test>;
}
impl vault_registry::Config for Test {
    type PalletId = VaultPalletId;
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type GetGriefingCollateralCurrencyId = GetNativeCurrencyId;
}
impl nomination::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
pub struct Same;
impl sp_runtime::traits::Convert<u64, u128> for Same {
    fn convert(a: u64) -> u128 {
        a.into()
    }
}
impl issue::Config for Test {
    type TreasuryPalletId = TreasuryPalletId;
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberToBalance = Same;
    type WeightInfo = ();
}
impl redeem::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl replace::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}

pub fn fee_pool() -> u64 {
    FeePalletId::get().into_account_truncating()
}
pub fn treasury() -> u64 {
    TreasuryPalletId::get().into_account_truncating()
}
pub fn liquidation_account() -> u64 {
    VaultPalletId::get().into_account_truncating()
}

/// an account that may feed the oracle
pub const ORACLE: u64 = 90;

/// the parameters of a chain
#[derive(Clone, Debug)]
pub struct Conf {
    pub issue_fee: FixedU128,
    pub issue_griefing: FixedU128,
    pub redeem_fee: FixedU128,
    pub premium_fee: FixedU128,
    pub punishment_fee: FixedU128,
    pub replace_griefing: FixedU128,
    /// (collateral, secure, premium, liquidation threshold)
    pub thresholds: Vec<(CurrencyId, FixedU128, FixedU128, FixedU128)>,
    pub min_collateral: Vec<(CurrencyId, u128)>,
    pub ceiling: Vec<(CurrencyId, u128)>,
    pub issue_period: u64,
    pub redeem_period: u64,
    pub replace_period: u64,
    pub issue_dust: u128,
    pub redeem_dust: u128,
    pub replace_dust: u128,
    pub tx_size: u32,
    pub punishment_delay: u64,
    pub nomination: bool,
    pub height: u32,
    pub max_delay: u32,
    pub balances: Vec<(u64, CurrencyId, u128)>,
}
pub fn pair(c: CurrencyId) -> VaultCurrencyPair<CurrencyId> {
    VaultCurrencyPair { collateral: c, wrapped: WRAPPED }
}

pub fn open<R>(c: &Conf, f: impl FnOnce() -> R) -> R {
    frame_system::set_quiet(true);
    let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    orml_tokens::GenesisConfig::<Test> { balances: c.balances.clone() }.assimilate_storage(&mut st).unwrap();
    fee::GenesisConfig::<Test> {
        issue_fee: c.issue_fee,
        issue_griefing_collateral: c.issue_griefing,
        redeem_fee: c.redeem_fee,
        premium_redeem_fee: c.premium_fee,
        punishment_fee: c.punishment_fee,
        replace_griefing_collateral: c.replace_griefing,
    }
    .assimilate_storage(&mut st)
    .unwrap();
    vault_registry::GenesisConfig::<Test> {
        minimum_collateral_vault: c.min_collateral.clone(),
        punishment_delay: c.punishment_delay,
        system_collateral_ceiling: c.ceiling.iter().map(|(k, v)| (pair(*k), *v)).collect(),
        secure_collateral_threshold: c.thresholds.iter().map(|t| (pair(t.0), t.1)).collect(),
        premium_redeem_threshold: c.thresholds.iter().map(|t| (pair(t.0), t.2)).collect(),
        liquidation_collateral_threshold: c.thresholds.iter().map(|t| (pair(t.0), t.3)).collect(),
    }
    .assimilate_storage(&mut st)
    .unwrap();
    issue::GenesisConfig::<Test> { issue_period: c.issue_period, issue_btc_dust_value: c.issue_dust }.assimilate_storage(&mut st).unwrap();
    redeem::GenesisConfig::<Test> { redeem_transaction_size: c.tx_size, redeem_period: c.redeem_period, redeem_btc_dust_value: c.redeem_dust }
        .assimilate_storage(&mut st)
        .unwrap();
    replace::GenesisConfig::<Test> { replace_period: c.replace_period, replace_btc_dust_value: c.replace_dust }.assimilate_storage(&mut st).unwrap();
    oracle::GenesisConfig::<Test> {
        authorized_oracles: vec![(ORACLE, BoundedVec::truncate_from(b"a".to_vec())), (ORACLE + 1, BoundedVec::truncate_from(b"b".to_vec()))],
        max_delay: c.max_delay,
    }
    .assimilate_storage(&mut st)
    .unwrap();
    loans::GenesisConfig::<Test> { max_exchange_rate: Rate::from_u32(1), min_exchange_rate: Rate::from_inner(20_000_000_000_000_000), _marker: Default::default() }
        .assimilate_storage(&mut st)
        .unwrap();
    nomination::GenesisConfig::<Test> { is_nomination_enabled: c.nomination, _marker: Default::default() }.assimilate_storage(&mut st).unwrap();
    btc_relay::GenesisConfig::<Test> {
        bitcoin_confirmations: 1,
        parachain_confirmations: 0,
        disable_difficulty_check: true,
        disable_inclusion_check: true,
        ..Default::default()
    }
    .assimilate_storage(&mut st)
    .unwrap();
    let mut e = sp_io::TestExternalities::from(st);
    e.execute_with(|| {
        System::set_block_number(1);
        Security::set_active_block_number(1);
        BTCRelay::_initialize(0, header(Default::default(), 0), c.height).unwrap();
        f()
    })
}

fn header(prev: H256Le, serial: u64) -> BlockHeader {
    let mut hash = [0u8; 32];
    hash[..8].copy_from_slice(&(serial + 1).to_le_bytes());
    BlockHeader {
        merkle_root: Default::default(),
        target: U256::from(0xffffu64) << 208,
        timestamp: 0,
        version: 4,
        hash: H256Le::from_bytes_le(&hash),
        hash_prev_block: prev,
        nonce: serial as u32,
    }
}
/// `blocks` blocks of the parachain and `btc` of Bitcoin pass
pub fn pass(blocks: u64, btc: u32) {
    Security::set_active_block_number(Security::active_block_number() + blocks);
    System::set_block_number(System::block_number() + blocks);
    for _ in 0..btc {
        let serial = BTCRelay::get_best_block_height() as u64 + (1 << 40);
        BTCRelay::_store_block_header(&0, header(BTCRelay::get_best_block(), serial)).unwrap();
    }
}
/// the oracle reports and the next block takes it over
pub fn feed(values: Vec<(OracleKey, FixedU128)>) -> Result<(), String> {
    Oracle::feed_values(RuntimeOrigin::signed(ORACLE), values).map_err(|e| format!("feed_values: {e:?}"))?;
    <Oracle as Hooks<u64>>::on_initialize(System::block_number());
    Ok(())
}

pub fn payment(outs: &[(i64, Script)]) -> FullTransactionProof {
    let transaction = Transaction {
        version: 2,
        inputs: vec![TransactionInput {
            source: TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[7; 32]), 0),
            script: vec![],
            sequence: 0,
            witness: vec![],
        }],
        outputs: outs.iter().map(|(value, o)| TransactionOutput { value: *value, script: o.clone() }).collect(),
        lock_at: LockTime::BlockHeight(0),
    };
    let p = PartialTransactionProof {
        transaction,
        tx_encoded_len: u32::MAX,
        merkle_proof: MerkleProof { block_header: Default::default(), flag_bits: vec![], transactions_count: 0, hashes: vec![] },
    };
    FullTransactionProof { user_tx_proof: p.clone(), coinbase_proof: p }
}
pub fn op_return(id: &[u8]) -> Script {
    Script::from([&[0x6a, id.len() as u8][..], id].concat())
}

