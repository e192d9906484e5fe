T = 'property-based testing: '
K, I, C = 'parachain/runtime/kintsugi/src/lib.rs', 'parachain/runtime/interlay/src/lib.rs', 'parachain/runtime/common/src/lib.rs'
KX, IX = 'parachain/runtime/kintsugi/src/xcm_config.rs', 'parachain/runtime/interlay/src/xcm_config.rs'
KC = 'parachain/runtime/kintsugi/src/contracts.rs'
AN = 'crates/annuity/src/lib.rs'
NOTE = 'Both networks: the configurations of the pallets and all glue and interfaces these name are cut out of the two runtimes\' sources at build time and run on the shim; parameters are the networks\' own.'

def define(prop):
    prop('C58', 'h-runtime', 'In each network new supply and fees reach exactly those they are for',
         'In either runtime, when the supply grows, 40% of the growth (rounded) goes to the annuity of the vaults, 6.7% to that of the stakers and all the rest to the treasury, nothing stays behind, and both annuities from then on pay per block what they hold divided by a year of blocks. In every block the stakers\' annuity credits its reward (capped by the amount per wrapped token times the wrapped tokens there are) to the stakers by voting power, and keeps the funds until they are claimed; the vaults\' annuity moves its reward to the fee pool exactly if it is credited to the collaterals by capacity, and keeps it otherwise, so that what collaterals have earned can always be paid; a claim of either pays what was earned. The fee and the tip of a transaction go to the author of the block, and nobody else. The accounts of all modules differ. No block makes any of this panic.',
         ['histories', 'inputs'], 'every history of locks, capacities, claims, funds and blocks, every supply and rate, of either network',
         'The pallets\' tests run with mocks of their own; which pallet pays whom, and with whose money, is said only in the runtimes, whose tests are not run and sample one inflation.',
         [K, I, AN], [('DealWithRewards::on_inflation, DealWithFees::on_unbalanceds, get_all_module_accounts', K), ('EscrowBlockRewardProvider, VaultBlockRewardProvider', K), ('the same', I), ('begin_block, update_reward_per_block, min_reward_per_block, withdraw_rewards', AN)],
         T + 'stateful model-based testing of the composed runtimes against exact rational shares', NOTE)
    prop('C59', 'h-runtime', 'A node\'s answers are what the chain would pay, hold and allow',
         'In either runtime the reward a node states for a staker, a farmer or a vault is what a claim at that moment pays. The yearly rate stated for a lock, with more locked or for longer, is what a year of the present reward per block would give it after that change, divided by what is then locked; that stated for a vault is the part of its operator (commission and own collateral) of a year of the present rewards, in its collateral, divided by its own collateral; the reward stated for a farm is the account\'s part of all that the schedule has left. Collateral, collateral needed, tokens that can be issued, lists of vaults, voting power, what may still be locked, and conversions by the oracle\'s price are what the pallets hold and allow, to the last digits; a quote of a pair or a stable pool (amounts out and in, shares, what shares bring) is what the trade would give at that moment, and pools\' currencies, balances, fees kept and amplification are those of the pools; a market\'s rates, use and index, and what an account can still borrow or lacks, follow from what was put in and borrowed; the requests of an account and of its vaults are exactly those stored for it; how well a vault is backed, and what it can redeem, for a premium if it is short, follow from its tokens and the price.',
         ['histories', 'inputs'], 'every set of vaults, locks, farms, prices and heights, of either network',
         'The interfaces are only implemented in the runtimes; the estimates are tested there for one vault and one lock, in tests that are not run.',
         [K, I, C], [('estimate_escrow_reward_rate, estimate_vault_reward_rate', C), ('RewardApi, EscrowApi, VaultRegistryApi, OracleApi, LoansApi, DexGeneralApi, DexStableApi, IssueApi, RedeemApi, ReplaceApi', K), ('the same', I)],
         T + 'differential testing of the interfaces against the calls, and against exact shares', NOTE)
    prop('C60', 'h-runtime', 'Across chains a currency has one name, and is never taken for another',
         'In either runtime the native, the wrapped and the relay chain\'s currency and each registered asset with a place have exactly one place among the chains, and that place means that currency again; the native and the wrapped currency are also known by their place as seen from here; no other currency has a place. No other place, whatever its length or content, means any of them, and none makes the conversion panic. An asset means what its place means. A second of execution costs the same by either name of a currency: the relay chain\'s price, four thirds of it in the native currency, the set part of it in the wrapped currency, or the registered price; what is taken is given whole, in that currency, to the treasury (Kintsugi) or the author of the block (Interlay).',
         ['inputs'], 'every place, currency, registry of assets and fee',
         'The conversions are in the runtimes alone, and their tests (not run) send the common currencies between a few chains.',
         [KX, IX], [('CurrencyIdConvert, canonical_currency_location, non_canonical_currency_location, general_key_of', KX), ('Trader, ToTreasury, ToAuthor, ParachainMinFee, AccountIdToMultiLocation', IX)],
         T + 'round trips and an independent reading of places', NOTE + ' The language between chains (MultiLocation and the like) is a stand-in of the same shape.')
    prop('C61', 'h-runtime', 'Only the calls that may come from outside are let in',
         'In either runtime a user\'s call is let through if it belongs to the core (system, session, timestamp, parachain system, sudo, democracy, escrow, technical committee), whatever is paused; of the calls for messages between chains only that of sending one; none of the EVM; and any other exactly if it is not paused. A call carried by a message of another chain is let through unless it can contain other calls (sudo, proxy, multisig, utility) or takes Bitcoin transactions (relay, issue, redeem, replace). A contract that asks whether an address was paid is told the amount of the first output to that address, if the transaction is proven, and else nothing; a malformed question is an error; nothing it sends makes the chain panic, and asking changes nothing.',
         ['inputs'], 'every call of every pallet with every set of paused ones, every question of a contract',
         'The filters are in the runtimes alone; a malformed address from a contract was unwrapped and no test noticed.',
         [K, I, KX, IX, KC], [('BaseCallFilter', K), ('SafeCallFilter', KX), ('BtcRelayExtension', KC)],
         T + 'generated calls and questions against an explicit reference', NOTE + ' What a contract, and a call\'s arguments, are is a stand-in.')
    prop('C62', 'h-runtime', 'What only those who govern may do is refused to everyone else',
         'In either runtime every call which sets parameters, ceilings, thresholds, periods or fees, authorises oracles, limits or blocks accounts, opens markets, pools, pairs or rewards, takes from reserves, restarts payments or announces releases is refused to any signed account (the treasury\'s and its own beneficiary\'s included) and to unsigned callers, and leaves nothing behind; only root (governance) may have it, and then with the same arguments it may succeed. The time is set by the block\'s author\'s inherent alone.',
         ['inputs'], 'every such call with every arguments, in every state, from every other caller',
         'A missing check of the caller compiles and passes every test that calls as root; a few calls have a test of the refusal, most have none, and the origins of the loans, farming and stable pools are set only in the runtimes.',
         [K, I, 'crates/fee/src/lib.rs', 'crates/vault-registry/src/lib.rs', 'crates/loans/src/lib.rs', 'crates/dex-general/src/lib.rs', 'crates/dex-stable/src/lib.rs', 'crates/oracle/src/lib.rs', 'crates/escrow/src/lib.rs', 'crates/farming/src/lib.rs'],
         [('every call with ensure_root or a configured origin', 'crates/*/src/lib.rs'), ('UpdateOrigin, ReserveOrigin, EnsureSuperMajority and the like', K), ('the same', I)],
         T + 'generated privileged calls from every other origin on the composed runtimes, with the storage root as oracle', NOTE)
