T = 'property-based testing: '
VR = 'crates/vault-registry/src/lib.rs'
VT = 'crates/vault-registry/src/types.rs'
PM = 'crates/vault-registry/src/pool_manager.rs'
IS = 'crates/issue/src/lib.rs'
RE = 'crates/redeem/src/lib.rs'
RP = 'crates/replace/src/lib.rs'
NO = 'crates/nomination/src/lib.rs'
MODEL = T + 'stateful model-based testing against an exact reference of the whole vault protocol'
NOTE = ('Random histories of 8 to 70 calls over four vaults in three collaterals, three users; collateral below 1e10, rates 0.01 to 100; '
        'real pallets (vault registry, issue, redeem, replace, nomination, fee, reward, staking, oracle, relay) on a shim of the FRAME it needs; '
        'inclusion of payments is decided in C16 to C18.')

def define(prop):
    prop('C21', 'h-vaults', 'Issuing mints exactly what was paid for, up to what the vault can back',
         'A request to issue is accepted exactly if its vault accepts issues, is not banned, and its collateral covers at its secure threshold all it has issued and promised with the new tokens, fees included; it locks the griefing collateral. Executed in time with the exact amount, it mints the tokens to the requester and the fee to the fee pool, and gives the griefing collateral back; paid too little by its requester it shrinks and forfeits a proportional part of the griefing collateral; paid too much it grows as far as the vault can back. Not executed in the period, it can be cancelled, and the vault side gets the griefing collateral in proportion to the time passed. Nothing else changes, and a call that fails changes nothing.',
         ['histories', 'inputs'], 'every history of calls, prices and time around an issue, every amount, fee and threshold',
         'The pallet\'s tests mock the other pallets and fix amounts; what an execution leaves in the vault, the pools and the balances depends on all that came before.',
         [IS, VR], [('request_issue, execute_issue, cancel_issue, update_issue_amount', IS), ('try_increase_to_be_issued_tokens, issue_tokens', VR)], MODEL, NOTE,
         state=[('IssueRequests', 'open, completed and cancelled requests', IS)])
    prop('C22', 'h-vaults', 'Redeeming burns exactly the tokens asked for and always ends in payment',
         'A request to redeem locks the tokens to burn and the fee, against a vault that has issued enough, and records the premium the vault must pay if it is below its premium threshold, capped by what would bring it back. Execution with the exact payment burns the tokens, pays the fee and the premium as far as there is collateral. After the period the redeemer may cancel: for reimbursement the vault pays the worth of the tokens and the punishment fee from its collateral and its tokens are burned or left to be minted to it once it is sound; for a retry only the punishment fee. A liquidated vault\'s part comes from the liquidation vault. Self redeems and liquidation redeems burn exactly the tokens given up for the proportional collateral. Nothing else changes.',
         ['histories', 'inputs'], 'every history of calls, prices, liquidations and time around a redeem, every amount, fee and threshold',
         'The pallet\'s tests mock the other pallets and look at one outcome each; the amounts depend on price, status and history.',
         [RE, VR], [('request_redeem, execute_redeem, cancel_redeem, mint_tokens_for_reimbursed_redeem, liquidation_redeem, self_redeem', RE),
                    ('redeem_tokens, decrease_tokens, redeem_tokens_liquidation, get_vault_max_premium_redeem', VR)], MODEL, NOTE,
         state=[('RedeemRequests', 'open, completed, reimbursed and retried requests', RE)])
    prop('C23', 'h-vaults', 'Replacing moves exactly the agreed tokens and collateral between vaults',
         'Tokens offered for replacement never exceed what the vault has issued and not promised elsewhere; offering locks griefing collateral in proportion, withdrawing the offer frees it in proportion. Accepting takes at most what is offered, with the proportional collateral, from a vault that is secure with the new tokens. Execution with the exact payment moves the tokens to be redeemed and to be issued over to issued tokens of the new vault and frees the griefing collateral; cancelling after the period undoes the acceptance, gives the griefing collateral to the new vault and its own collateral back as far as it can be spared. Nothing else changes.',
         ['histories', 'inputs'], 'every history of calls, prices, liquidations of either vault and time around a replace',
         'The pallet\'s tests mock the vault registry; the amounts moved depend on both vaults\' whole state.',
         [RP, VR], [('request_replace, withdraw_replace, accept_replace, execute_replace, cancel_replace', RP), ('replace_tokens, decrease_to_be_replaced_tokens', VR)], MODEL, NOTE,
         state=[('ReplaceRequests', 'accepted requests', RP)])
    prop('C24', 'h-vaults', 'A vault is registered, limited, liquidated and recovered as the rules say',
         'A vault is registered once, with at least the minimum collateral and within the ceiling of its currency. It may set a threshold of its own only above the common one, and stop or resume accepting issues. Reporting a vault liquidates it exactly if its collateral does not cover its issued tokens at the liquidation threshold: its tokens move to the liquidation vault, with collateral up to the liquidation-threshold worth less what open redeems still need; the rest stays claimable. A liquidated vault can be recovered once nothing is left to redeem, its claimable collateral counting again. Reward stakes follow collateral over threshold of vaults that accept issues. Nothing else changes.',
         ['histories', 'inputs'], 'every history of registrations, settings, prices, liquidations and recoveries',
         'The pallet\'s tests look at one vault with fixed amounts and mocked prices; stakes in the reward pools after liquidation and recovery were wrong and untested.',
         [VR, VT, PM], [('register_vault, report_undercollateralized_vault, recover_vault_id, set_custom_secure_threshold, accept_new_issues', VR), ('liquidate', VT), ('update_reward_stake', PM)], MODEL, NOTE,
         state=[('Vaults, LiquidationVault, TotalUserVaultCollateral', 'the book of the registry', VR)])
    prop('C25', 'h-vaults', 'Nomination and collateral deposits move exactly the depositor\'s own stake',
         'Anyone may add collateral to a vault of their own, and to another\'s that is opted in, up to its nomination limit and the ceiling, while nomination is on. Each may withdraw what their stake is now worth, after slashes, and no more, as long as the rest of the vault\'s collateral covers its tokens at its secure threshold. Opting out returns every nominator\'s stake to be claimed from the old pool in full. Deposits count in the vault\'s collateral, reward stake and total at once; nothing else changes.',
         ['histories', 'inputs'], 'every history of deposits, slashes, withdrawals, opt-ins and opt-outs of any number of pools',
         'The pallet\'s tests use one nominator and mock the rest; withdrawing from old pools was double counted.',
         [NO, VR, PM], [('_deposit_collateral, _withdraw_collateral, opt_out_of_nomination', NO), ('withdraw_collateral, kick_nominators', PM)], MODEL, NOTE)
    prop('C26', 'h-vaults', 'Every wrapped token is backed by the books of exactly one vault',
         'After every call, the wrapped tokens in existence are exactly the sum of what vaults and liquidation vaults have issued. What a vault has to issue or to redeem is exactly the sum of its open requests (kept by the liquidation vault once it is liquidated), no vault has more to redeem than it issued, and the tokens of every open redeem are locked with its redeemer.',
         ['histories'], 'every history of calls of the protocol',
         'No test runs the pallets together over long histories; a token without backing shows only in the sum.',
         [VR, IS, RE, RP], [('issued_tokens, to_be_issued_tokens, to_be_redeemed_tokens', VT)], T + 'conservation invariants over random histories of the whole vault protocol', NOTE)
    prop('C27', 'h-vaults', 'Collateral is conserved and everything locked belongs to someone',
         'No call creates or destroys collateral. Whatever is reserved on an account is exactly the collateral of its vaults with their nominations, claims on liquidated collateral and old pools, offers to be replaced, and griefing collateral of its open requests. The total recorded per currency pair is what vaults and the liquidation vault hold, never raised beyond its ceiling; stakes in a vault add up to its collateral; the reward stake of each vault is its collateral over its threshold, or nothing while it accepts no issues.',
         ['histories'], 'every history of calls of the protocol',
         'The sum over all accounts and records is never taken by tests.',
         [VR, NO, RE, RP, IS], [('transfer_funds, slash_backing_collateral, force_withdraw_collateral', VR), ('TotalUserVaultCollateral', VR)], T + 'conservation invariants over random histories of the whole vault protocol', NOTE)
    prop('C28', 'h-vaults', 'No willing step leaves a vault insecure, and liquidation is exact',
         'A call by which a vault takes on tokens or gives up collateral leaves it covered at its secure threshold at the current price, and a withdrawal leaves nothing or the minimum. A vault can be liquidated exactly if it does not cover its issued tokens at the liquidation threshold; all its tokens go over with collateral of just their worth at that threshold, less what open redeems need. A liquidation redeem pays the exact share of the collateral. A redeemer whose redeem was not executed gets the worth of the tokens and the punishment, as far as the vault has collateral, and that vault is banned.',
         ['histories', 'inputs'], 'every history, price, threshold and amount',
         'Tests check single thresholds with round numbers; a comparison the wrong way round, or of the wrong tokens, needs particular prices and open requests.',
         [VR, RE, VT], [('is_allowed_to_withdraw_collateral, is_vault_below_liquidation_threshold, is_collateral_below_vault_secure_threshold', VR), ('liquidate, issuable_tokens', VT)],
         T + 'per-call obligations in exact rational arithmetic over random histories', NOTE)
    prop('C29', 'h-vaults', 'What the queries promise, the calls grant',
         'A vault listed with so many tokens to issue or to redeem grants just that many and not one more; the lists are sorted and leave out vaults that can do nothing. The premium list holds exactly the vaults that pay one. Collateralization, required collateral and the requests of an account as reported agree with the state.',
         ['histories', 'inputs'], 'every state reached by any history, every vault and account',
         'Tests compare a query with a constant, never with what the call then does.',
         [VR, RE, IS, RP], [('get_vaults_with_issuable_tokens, get_vaults_with_redeemable_tokens, get_collateralization_from_vault, get_required_collateral_for_vault', VR), ('get_premium_redeem_vaults', RE)],
         T + 'differential testing of the queries against dry runs of the calls and the raw state', NOTE)
    FE = 'crates/fee/src/lib.rs'
    OR = 'crates/oracle/src/lib.rs'
    CA = 'crates/currency/src/amount.rs'
    prop('C30', 'h-vaults', 'Fees reach every vault and nominator in proportion to working collateral',
         'Fees that come in are earned at once by the vaults that accept issues, by the collateral of each currency at its price over its threshold, and within a vault by its stakes after the operator\'s commission. Whatever deposits, withdrawals, opt-outs, settings, prices and liquidations follow, each can at any time claim what their stake earned, no more and no less but for rounding, from the current or any earlier pool; the sum paid never exceeds what came in. compute_vault_rewards says just what a claim pays. Only an opted-in operator sets a commission, of at most one.',
         ['histories', 'inputs'], 'every history of fees, stakes, prices, settings and claims in both reward currencies',
         'The tests of the pools look at one pool each; a stake that is changed before earlier fees are settled shows only through all three.',
         [FE, PM, VR, 'crates/reward/src/lib.rs', 'crates/staking/src/lib.rs'],
         [('distribute_rewards, distribute_vault_rewards, withdraw_vault_rewards, set_commission', FE), ('update_reward_stake, on_vault_settings_change', PM)],
         T + 'stateful model-based testing against entitlements in exact rationals',
         'Random histories of 8 to 60 steps; where a slash hits a pool of several stakes, only its totals are checked (see C15).')
    prop('C31', 'h-vaults', 'The price is the median of fresh reports, and conversions never gain',
         'From the next block on, the price of a key is the median of the latest reports of each account that was authorized when it reported, as long as they are not older than the maximum delay; without any there is no price. Only authorized accounts report, only root authorizes. Amounts convert between currencies at these prices, by way of the wrapped one, rounded down at each step, exactly; converting there and back never gains; without a price or on overflow there is an error, never a wrong amount.',
         ['histories', 'inputs'], 'every history of reports, expiries and authorizations; every amount, pair of currencies and price',
         'The pallet\'s tests fix two or three reporters and round rates.',
         [OR, 'crates/currency/src/lib.rs'], [('begin_block, update_aggregate, median, is_outdated, feed_values', OR), ('convert', OR)],
         T + 'stateful model-based testing, and exact rational arithmetic', 'Random search; reports below 2^100; the mean of two middle reports may round either way.')
    prop('C32', 'h-vaults', 'Amounts keep their currency and their last digit; fees are exact',
         'Arithmetic and comparison of amounts is exact, rounds as stated, refuses amounts of different currencies and reports overflow. Moving, locking, unlocking, burning and minting change exactly the balances named and the issuance, or fail and change nothing. Each fee is the amount times its rate, to the nearest unit (the premium down), never more than the amount; only root sets a rate, at most one.',
         ['inputs', 'histories'], 'every pair of amounts, currencies, rates and balances',
         'There are no tests of the amount type.', [CA, FE], [('checked_rounded_mul, checked_div, ratio, lock_on, unlock_on, burn_from', CA), ('get_issue_fee, get_redeem_fee, set_issue_fee', FE)],
         T + 'differential testing against exact arithmetic', 'Random search.')
