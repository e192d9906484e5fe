T = 'property-based testing: '
LO = 'crates/loans/src/lib.rs'
LI = 'crates/loans/src/interest.rs'
LT = 'crates/loans/src/lend_token.rs'
LF = 'crates/loans/src/farming.rs'
RM = 'crates/loans/src/rate_model.rs'
NOTE = ('Random histories of 10 to 80 calls of four accounts in three markets, with prices 0.01 to 100, balances up to 1e10, blocks up to months apart; '
        'the real loans pallet, oracle and currency conversion on a shim of the FRAME it needs. Debts in other markets are judged at the index they were last counted with, as the code does on purpose.')

def define(prop):
    prop('C33', 'h-loans', 'Lending and taking back move exactly what the exchange rate says',
         'Minting gives lend tokens worth what was paid in, at the rate cash plus debts less reserves over lend tokens, rounded in the market\'s favour, and takes just that; redeeming, in part or in full, burns lend tokens and pays out their worth, rounded in the market\'s favour by less than one lend token, and never more than the cash there is. Lend tokens put up as collateral are locked, may be taken back and moved only as far as debts stay covered. Paying reserves in or out changes reserves and cash alone. A call is accepted exactly if balance, market state, caps, liquidity and collateral allow; nothing else changes, and a call that fails changes nothing.',
         ['histories', 'inputs'], 'every history of calls, prices and time, every amount and rate',
         'The pallet\'s tests use the rate 0.02 and round amounts; rounding and acceptance depend on accrued interest, reserves and prices.',
         [LO, LT], [('mint, redeem, redeem_all, deposit_all_collateral, withdraw_all_collateral', LO), ('do_mint, do_redeem, redeem_allowed', LO), ('recompute_underlying_amount, recompute_collateral_amount', LT)],
         T + 'stateful model-based testing against an exact reference of the lending pool', NOTE,
         state=[('TotalBorrows, TotalReserves, AccountDeposits, AccountBorrows', 'the book of each market', LO)])
    prop('C34', 'h-loans', 'Borrowing and repaying follow collateral, debt and index exactly',
         'An account may borrow exactly what its collateral, valued at the collateral factors, exceeds its debts by at current prices, within cash, cap and market state; it receives just that and its debt grows by just that. Its debt grows with the market\'s index. Repaying lowers the debt by what is paid and takes just that, at most the debt; repaying all ends the debt. What the pallet reports of an account\'s collateral, debts, liquidity and shortfall, and of each market\'s rates, is the same value. Nothing else changes, and a call that fails changes nothing.',
         ['histories', 'inputs'], 'every history of calls, prices and time, every amount and factor',
         'The pallet\'s tests borrow with prices of one and round factors; the value of collateral depends on rate, index, price and rounding together.',
         [LO, LT], [('borrow, repay_borrow, repay_borrow_all, do_borrow, do_repay_borrow_with_amount', LO), ('borrow_allowed, get_account_liquidity, current_borrow_balance', LO)],
         T + 'stateful model-based testing against an exact reference of the lending pool', NOTE,
         state=[('BorrowIndex, AccountBorrows', 'debts with the index they were counted at', LO)])
    prop('C35', 'h-loans', 'Only accounts in shortfall are liquidated, by the book',
         'An account can be liquidated exactly if its debts exceed its collateral valued at the liquidation thresholds at current prices, in a market that accepts it. The liquidator repays at most the close factor of the debt, never from the account itself, and receives collateral worth what was repaid times the incentive, less the protocol\'s part, which goes to the reserves; the borrower\'s debt falls by just what was repaid and its collateral by just what was seized, never more than it has. Nothing else changes, and a call that fails changes nothing.',
         ['histories', 'inputs'], 'every history that leads to a shortfall, every amount, price and incentive',
         'The pallet\'s tests liquidate a few fixed accounts; several markets, accrued interest and rounding decide the limits. A full repayment by the last borrower failed.',
         [LO, LT], [('liquidate_borrow, do_liquidate_borrow, liquidated_transfer, liquidate_borrow_allowed', LO), ('get_account_liquidation_threshold_liquidity', LO)],
         T + 'stateful model-based testing against an exact reference of the lending pool', NOTE)
    prop('C36', 'h-loans', 'Interest accrues by the rate model, for the time passed, on all debts alike',
         'Before any call of a market, its debts grow by the borrow rate at its utilization for the time since the last accrual, never twice for the same time; the part of the interest set by the reserve factor goes to the reserves, the rest to the lenders through the exchange rate; the index grows by the same rate. The jump model is the two straight lines through its base, jump and full rates, never decreasing in utilization, and every model that is admitted gives a rate for every utilization.',
         ['histories', 'inputs'], 'every rate model, utilization and division of time into accruals',
         'The pallet\'s tests check a few points of one model; a jump utilization of zero, admitted, made every call of the market fail.',
         [LI, RM], [('accrue_interest, accrued_interest_rate, calculate_exchange_rate', LI), ('get_borrow_rate, check_model', RM)],
         T + 'differential testing against an independent computation of rates and accruals', NOTE)
    prop('C37', 'h-loans', 'The lending pool stays solvent and no one gains but by its rules',
         'After every call, cash plus debts covers the lenders and reserves; no call creates or destroys the underlying currency; the debts of all accounts add up to no less than the recorded total; lend tokens in existence are those held and locked. A call touches only the accounts that take part in it. What lenders can claim in total never shrinks by a call of others, the exchange rate never falls but by rounding. An account that borrowed or took collateral back is covered by what remains; caps and reserves hold; a liquidator never takes more than the incentive allows.',
         ['histories'], 'every history of calls, prices and time',
         'Invariants over all accounts and markets are never taken by tests; an account in shortfall could borrow dust for nothing, unnoticed.',
         [LO, LI, LT], [('all calls; balance, total_borrows, total_reserves, total_supply', LO)], T + 'conservation and safety invariants over random histories', NOTE)
    prop('C38', 'h-loans', 'Suppliers and borrowers share rewards by stake and time',
         'What is paid per block to a market\'s suppliers and borrowers is shared in proportion to lend tokens held and debts owed, block by block, each change of either settled first; claims pay what has accrued, once, from the reward account, as far as it can pay. No history pays more than the speed set, and nobody loses what has accrued by others\' calls, by being liquidated, or by a change of the speed.',
         ['histories'], 'every history of calls, speeds and blocks',
         'The pallet\'s tests have one or two accounts; a settlement missed before one of the ways a stake may change shows only as somebody\'s wrong share. One was missed, in liquidation.',
         [LF, LO], [('update_reward_supply_index, distribute_supplier_reward, distribute_borrower_reward', LF), ('update_market_reward_speed, claim_reward, claim_reward_for_market', LO)],
         T + 'stateful testing with exact bounds from a book of every block', NOTE)
    prop('C39', 'h-loans', 'Markets are added and changed only by root, within sane parameters',
         'A market is added once per currency and lend token, pending, with factors and thresholds within their bounds and ordered, incentive at least one, and a rate model that can be evaluated; it starts with the rate and index set. It is activated only by root, and a change of its parameters, each on its own or all at once, keeps them valid, changes what was given and nothing else, interest up to then accrued at the old ones. Supply is refused in markets not active and beyond the cap. A call that fails changes nothing.',
         ['inputs', 'histories'], 'every combination of parameters and history of changes',
         'The pallet\'s tests try a few invalid values of each; a change of the reserve factor escaped its check.',
         [LO, RM], [('add_market, activate_market, update_rate_model, update_market, force_update_market', LO), ('check_model', RM)],
         T + 'stateful model-based testing with generated parameters, valid and not', NOTE)
