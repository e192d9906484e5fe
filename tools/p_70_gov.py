T = 'property-based testing: '
EL, AN, SU, FA, TX, CI, DE = ('crates/%s/src/lib.rs' % c for c in ('escrow', 'annuity', 'supply', 'farming', 'tx-pause', 'clients-info', 'democracy'))
VT = 'crates/democracy/src/vote_threshold.rs'
NOTE = 'Random histories of four to five accounts, with amounts from dust to 1e18 and times across several lock periods; the real pallets on a shim of the FRAME they need, with spans, periods and limits drawn for each history.'

def define(prop):
    prop('C48', 'h-gov', 'Voting power is the lock times the time left, and the total is its sum',
         'The voting power of an account is, at every block, what it has locked divided by the longest time there may be (rounded down) times the blocks until its lock ends, and nothing once the lock has ended; it falls by the same amount every block and changes otherwise only when the lock does. The total of voting power is, now and at every later block asked for, the sum of the power of all accounts. The stake an account has in the rewards for locking is its power when the lock last changed or the stake was updated, unless a stake for it is set aside; a call that fails changes nothing, and no call or block makes it panic.',
         ['histories', 'inputs'], 'every history of locks of all accounts, every block, span and longest time',
         'The pallet\'s tests look at one or two locks at one or two heights; the total was wrong as soon as a lock had ended, or one of two was made longer, and no test noticed.',
         [EL], [('checkpoint, supply_at, balance_at, total_supply, get_deposit_floor', EL), ('create_lock, increase_amount, increase_unlock_height, withdraw, update_user_stake', EL)],
         T + 'stateful model-based testing against the sum of exact straight lines', NOTE)
    prop('C49', 'h-gov', 'What is locked stays until its end, and comes back whole',
         'Creating a lock, adding to it and making it longer are refused exactly when the account has a lock already (or none, or one that has ended), the end is not in the future, not beyond the longest time or not later than before, or the amount is too small for one unit of power or more than is free, vested by its limit and not blocked. Ends are rounded down to whole spans. As long as a lock runs, its amount cannot be moved away or withdrawn; from its end on the account withdraws all of it, once, and can lock again. Nobody else\'s funds, locks or limits change; limits and blocks are set by root alone; a call that fails changes nothing.',
         ['histories', 'inputs'], 'every history of locks, transfers and limits, every amount and height',
         'The pallet\'s tests lock and withdraw one amount; the edges of spans, limits and other locks are not reached.',
         [EL], [('create_lock, increase_amount, increase_unlock_height, withdraw, set_account_limit, set_account_block', EL), ('deposit_for, remove_deposit, get_free_balance, round_height', EL)],
         T + 'stateful model-based testing against an exact reference of locks', NOTE)
    prop('C50', 'h-gov', 'Emission pays what was set, in parts, and the supply grows by the rate',
         'Every block the annuity promises its amount per block, or the amount per wrapped token times the wrapped tokens, to those who have staked, in proportion to their stakes; what an account withdraws is what it earned and has not had, to the last digits, and comes out of the annuity\'s account. Updating the amount spreads what is in the account evenly over the emission period; root alone sets the amounts. The supply starts with the height set, and at the start and every inflation period after grows by the yearly rate of the supply it has, which is given to the receiver and to nobody else. A call that fails changes nothing, and no block makes it panic.',
         ['histories', 'inputs'], 'every history of stakes, withdrawals, funds and blocks, every rate',
         'The pallets\' tests pay one reward and grow once.',
         [AN, SU], [('begin_block, withdraw_rewards, update_rewards, update_reward_per_block, set_reward_per_wrapped, min_reward_per_block', AN), ('begin_block, set_start_height_and_inflation', SU)],
         T + 'stateful model-based testing against exact rational rewards', NOTE)
    prop('C51', 'h-gov', 'A farm pays out its schedule, in parts, and can pay all it promised',
         'A schedule set by root adds its amount, taken from the treasury, and its periods to what is left of the one before, and pays in every period the same part, rounded down, to those who have put in shares, in proportion; a period in which nobody has shares waits. Shares put in are kept and come back when taken out, no more than were put in. What an account claims is what it earned and has not had. Removing a schedule gives the treasury back at least what was still to be paid and nothing anybody has earned. The farm\'s account always holds what is still to be paid and what is earned. The order in which a pair of currencies is named does not matter. A call that fails changes nothing and no block makes it panic.',
         ['histories', 'inputs'], 'every history of schedules, shares, claims and blocks, every amount',
         'The pallet\'s tests run one schedule with one account; a second schedule or a removal took what others had earned.',
         [FA], [('update_reward_schedule, remove_reward_schedule, deposit, withdraw, claim, on_initialize', FA), ('try_distribute_reward, total_rewards', FA)],
         T + 'stateful model-based testing against exact rational rewards', NOTE)
    prop('C52', 'h-gov', 'Exactly what is paused is refused, and releases become current when due',
         'A call is let through exactly if neither it nor its whole pallet is paused, or it is on the list of those that never are. Pausing is for the pause origin and unpausing for the unpause origin; what is on the list, this pallet itself and what is paused already cannot be paused, and exactly what has been paused can be unpaused; nothing else changes. A client release that root has set as pending becomes the current one with the next upgrade, exactly once, and the others stay as they are. A call that fails changes nothing; no name makes it panic.',
         ['histories', 'inputs'], 'every history of pausing and unpausing, every name of pallet and call',
         'The pallets\' tests pause a few calls; unpausing a call whose pallet was paused succeeded without any effect.',
         [TX, CI], [('pause, unpause, is_paused, is_paused_unbound, ensure_can_pause, ensure_can_unpause, contains', TX), ('set_current_client_release, set_pending_client_release, try_upgrade_current_client_releases', CI)],
         T + 'stateful model-based testing against a set of names', NOTE)
    prop('C53', 'h-gov', 'A referendum passes on the votes cast, and every deposit comes back',
         'A proposal needs the smallest deposit and a seconding the same; the most seconded proposal, and only one, starts a referendum when a launch is due, and then all who gave deposits get them back, as they do when it is cancelled or the proposals are cleared. A referendum counts for each voter once, with the voting power at the last vote, on the side of that vote, and nothing after the vote is taken back; it ends at its block, and is carried out after its delay exactly if the votes pass the threshold it was started with. Fast-tracking is for its origin, and keeps voting periods within the bounds. Spending from the treasury is only for the origin allowed. Only root cancels a referendum, only root or its proposer a proposal. Images of calls are held as long as something refers to them. A call that fails changes nothing; none makes it panic.',
         ['histories', 'inputs'], 'every history of proposals, votes and blocks, every tally',
         'The pallet\'s tests run one referendum at a time; clearing proposals kept all deposits for good and no test noticed.',
         [DE, VT], [('propose, second, vote, remove_vote, fast_track, fast_track_referendum, cancel_referendum, cancel_proposal, clear_public_proposals, spend_from_treasury', DE), ('begin_block, launch_next, launch_public, inject_referendum, bake_referendum', DE), ('approved, compare_rationals', VT)],
         T + 'stateful model-based testing against a reference of proposals and votes, and an exact threshold', NOTE)
    CO = 'crates/collator-selection/src/lib.rs'
    prop('C56', 'h-gov', 'Who makes blocks follows from bonds, blocks made and the number there must be',
         'An account becomes a candidate exactly if there are fewer than wanted and than there may be, it is not a fixed collator nor a candidate already, it has registered session keys, and it has the bond free; then the bond of that moment is reserved, and what is reserved of every account is at all times the sum of its bonds as a candidate. A candidate leaves only while there are more than the least number; its own bond comes back, whole and once. At a session the candidates that have made no block for the threshold (counted from joining plus one threshold), or whose total stake has fallen below the bond now asked, are removed with their bonds returned, in the order they joined and never below the least number, and no others; the collators named are the fixed ones and then the candidates that remain. Whoever makes a block is paid half of what the pot holds above the least balance, and the block is noted. The list of fixed collators, the number wanted and the bond are set by the update origin alone, and fixed collators need session keys. A call that fails changes nothing; no session or block makes it panic.',
         ['histories', 'inputs'], 'every history of joining, leaving, blocks, sessions and changes of bond and stake',
         'The pallet\'s tests remove one of two candidates once, with stakes that do not decay; bonds of different height, and candidates kept for want of others, are not reached.',
         [CO], [('set_invulnerables, set_desired_candidates, set_candidacy_bond, register_as_candidate, leave_intent', CO), ('try_remove_candidate, kick_stale_candidates, assemble_collators, note_author, new_session', CO)],
         T + 'stateful model-based testing against a reference of candidates, bonds and blocks',
         'Random histories of eight accounts whose stakes are real, decaying voting power of the escrow pallet (as in the parachain); the session and authorship pallets are stand-ins through which the harness calls new_session and note_author.')
