T = 'property-based testing: '
RW = 'crates/reward/src/lib.rs'
ST = 'crates/staking/src/lib.rs'

def define(prop):
    prop('C14', 'h-pools', 'A reward pool pays out what was put in, in proportion to stake and time',
         'Over any history of deposits, withdrawals, distributions and claims in any number of reward pools, each staker\'s reward is the sum over distributions of its share of the stake at that moment, in each currency separately, whatever the order of claims and of stake changes; stakes are exactly what was deposited less what was withdrawn, totals are the sums over stakers; claims never exceed what was distributed; a call that fails leaves nothing behind.',
         ['histories', 'inputs'], 'every history of stakes, rewards and claims of several stakers in several pools and currencies',
         'The pallet\'s tests run a few fixed sequences; lazy bookkeeping goes wrong only where stake changes, claims and distributions interleave.',
         [RW], [('deposit_stake, withdraw_stake, set_stake, distribute_reward, withdraw_reward, compute_reward', RW)],
         T + 'stateful model-based testing against exact rational arithmetic',
         'Random histories; stakes below 2^40 and rewards below 2^44 (beyond 1.7e20 the pallet\'s fixed point overflows, as its comments say).',
         state=[('Stake, TotalStake, RewardPerToken, RewardTally, TotalRewards', 'the lazy bookkeeping of each pool', RW)])
    prop('C15', 'h-pools', 'A staking pool divides slashes and rewards, and a refund returns what is left',
         'In a vault\'s staking pool each participant\'s stake is what it deposited less what it withdrew and its part of the slashes, and its rewards are its parts of what was distributed, whenever each is settled; no participant\'s stake or rewards affect another\'s pool or nonce; nobody withdraws more than its stake; stakes and rewards never add up to more than the pool holds; a forced refund opens a new pool under the next nonce, and the old one still pays out what is left to each participant; a call that fails leaves nothing behind.',
         ['histories', 'inputs'], 'every history of deposits, withdrawals, slashes, rewards and refunds of several participants and vaults',
         'The pallet\'s tests run a few fixed sequences; slashes are settled lazily, so that errors need a slash between two touches of one participant.',
         [ST], [('deposit_stake, withdraw_stake, slash_stake, distribute_reward, withdraw_reward, force_refund', ST)],
         T + 'stateful model-based testing against exact rational arithmetic',
         'Random histories; stakes and rewards below 2^36; one known finding (slashes follow stakes as last settled).',
         state=[('Stake, TotalStake, SlashPerToken, SlashTally, Nonce', 'the lazy bookkeeping of each pool', ST)])
