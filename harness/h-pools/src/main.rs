//! C14: the reward pool; C15: the staking pool
mod reward_pool;
mod staking_pool;

fn main() {
    pbt::main(&[reward_pool::PROP, staking_pool::PROP])
}
