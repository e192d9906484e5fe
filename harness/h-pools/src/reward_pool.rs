use frame_support::traits::ConstU32;
use mockrt::*;
use pbt::{check, check_eq, law, Prop, Src, R};
use reward::RewardsApi;
use sp_arithmetic::FixedI128;
use frame_support::dispatch::{DispatchError, DispatchResult};
use sp_runtime::BuildStorage;
use std::collections::{BTreeMap, BTreeSet};

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Reward: reward::{Pallet, Call, Storage, Event<T>},
    }
);
mockrt::mock_system!(Test, u64, u64, frame_system::mocking::MockBlock<Test>);

impl reward::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = u32;
    type StakeId = u64;
    type CurrencyId = u32;
    type MaxRewardCurrencies = ConstU32<3>;
}

struct Api;
/// the pool as the other pallets use it
impl Api {
    fn deposit_stake(p: &u32, s: &u64, a: u128) -> DispatchResult {
        <Reward as RewardsApi<u32, u64, u128>>::deposit_stake(p, s, a)
    }
    fn withdraw_stake(p: &u32, s: &u64, a: u128) -> DispatchResult {
        <Reward as RewardsApi<u32, u64, u128>>::withdraw_stake(p, s, a)
    }
    fn set_stake(p: &u32, s: &u64, a: u128) -> DispatchResult {
        <Reward as RewardsApi<u32, u64, u128>>::set_stake(p, s, a)
    }
    fn distribute_reward(p: &u32, c: u32, a: u128) -> DispatchResult {
        <Reward as RewardsApi<u32, u64, u128>>::distribute_reward(p, c, a)
    }
    fn compute_reward(p: &u32, s: &u64, c: u32) -> Result<u128, DispatchError> {
        <Reward as RewardsApi<u32, u64, u128>>::compute_reward(p, s, c)
    }
    fn withdraw_reward(p: &u32, s: &u64, c: u32) -> Result<u128, DispatchError> {
        <Reward as RewardsApi<u32, u64, u128>>::withdraw_reward(p, s, c)
    }
    fn get_stake(p: &u32, s: &u64) -> Result<u128, DispatchError> {
        <Reward as RewardsApi<u32, u64, u128>>::get_stake(p, s)
    }
    fn get_total_stake(p: &u32) -> Result<u128, DispatchError> {
        <Reward as RewardsApi<u32, u64, u128>>::get_total_stake(p)
    }
}
const POOLS: u32 = 2;
const STAKERS: u64 = 4;
const CURRENCIES: u32 = 4;

pub const PROP: Prop = Prop {
    id: "C14",
    rule: "a reward was distributed over at least two stakers and claimed after a stake had changed",
    assumptions: &[
        "stakes and rewards are whole numbers, kept below 2^40 and 2^44 (the pallet's FixedI128 ends at 1.7e20)",
        "every call is run in a transaction, as in the runtime",
    ],
    laws: &[law!("history", 2_500, 60_000, history), law!("shares", 2_500, 40_000, shares)],
    findings: &[],
};

pub fn ext<T>(f: impl FnOnce() -> T) -> T {
    frame_system::set_quiet(true);
    let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    sp_io::TestExternalities::from(st).execute_with(|| {
        System::set_block_number(1);
        f()
    })
}

#[derive(Default)]
struct Pool {
    stake: BTreeMap<u64, u128>,
    /// what each staker has coming, per currency, and how often it grew since it was last claimed
    due: BTreeMap<(u32, u64), (Rat, u32)>,
    currencies: BTreeSet<u32>,
    per_token: BTreeMap<u32, Rat>,
}
impl Pool {
    /// would this stake, or this reward, take the pallet beyond its number range?
    fn too_steep(&self, stake: u128, extra: Option<(u32, Rat)>) -> bool {
        let s = self.stake.values().copied().max().unwrap_or(0).max(stake);
        let top = self.per_token.iter().map(|(c, r)| match &extra {
            Some((d, x)) if c == d => r + x,
            _ => r.clone(),
        });
        let top = top.chain(extra.iter().map(|x| x.1.clone())).max().unwrap_or_else(|| rat(0));
        rat(s) * top > rat(10u128.pow(20))
    }
    fn total(&self) -> u128 {
        self.stake.values().sum()
    }
    fn of(&self, s: u64) -> u128 {
        *self.stake.get(&s).unwrap_or(&0)
    }
}

fn amount(src: &mut Src, bits: u32) -> u128 {
    match src.weighted(&[4, 3, 2, 1]) {
        0 => src.int(1, 20) as u128,
        1 => src.int(1, 100_000) as u128,
        2 => src.u128_in(1, 1 << bits),
        _ => 0,
    }
}

/// everything a staker can see of the pools
fn view() -> BTreeMap<(u32, u64, u32), u128> {
    let mut v = BTreeMap::new();
    for p in 0..POOLS {
        for s in 0..STAKERS {
            for c in 0..CURRENCIES {
                let r: u128 = Api::compute_reward(&p, &s, c).unwrap_or(u128::MAX);
                v.insert((p, s, c), r);
            }
        }
    }
    v
}

fn history(src: &mut Src) -> R {
    ext(|| {
        let mut pools: Vec<Pool> = (0..POOLS).map(|_| Pool::default()).collect();
        let mut distributed = vec![0u128; CURRENCIES as usize];
        let mut claimed = vec![0u128; CURRENCIES as usize];
        let (mut spread, mut moved) = (false, false);
        let (mut before, mut dump) = (view(), storage_root());
        src.steps(5, 40, |src| {
            let p = src.below(POOLS as u64) as u32;
            let s = src.below(STAKERS);
            let m = &mut pools[p as usize];
            let have = m.of(s);
            match src.weighted(&[5, 4, 3, 6, 4]) {
                k @ (0 | 1 | 2) => {
                    // a change of stake
                    let (want, res, what) = match k {
                        0 => {
                            let a = amount(src, 40);
                            if m.too_steep(have + a, None) {
                                return Ok(());
                            }
                            (Some(have + a), tx(|| Api::deposit_stake(&p, &s, a)), format!("deposit {a}"))
                        }
                        1 => {
                            let a = match src.weighted(&[3, 2, 1]) {
                                0 => have.min(amount(src, 40)),
                                1 => have,
                                _ => have + src.int(1, 5) as u128,
                            };
                            (have.checked_sub(a), tx(|| Api::withdraw_stake(&p, &s, a)), format!("withdraw {a}"))
                        }
                        _ => {
                            let a = if src.bool() { have.min(amount(src, 40)) } else { amount(src, 40) };
                            if m.too_steep(a, None) {
                                return Ok(());
                            }
                            (Some(a), tx(|| Api::set_stake(&p, &s, a)), format!("set {a}"))
                        }
                    };
                    src.note(|| format!("pool {p} staker {s} has {have}: {what} -> {res:?}"));
                    check_eq!(res.is_ok(), want.is_some(), "{what} with a stake of {have}: {res:?}");
                    match want {
                        Some(w) => {
                            moved |= w != have && spread;
                            m.stake.insert(s, w);
                            // no one's reward changes by it, not even the staker's own
                            check_eq!(view(), before, "rewards after {what} by {s} in {p}");
                        }
                        None => check_eq!(storage_root(), dump, "storage after a refused withdrawal"),
                    }
                }
                3 => {
                    let c = src.below(CURRENCIES as u64) as u32;
                    let a = amount(src, 44);
                    let total = m.total();
                    if total > 0 && m.too_steep(0, Some((c, ratio(a, total)))) {
                        return Ok(());
                    }
                    let res = tx(|| Api::distribute_reward(&p, c, a));
                    src.note(|| format!("pool {p}: distribute {a} of {c} over {total} -> {res:?}"));
                    let room = m.currencies.contains(&c) || m.currencies.len() < 3;
                    check_eq!(res.is_ok(), a == 0 || (total > 0 && room), "distribute {a} of {c} over {total}: {res:?}");
                    if a > 0 && res.is_ok() {
                        m.currencies.insert(c);
                        *m.per_token.entry(c).or_insert(rat(0)) += ratio(a, total);
                        distributed[c as usize] += a;
                        let n = m.stake.values().filter(|x| **x > 0).count();
                        spread |= n > 1;
                        for (s, st) in &m.stake {
                            let e = m.due.entry((c, *s)).or_insert((rat(0), 0));
                            e.0 += ratio(a * st, total);
                            e.1 += 1;
                        }
                        let now = view();
                        for (k, v) in &now {
                            let b = before[k];
                            check!(*v >= b, "a distribution took from {k:?}: {b} -> {v}");
                            if (k.0, k.2) != (p, c) || pools[p as usize].of(k.1) == 0 {
                                check_eq!(*v, b, "a distribution in pool {p} of currency {c} changed {k:?}");
                            }
                        }
                        before = now;
                    } else {
                        check_eq!(storage_root(), dump, "storage after an empty or refused distribution");
                    }
                }
                _ => {
                    let c = src.below(CURRENCIES as u64) as u32;
                    let res: Result<u128, _> = tx(|| Api::withdraw_reward(&p, &s, c));
                    src.note(|| format!("pool {p} staker {s}: claim {c} -> {res:?}"));
                    check_eq!(res, Ok(before[&(p, s, c)]), "a claim, against what was shown");
                    claimed[c as usize] += res.unwrap();
                    if res.unwrap() > 0 && moved {
                        src.nontrivial();
                    }
                    m.due.insert((c, s), (rat(0), 0));
                    before.insert((p, s, c), 0);
                    check_eq!(view(), before, "rewards after a claim");
                }
            }
            before = view();
            dump = storage_root();
            // the pools against the ledger
            for (p, m) in pools.iter().enumerate() {
                let p = p as u32;
                check_eq!(Api::get_total_stake(&p), Ok(m.total()), "total stake of {p}");
                for s in 0..STAKERS {
                    check_eq!(Api::get_stake(&p, &s), Ok(m.of(s)), "stake of {s} in {p}");
                }
                for ((c, s), (due, n)) in &m.due {
                    let got = rat(before[&(p, *s, *c)]);
                    let most = m.stake.values().max().copied().unwrap_or(0).max(1 << 44);
                    let slack = rat(1) + ulp() * rat(*n as u64) * rat(most);
                    check!(got <= *due, "staker {s} of {p} is shown {} of {c}, more than its share {}", show(&got), show(due));
                    check!(&got + &slack >= *due, "staker {s} of {p} is shown {} of {c}, its share is {}", show(&got), show(due));
                }
            }
            for c in 0..CURRENCIES as usize {
                let open: u128 = before.iter().filter(|(k, _)| k.2 == c as u32).map(|(_, v)| *v).sum();
                check!(claimed[c] + open <= distributed[c], "{} claimed and {open} open of {} distributed", claimed[c], distributed[c]);
                let total = Reward::get_total_rewards(c as u32);
                check_eq!(total, Ok((distributed[c] - claimed[c]) as i128), "rewards recorded as unclaimed");
            }
            Ok(())
        })?;
        src.sample(|| format!("distributed {distributed:?}, claimed {claimed:?}, stakes {:?}", pools.iter().map(|p| p.total()).collect::<Vec<_>>()));
        Ok(())
    })
}

/// splitting a stake over two accounts, or a reward over two distributions, gives what the whole gives
fn shares(src: &mut Src) -> R {
    let a = amount(src, 40).max(1);
    let b = amount(src, 40).max(1);
    let rest = amount(src, 40);
    let parts = src.list(1, 5, |s| amount(s, 43));
    let whole: u128 = parts.iter().sum();
    ext(|| {
        type P = Api;
        let d = |p: u32, s: u64, x: u128| tx(|| P::deposit_stake(&p, &s, x)).map_err(|e| format!("{e:?}"));
        d(0, 0, a)?;
        d(0, 1, b)?;
        d(0, 2, rest)?;
        d(1, 0, a + b)?;
        d(1, 2, rest)?;
        for x in &parts {
            tx(|| P::distribute_reward(&0, 0, *x)).map_err(|e| format!("{e:?}"))?;
        }
        tx(|| P::distribute_reward(&1, 0, whole)).map_err(|e| format!("{e:?}"))?;
        let g = |p: u32, s: u64| -> Result<u128, String> { tx(|| P::withdraw_reward(&p, &s, 0)).map_err(|e| format!("{e:?}")) };
        let (x, y, r0) = (g(0, 0)?, g(0, 1)?, g(0, 2)?);
        let (xy, r1) = (g(1, 0)?, g(1, 2)?);
        if whole > 0 && rest > 0 {
            src.nontrivial();
        }
        src.sample(|| format!("stakes {a}+{b} of {}, rewards {parts:?}: {x}+{y} against {xy}", a + b + rest));
        let eps = 3 + ((a + b + rest) * parts.len() as u128) / 1_000_000_000_000_000_000;
        check!((x + y).abs_diff(xy) <= eps, "stakes {a} and {b} earned {x} and {y}, together {xy}");
        check!(r0.abs_diff(r1) <= eps, "the other stake earned {r0} and {r1}");
        check!(x + y + r0 <= whole && xy + r1 <= whole, "paid {} and {} of {whole}", x + y + r0, xy + r1);
        check!(x + y + r0 + eps >= whole, "paid {} of {whole}", x + y + r0);
        Ok(())
    })
}
