//! Farms: rewards paid out period by period to those who have put in their shares.
use crate::rt::*;
use frame_support::traits::Hooks;
use pbt::{check, check_eq, fail, Src, R};

const USERS: usize = 4;
const POOLS: usize = 2;
const COINS: usize = 2;
fn pool(p: usize) -> CurrencyId {
    [CurrencyId::join_lp_token(Token(DOT), Token(IBTC)).unwrap(), StableLpToken(3)][p]
}
/// the same pool, however its currencies are given
fn named(p: usize, turned: bool) -> CurrencyId {
    match (pool(p), turned) {
        (LpToken(a, b), true) => LpToken(b, a),
        (c, _) => c,
    }
}
fn coin(r: usize) -> CurrencyId {
    [Token(INTR), Token(DOT)][r]
}
#[derive(Clone, Debug)]
enum Op {
    /// by root, pool, the name turned, coin, periods, amount
    Schedule(bool, usize, bool, usize, u32, u128),
    Remove(bool, usize, bool, usize),
    Deposit(usize, usize, bool, u32),
    Withdraw(usize, usize, bool, u128, u32),
    Claim(usize, usize, bool, usize),
    /// shares come to hand
    Share(usize, usize, u128),
    Blocks(u64),
}
#[derive(Clone, Debug)]
struct Model {
    /// periods left and the amount for each
    plan: [[Option<(u32, u128)>; COINS]; POOLS],
    stake: [[u128; USERS]; POOLS],
    due: Vec<Rat>,
    /// by how much that may be off: the last digits of each reward for a unit, and what claiming leaves
    off: Vec<Rat>,
    /// how many kinds of reward a pool has ever had
    kinds: [[bool; COINS]; POOLS],
    /// what each unit of a stake has earned since the start
    each: Vec<Rat>,
}
impl Model {
    fn due(&mut self, p: usize, r: usize, u: usize) -> &mut Rat {
        &mut self.due[(p * COINS + r) * USERS + u]
    }
    fn off(&mut self, p: usize, r: usize, u: usize) -> &mut Rat {
        &mut self.off[(p * COINS + r) * USERS + u]
    }
    /// the reward pools count up to 1.7e20
    fn uncountable(&self, p: usize, stake: u128) -> bool {
        (0..COINS).any(|r| self.each[p * COINS + r].clone() * rat(stake) > rat(10u128.pow(20)))
    }
    fn total(&self, p: usize) -> u128 {
        self.stake[p].iter().sum()
    }
}
fn size(s: &mut Src) -> u128 {
    match s.below(3) {
        0 => s.u128(100),
        1 => s.u128(1_000_000_000),
        _ => s.u128(10u128.pow(18)),
    }
}
fn gen(s: &mut Src, m: &Model) -> Op {
    let (p, u, r, t) = (s.idx(POOLS), s.idx(USERS), s.idx(COINS), s.bool());
    let odd = s.ratio(1, 8);
    let len = |s: &mut Src| if s.ratio(1, 8) { s.below(2) as u32 } else { 2 };
    match s.weighted(&[4, 1, 5, 5, 12, 4, 12]) {
        0 => Op::Schedule(!odd, p, t, r, if s.ratio(1, 10) { *s.pick(&[0, u32::MAX]) } else { s.below(12) as u32 }, if s.ratio(1, 8) { s.u128(bal(coin(r), &TreasuryAccount::get()) + 2) } else { size(s) }),
        1 => Op::Remove(!odd, p, t, r),
        2 => Op::Deposit(u, p, t, len(s)),
        3 => Op::Withdraw(u, p, t, if odd && s.bool() { m.stake[p][u] + 1 } else { s.u128(m.stake[p][u] + 1) }, len(s)),
        4 => {
            let some: Vec<usize> = (0..m.due.len()).filter(|i| m.due[*i] >= rat(1)).collect();
            if !some.is_empty() && s.ratio(7, 8) {
                let i = *s.pick(&some);
                return Op::Claim(i % USERS, i / USERS / COINS, t, i / USERS % COINS);
            }
            Op::Claim(u, p, t, r)
        }
        5 => Op::Share(u, p, size(s)),
        _ => Op::Blocks(1 + s.below(2 * RewardPeriod::get())),
    }
}
fn exec(op: &Op) -> Result<(), String> {
    let f = |r: Result<(), sp_runtime::DispatchError>| r.map_err(|e| format!("{e:?}"));
    match *op {
        Op::Schedule(o, p, t, r, n, x) => f(Farming::update_reward_schedule(origin(o), named(p, t), coin(r), n, x)),
        Op::Remove(o, p, t, r) => Farming::remove_reward_schedule(origin(o), named(p, t), coin(r)).map(|_| ()).map_err(|e| format!("{:?}", e.error)),
        Op::Deposit(u, p, t, l) => f(Farming::deposit(by(u), named(p, t), l)),
        Op::Withdraw(u, p, t, x, l) => f(Farming::withdraw(by(u), named(p, t), x, l)),
        Op::Claim(u, p, t, r) => f(Farming::claim(by(u), named(p, t), coin(r))),
        Op::Share(u, p, x) => {
            give(pool(p), &user(u), x);
            Ok(())
        }
        Op::Blocks(_) => unreachable!(),
    }
}
/// of each pool: what is there, coin by coin
fn pots() -> Vec<Vec<u128>> {
    (0..POOLS).map(|p| (0..COINS).map(|r| bal(coin(r), &farm_account(pool(p)))).collect()).collect()
}
fn users() -> Vec<Vec<u128>> {
    (0..USERS).map(|u| (0..COINS).map(|r| bal(coin(r), &user(u))).collect()).collect()
}
fn shares() -> Vec<Vec<(u128, u128)>> {
    (0..USERS).map(|u| (0..POOLS).map(|p| (bal(pool(p), &user(u)), reserved(pool(p), &user(u)))).collect()).collect()
}
fn chest() -> Vec<u128> {
    (0..COINS).map(|r| bal(coin(r), &TreasuryAccount::get())).collect()
}
fn block(s: &mut Src, m: &mut Model) -> R {
    System::set_block_number(now() + 1);
    let pay = now() % RewardPeriod::get() == 0;
    let before = (pots(), users(), shares(), chest());
    pbt::guarded(|| Farming::on_initialize(now()))?;
    check_eq!((pots(), users(), shares(), chest()), before, "block {} moved funds", now());
    if pay {
        for p in 0..POOLS {
            for r in 0..COINS {
                match m.plan[p][r] {
                    Some((0, _)) => m.plan[p][r] = None,
                    Some((n, x)) if x == 0 || m.total(p) > 0 => {
                        m.plan[p][r] = Some((n - 1, x));
                        if x > 0 {
                            m.kinds[p][r] = true;
                            s.label("distributed");
                        }
                        if x > 0 {
                            let add = ratio(x, m.total(p));
                            m.each[p * COINS + r] += add;
                        }
                        for u in 0..USERS {
                            if x > 0 {
                                let part = ratio(m.stake[p][u], m.total(p)) * rat(x);
                                *m.due(p, r, u) += part;
                                let last = ulp() * rat(m.stake[p][u] + 2);
                                *m.off(p, r, u) += last;
                            }
                        }
                    }
                    _ => (),
                }
            }
        }
    }
    Ok(())
}
/// some if the call must go through or not
fn step(m: &mut Model, op: &Op, pre: &(Vec<Vec<u128>>, Vec<Vec<u128>>, Vec<Vec<(u128, u128)>>, Vec<u128>)) -> Result<Option<bool>, &'static str> {
    let (_, _, shares, chest) = pre;
    let kinds = |m: &Model, p: usize| m.kinds[p].iter().filter(|x| **x).count() as u32;
    match *op {
        Op::Schedule(o, p, _, r, n, x) => {
            if !o {
                return Err("only the root may");
            }
            if x > chest[r] {
                return Err("there is not so much");
            }
            let (n0, x0) = m.plan[p][r].unwrap_or((0, 0));
            let Some(n) = n0.checked_add(n) else { return Err("too many periods") };
            if n == 0 {
                // nothing to pay it out in
                if x > 0 {
                    return Err("no period to pay it in");
                }
                m.plan[p][r] = Some((0, 0));
                return Ok(None);
            }
            m.plan[p][r] = Some((n, (n0 as u128 * x0 + x) / n as u128));
            Ok(Some(true))
        }
        Op::Remove(o, p, _, r) => {
            if !o {
                return Err("only the root may");
            }
            m.plan[p][r] = None;
            Ok(Some(true))
        }
        Op::Deposit(u, p, _, l) => {
            if l < kinds(m, p) {
                return Err("more kinds of reward than given");
            }
            m.stake[p][u] += shares[u][p].0;
            Ok(Some(true))
        }
        Op::Withdraw(u, p, _, x, l) => {
            if l < kinds(m, p) {
                return Err("more kinds of reward than given");
            }
            if x > m.stake[p][u] {
                return Err("not so much was put in");
            }
            m.stake[p][u] -= x;
            Ok(Some(true))
        }
        Op::Claim(..) | Op::Share(..) => Ok(Some(true)),
        Op::Blocks(_) => unreachable!(),
    }
}
pub fn farms(s: &mut Src) -> R {
    open(|| {
        RewardPeriod::set(*s.pick(&[3, 1, 5]));
        for r in 0..COINS {
            give(coin(r), &TreasuryAccount::get(), 10u128.pow(19));
        }
        let mut m = Model { plan: Default::default(), stake: Default::default(), due: vec![rat(0); POOLS * COINS * USERS], off: vec![rat(0); POOLS * COINS * USERS], kinds: Default::default(), each: vec![rat(0); POOLS * COINS] };
        for p in 0..POOLS {
            for u in 0..USERS {
                if s.ratio(2, 3) {
                    give(pool(p), &user(u), size(s));
                }
            }
        }
        s.steps(6, 50, |s| {
            let op = gen(s, &m);
            m.off.iter_mut().for_each(|x| *x += ulp() * rat(2));
            if let Op::Blocks(n) = op {
                s.note(|| format!("{n} blocks"));
                for _ in 0..n {
                    block(s, &mut m)?;
                }
            } else {
                let pre = (pots(), users(), shares(), chest());
                let root_before = storage_root();
                let mut next = m.clone();
                let want = step(&mut next, &op, &pre);
                let res = pbt::guarded(|| exec(&op))?;
                s.note(|| format!("at {}: {op:?} -> {res:?}", now()));
                let beyond = match op {
                    Op::Deposit(u, p, ..) | Op::Withdraw(u, p, ..) | Op::Claim(u, p, ..) => m.uncountable(p, m.stake[p][u].max(next.stake[p][u])),
                    _ => false,
                };
                match want {
                    Err(why) => check!(res.is_err(), "{op:?} went through: {why}"),
                    Ok(Some(true)) if beyond => s.label("beyond what can be counted"),
                    Ok(Some(true)) => {
                        if let Err(e) = &res {
                            fail!("{op:?} was refused: {e}");
                        }
                    }
                    _ => (),
                }
                if res.is_err() {
                    check!(root_before == storage_root(), "{op:?} was refused ({res:?}) and yet changed something");
                    return Ok(());
                }
                let old = std::mem::replace(&mut m, next);
                let (mut pots1, mut users1, mut shares1, mut chest1) = pre.clone();
                match op {
                    Op::Schedule(_, p, _, r, _, x) => {
                        s.label("scheduled");
                        chest1[r] -= x;
                        pots1[p][r] += x;
                    }
                    Op::Remove(_, p, _, r) => {
                        s.label("removed");
                        // what was not yet given out goes back, and at the most what no one has earned
                        let back = chest()[r].saturating_sub(chest1[r]);
                        let plan = old.plan[p][r].map_or(0, |(n, x)| n as u128 * x);
                        check!(back >= plan, "{back} went back, {plan} was still to be given out");
                        chest1[r] += back;
                        check!(pots1[p][r] >= back, "more went back than there was");
                        pots1[p][r] -= back;
                    }
                    Op::Deposit(u, p, ..) => {
                        let x = shares1[u][p].0;
                        shares1[u][p] = (0, shares1[u][p].1 + x);
                        if x > 0 {
                            s.label("deposited");
                        }
                    }
                    Op::Withdraw(u, p, _, x, _) => {
                        shares1[u][p].0 += x;
                        shares1[u][p].1 -= x;
                        if x > 0 {
                            s.label("withdrawn");
                        }
                    }
                    Op::Claim(u, p, _, r) => {
                        let got = pots1[p][r].checked_sub(pots()[p][r]).unwrap_or_default();
                        *m.off(p, r, u) += rat(1);
                        let off = m.off(p, r, u).clone();
                        let due = m.due(p, r, u);
                        let d = due.clone() - rat(got);
                        check!(d <= off && -d <= off, "user {u} was paid {got}, having earned {}", show(due));
                        *due -= rat(got);
                        pots1[p][r] -= got;
                        users1[u][r] += got;
                        if got > 0 {
                            s.label("claimed");
                            s.nontrivial();
                        }
                    }
                    Op::Share(u, p, x) => shares1[u][p].0 += x,
                    Op::Blocks(_) => unreachable!(),
                }
                check_eq!((pots(), users(), shares(), chest()), (pots1, users1, shares1, chest1), "what moved with {op:?}");
            }
            for p in 0..POOLS {
                for r in 0..COINS {
                    let is = Farming::reward_schedules(pool(p), coin(r));
                    let want = m.plan[p][r].unwrap_or((0, 0));
                    check_eq!((is.period_count, is.per_period), want, "the schedule of {:?} in {:?} after {op:?}", coin(r), pool(p));
                    check_eq!(Farming::total_rewards(&named(p, s.bool()), &coin(r)), want.0 as u128 * want.1, "what is still to be given out");
                    // what is there covers what is promised and what is earned
                    let mut owed = rat(want.0 as u128 * want.1);
                    for u in 0..USERS {
                        owed += m.due(p, r, u).floor();
                    }
                    let pot = bal(coin(r), &farm_account(pool(p)));
                    check!(rat(pot) + rat(USERS as u128 * 2) >= owed, "{:?} has {pot} of {:?} and owes {}", pool(p), coin(r), show(&owed));
                }
                for u in 0..USERS {
                    let st = fx(FarmingRewards::stake(&pool(p), &user(u)));
                    check!(st == rat(m.stake[p][u]), "the stake of user {u} is {}, not {}", show(&st), m.stake[p][u]);
                    check_eq!(reserved(pool(p), &user(u)), m.stake[p][u], "what is kept of the shares of user {u}");
                }
            }
            Ok(())
        })
    })
}
