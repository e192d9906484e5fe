//! Bootstraps: contributions to pairs that do not trade yet, their end, claims, refunds and rewards.
use crate::pairs::{account, assets, lp, PAIRS};
use crate::rt::*;
use dex_general::{PairStatus, PairStatuses};
use pbt::{check, check_eq, fail, Finding, Src, R};
use std::collections::BTreeMap;

const USERS: usize = 4;
/// three pairs of three assets
const WORLD: [usize; 3] = [0, 1, 3];
/// the three assets, two others, the shares of the pairs
const C: usize = 8;
fn coin(c: usize) -> CurrencyId {
    match c {
        0..=2 => assets()[c],
        3 => Token(INTR),
        4 => Token(KSM),
        _ => lp(WORLD[c - 5]),
    }
}
/// users, the account of all bootstraps, the accounts of the pairs
const BOOT: usize = USERS;
const ACCS: usize = USERS + 4;
fn acc(i: usize) -> Acc {
    match i {
        BOOT => boot_account(),
        _ if i < USERS => user(i),
        _ => account(crate::pairs::USERS + WORLD[i - USERS - 1]),
    }
}
fn key(p: usize) -> (CurrencyId, CurrencyId) {
    let (x, y) = PAIRS[WORLD[p]];
    (assets()[x], assets()[y])
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Terms {
    target: (u128, u128),
    cap: (u128, u128),
    raised: (u128, u128),
    end: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Status {
    Off,
    Raising(Terms),
    Trading { total: u128, rate: u128 },
}
use Status::*;
#[derive(Clone, Debug, PartialEq, Eq)]
struct Pair {
    status: Status,
    over: Option<Terms>,
    given: Vec<Option<(u128, u128)>>,
    rewards: BTreeMap<CurrencyId, u128>,
    limits: BTreeMap<CurrencyId, u128>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Snap {
    bal: Vec<Vec<u128>>,
    pairs: Vec<Pair>,
    now: u64,
}
type St = PairStatus<u128, u64, Acc>;
fn terms(s: &St) -> Result<Option<Terms>, String> {
    Ok(match s {
        PairStatus::Bootstrap(b) => {
            check!(b.pair_account == boot_account(), "the account of bootstraps changed");
            Some(Terms { target: b.target_supply, cap: b.capacity_supply, raised: b.accumulated_supply, end: b.end_block_number })
        }
        _ => None,
    })
}
impl Terms {
    /// over without enough
    fn failed(&self, now: u64) -> bool {
        now > self.end && (self.raised.0 < self.target.0 || self.raised.1 < self.target.1)
    }
    fn total(&self) -> u128 {
        sqrt(&(big(self.raised.0) * big(self.raised.1))).to_u128().unwrap_or(0)
    }
    fn share(&self, given: (u128, u128)) -> Option<u128> {
        let (a, b) = (big(self.raised.0), big(self.raised.1));
        if a.is_zero() || b.is_zero() {
            return None;
        }
        let x = (big(given.0) * &b + big(given.1) * &a) / (big(2) * &b);
        let y = (big(given.1) * &a + big(given.0) * &b) / (big(2) * &a);
        sqrt(&(x * y)).to_u128()
    }
}
impl Snap {
    fn read() -> Result<Snap, String> {
        let bal = (0..ACCS).map(|i| (0..C).map(|c| bal(coin(c), &acc(i))).collect()).collect();
        let mut pairs = vec![];
        for p in 0..3 {
            let k = key(p);
            let s = PairStatuses::<Test>::get(k);
            let status = match (&s, terms(&s)?) {
                (_, Some(t)) => Raising(t),
                (PairStatus::Trading(m), _) => Trading { total: m.total_supply, rate: m.fee_rate },
                _ => Off,
            };
            pairs.push(Pair {
                status,
                over: terms(&General::bootstrap_end_status(k))?,
                given: (0..USERS)
                    .map(|i| {
                        let at = (k, user(i));
                        dex_general::BootstrapPersonalSupply::<Test>::contains_key(&at).then(|| dex_general::BootstrapPersonalSupply::<Test>::get(&at))
                    })
                    .collect(),
                rewards: General::get_bootstrap_rewards(k).into_iter().collect(),
                limits: General::get_bootstrap_limits(k).into_iter().collect(),
            });
        }
        Ok(Snap { bal, pairs, now: System::block_number() })
    }
    fn pay(&mut self, c: usize, from: usize, to: usize, x: u128) -> Option<()> {
        let left = self.bal[from][c].checked_sub(x)?;
        self.bal[from][c] = left;
        self.bal[to][c] = self.bal[to][c].checked_add(x)?;
        Some(())
    }
}
#[derive(Clone, Debug)]
enum Op {
    Create { p: usize, flip: bool, target: (u128, u128), cap: (u128, u128), end: u64, rewards: Vec<usize>, limits: Vec<(usize, u128)>, update: bool },
    Give { who: usize, p: usize, flip: bool, x: (u128, u128), late: bool },
    End { who: usize, p: usize, flip: bool },
    Claim { who: usize, to: usize, p: usize, flip: bool, late: bool },
    Refund { who: usize, p: usize, flip: bool },
    Charge { who: usize, p: usize, what: Vec<(usize, u128)> },
    Withdraw { p: usize, to: usize },
    Pair { p: usize, flip: bool, rate: u128 },
    Blocks(u64),
    /// a swap, liquidity, a donation: not judged here
    Trade { who: usize, p: usize, flip: bool, x: (u128, u128), add: bool },
    Donate { who: usize, c: usize, to: usize, x: u128 },
}
impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Create { update: false, .. } => "create",
            Op::Create { .. } => "update",
            Op::Give { .. } => "contribute",
            Op::End { .. } => "end",
            Op::Claim { .. } => "claim",
            Op::Refund { .. } => "refund",
            Op::Charge { .. } => "charge a reward",
            Op::Withdraw { .. } => "withdraw a reward",
            Op::Pair { .. } => "create a pair",
            Op::Blocks(_) => "blocks",
            Op::Trade { .. } => "trade",
            Op::Donate { .. } => "donate",
        }
    }
}
fn coin_of(p: usize) -> (usize, usize) {
    PAIRS[WORLD[p]]
}
fn ids(p: usize, flip: bool) -> (CurrencyId, CurrencyId) {
    let (a, b) = key(p);
    if flip {
        (b, a)
    } else {
        (a, b)
    }
}
fn turn<T>(x: (T, T), flip: bool) -> (T, T) {
    if flip {
        (x.1, x.0)
    } else {
        x
    }
}
fn deadline(late: bool) -> u64 {
    System::block_number() + !late as u64
}
fn exec(op: &Op) -> R {
    let e = |r: frame_support::dispatch::DispatchResult| r.map_err(|e| format!("{e:?}"));
    match op.clone() {
        Op::Create { p, flip, target, cap, end, rewards, limits, update } => {
            let (a, b) = ids(p, flip);
            let (t, c) = (turn(target, flip), turn(cap, flip));
            let rewards: Vec<_> = rewards.into_iter().map(coin).collect();
            let limits: Vec<_> = limits.into_iter().map(|(c, x)| (coin(c), x)).collect();
            e(tx(|| {
                if update {
                    General::bootstrap_update(root(), a, b, t.0, t.1, c.0, c.1, end, rewards, limits)
                } else {
                    General::bootstrap_create(root(), a, b, t.0, t.1, c.0, c.1, end, rewards, limits)
                }
            }))
        }
        Op::Give { who, p, flip, x, late } => {
            let ((a, b), x) = (ids(p, flip), turn(x, flip));
            e(tx(|| General::bootstrap_contribute(by(who), a, b, x.0, x.1, deadline(late))))
        }
        Op::End { who, p, flip } => {
            let (a, b) = ids(p, flip);
            e(tx(|| General::bootstrap_end(by(who), a, b)))
        }
        Op::Claim { who, to, p, flip, late } => {
            let (a, b) = ids(p, flip);
            e(tx(|| General::bootstrap_claim(by(who), user(to), a, b, deadline(late))))
        }
        Op::Refund { who, p, flip } => {
            let (a, b) = ids(p, flip);
            e(tx(|| General::bootstrap_refund(by(who), a, b)))
        }
        Op::Charge { who, p, what } => {
            let (a, b) = key(p);
            e(tx(|| General::bootstrap_charge_reward(by(who), a, b, what.into_iter().map(|(c, x)| (coin(c), x)).collect())))
        }
        Op::Withdraw { p, to } => {
            let (a, b) = key(p);
            e(tx(|| General::bootstrap_withdraw_reward(root(), a, b, user(to))))
        }
        Op::Pair { p, flip, rate } => {
            let (a, b) = ids(p, flip);
            e(tx(|| General::create_pair(root(), a, b, rate)))
        }
        Op::Blocks(n) => {
            System::set_block_number(System::block_number() + n);
            Ok(())
        }
        Op::Trade { who, p, flip, x, add } => {
            let (a, b) = ids(p, flip);
            if add {
                e(tx(|| General::add_liquidity(by(who), a, b, x.0, x.1, 0, 0, deadline(false))))
            } else {
                e(tx(|| General::swap_exact_assets_for_assets(by(who), x.0, 0, vec![a, b], user(who), deadline(false))))
            }
        }
        Op::Donate { who, c, to, x } => send(coin(c), &user(who), &acc(to), x),
    }
}
enum Want {
    Refused(&'static str),
    Done(Snap),
    Open,
}
fn want(pre: &Snap, op: &Op) -> Want {
    use Want::*;
    let mut s = pre.clone();
    let now = pre.now;
    macro_rules! need {
        ($e:expr, $why:expr) => {
            if !$e {
                return Refused($why);
            }
        };
    }
    macro_rules! or {
        ($e:expr, $why:expr) => {
            match $e {
                Some(x) => x,
                None => return Refused($why),
            }
        };
    }
    match op.clone() {
        Op::Create { p, target, cap, end, rewards, limits, update, .. } => {
            let k = &mut s.pairs[p];
            let raised = match &k.status {
                Off => {
                    need!(!update, "nothing to update");
                    (0, 0)
                }
                Raising(t) => {
                    need!(update || t.failed(now), "there already");
                    need!(k.rewards.values().all(|x| *x == 0), "rewards are there");
                    t.raised
                }
                Trading { .. } => return Refused("trades already"),
            };
            k.status = Raising(Terms { target, cap, raised, end });
            k.rewards = rewards.into_iter().map(|c| (coin(c), 0)).collect();
            k.limits = limits.into_iter().map(|(c, x)| (coin(c), x)).collect();
        }
        Op::Give { who, p, x, late, .. } => {
            need!(!late, "too late");
            need!((0..C).all(|c| pre.bal[who][c] >= *pre.pairs[p].limits.get(&coin(c)).unwrap_or(&0)), "too poor to take part");
            let t = match &mut s.pairs[p].status {
                Raising(t) if now < t.end => t,
                _ => return Refused("not raising"),
            };
            let part = |x: u128, raised: u128, cap: u128| {
                let sum = big(x) + big(raised);
                if sum > big(u128::MAX) {
                    None
                } else if sum > big(cap) {
                    cap.checked_sub(raised)
                } else {
                    Some(x)
                }
            };
            let x = (or!(part(x.0, t.raised.0, t.cap.0), "too much"), or!(part(x.1, t.raised.1, t.cap.1), "too much"));
            need!(x.0 > 0 || x.1 > 0, "nothing given");
            t.raised = (t.raised.0 + x.0, t.raised.1 + x.1);
            let mine = s.pairs[p].given[who].get_or_insert((0, 0));
            *mine = (mine.0 + x.0, mine.1 + x.1);
            let (a, b) = coin_of(p);
            or!(s.pay(a, who, BOOT, x.0), "not so rich");
            or!(s.pay(b, who, BOOT, x.1), "not so rich");
        }
        Op::End { p, .. } => {
            let t = match &pre.pairs[p].status {
                Raising(t) => t.clone(),
                _ => return Refused("not raising"),
            };
            need!(now >= t.end, "not over");
            need!(t.raised.0 >= t.target.0 && t.raised.1 >= t.target.1, "target missed");
            let total = t.total();
            need!(total > 0, "nothing raised");
            let (a, b) = coin_of(p);
            or!(s.pay(a, BOOT, USERS + 1 + p, t.raised.0), "not there");
            or!(s.pay(b, BOOT, USERS + 1 + p, t.raised.1), "not there");
            s.bal[USERS + 1 + p][5 + p] += total;
            s.pairs[p].status = Trading { total, rate: 30 };
            s.pairs[p].over = Some(t);
        }
        Op::Claim { who, to, p, late, .. } => {
            need!(!late, "too late");
            need!(matches!(pre.pairs[p].status, Trading { .. }), "does not trade");
            let given = or!(pre.pairs[p].given[who], "gave nothing");
            let t = or!(pre.pairs[p].over.clone(), "there was no bootstrap");
            need!(!t.failed(now), "it failed");
            let share = or!(t.share(given), "nothing raised");
            s.pairs[p].given[who] = None;
            or!(s.pay(5 + p, USERS + 1 + p, to, share), "no such share");
            for c in 0..C {
                if let Some(r) = pre.pairs[p].rewards.get(&coin(c)) {
                    let x = or!(md(share, *r, t.total()), "overflow");
                    or!(s.pay(c, BOOT, who, x), "no such reward");
                }
            }
        }
        Op::Refund { who, p, .. } => {
            let t = match (&pre.pairs[p].status, &pre.pairs[p].over) {
                (Raising(t), _) | (_, Some(t)) => t,
                _ => return Refused("no bootstrap"),
            };
            need!(t.failed(now), "did not fail");
            let x = or!(s.pairs[p].given[who].take(), "gave nothing");
            if let Raising(t) = &mut s.pairs[p].status {
                t.raised = (or!(t.raised.0.checked_sub(x.0), "more than raised"), or!(t.raised.1.checked_sub(x.1), "more than raised"));
            }
            let (a, b) = coin_of(p);
            or!(s.pay(a, BOOT, who, x.0), "not there");
            or!(s.pay(b, BOOT, who, x.1), "not there");
        }
        Op::Charge { who, p, what } => {
            need!(what.len() == pre.pairs[p].rewards.len(), "not these");
            for (c, x) in what {
                let r = or!(s.pairs[p].rewards.get(&coin(c)).copied(), "no such reward");
                s.pairs[p].rewards.insert(coin(c), or!(r.checked_add(x), "overflow"));
                or!(s.pay(c, who, BOOT, x), "not so rich");
            }
        }
        Op::Withdraw { p, to } => {
            for c in 0..C {
                if let Some(r) = pre.pairs[p].rewards.get(&coin(c)) {
                    or!(s.pay(c, BOOT, to, *r), "not there");
                    s.pairs[p].rewards.insert(coin(c), 0);
                }
            }
        }
        Op::Pair { p, rate, .. } => {
            need!(rate < 10_000, "too high");
            match &pre.pairs[p].status {
                Trading { .. } => return Refused("there already"),
                Raising(t) => {
                    need!(t.failed(now), "still raising");
                    s.pairs[p].over = Some(t.clone());
                }
                Off => (),
            }
            s.pairs[p].status = Trading { total: 0, rate };
        }
        Op::Blocks(n) => s.now += n,
        Op::Trade { .. } | Op::Donate { .. } => return Open,
    }
    Done(s)
}
/// what the account of the bootstraps owes of each coin: contributions, and rewards not yet claimed
fn owed(s: &Snap) -> Vec<BigInt> {
    let mut o = vec![big(0); C];
    for (p, k) in s.pairs.iter().enumerate() {
        let (a, b) = coin_of(p);
        let done = match (&k.status, &k.over) {
            (Trading { .. }, Some(t)) if !t.failed(s.now) => Some(t),
            _ => None,
        };
        match done {
            None => {
                for g in k.given.iter().flatten() {
                    o[a] += big(g.0);
                    o[b] += big(g.1);
                }
            }
            Some(t) => {
                for c in 0..C {
                    let r = *k.rewards.get(&coin(c)).unwrap_or(&0);
                    for g in k.given.iter().flatten() {
                        o[c] += big(md(t.share(*g).unwrap_or(0), r, t.total()).unwrap_or(0));
                    }
                }
            }
        }
        if done.is_none() {
            for c in 0..C {
                o[c] += big(*k.rewards.get(&coin(c)).unwrap_or(&0));
            }
        }
    }
    o
}
fn amounts(s: &mut Src, unit: u128) -> (u128, u128) {
    let one = |s: &mut Src| if s.ratio(1, 8) { 0 } else { s.u128(unit) };
    (one(s), one(s))
}
fn gen(s: &mut Src, pre: &Snap, unit: u128) -> Op {
    let p = s.idx(3);
    let who = s.idx(USERS);
    let flip = s.bool();
    let late = s.ratio(1, 50);
    let t = match &pre.pairs[p].status {
        Raising(t) => Some(t.clone()),
        _ => None,
    };
    // what means something for a pair in this state
    let over = t.as_ref().map_or(false, |t| pre.now >= t.end);
    let mix: [u64; 12] = match &pre.pairs[p].status {
        Off => [20, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1],
        Raising(_) if !over => [1, 2, 20, 2, 1, 2, 4, 1, 1, 6, 1, 2],
        Raising(_) => [2, 2, 2, 12, 1, 12, 2, 1, 3, 2, 1, 1],
        Trading { .. } => [1, 1, 1, 1, 16, 5, 3, 1, 1, 4, 4, 1],
    };
    match s.weighted(&mix) {
        k @ (0 | 1) => {
            let target = amounts(s, unit);
            let cap = (s.u128_in(target.0, target.0 + unit), s.u128_in(target.1, target.1 + unit));
            let cap = if s.ratio(1, 10) { amounts(s, unit) } else { cap };
            let end = (pre.now + s.below(12)).saturating_sub(1);
            let n = s.idx(3);
            let rewards = (0..n).map(|_| s.idx(5)).collect();
            let n = if s.ratio(3, 4) { 0 } else { s.idx(3) };
            let limits = (0..n).map(|_| (s.idx(5), s.u128(unit))).collect();
            Op::Create { p, flip, target, cap, end, rewards, limits, update: k == 1 }
        }
        2 => {
            let x = match &t {
                Some(t) if s.bool() => {
                    let around = |s: &mut Src, raised: u128, to: u128| to.saturating_sub(raised).saturating_add(s.u128(2)).saturating_sub(s.u128(2));
                    let to = if s.bool() { t.target } else { t.cap };
                    (around(s, t.raised.0, to.0), around(s, t.raised.1, to.1))
                }
                _ => amounts(s, unit),
            };
            let x = if s.ratio(1, 40) { (u128::MAX - s.u128(3), x.1) } else { x };
            Op::Give { who, p, flip, x, late }
        }
        3 => Op::End { who, p, flip },
        4 => Op::Claim { who, to: s.idx(USERS), p, flip, late },
        5 => Op::Refund { who, p, flip },
        6 => {
            let own: Vec<usize> = (0..5).filter(|c| pre.pairs[p].rewards.contains_key(&coin(*c))).collect();
            let mut what: Vec<_> = own.iter().map(|c| (*c, s.u128(unit))).collect();
            if s.ratio(1, 6) {
                what.push((s.idx(5), s.u128(unit)));
            }
            if s.ratio(1, 6) && !what.is_empty() {
                let i = s.idx(what.len());
                what[i].0 = s.idx(5);
            }
            Op::Charge { who, p, what }
        }
        7 => {
            // after a claim it pays out what is no longer there: see the finding
            let k = &pre.pairs[p];
            let claimed = matches!((&k.status, &k.over), (Trading { .. }, Some(t)) if !t.failed(pre.now));
            if claimed {
                Op::Blocks(1)
            } else {
                Op::Withdraw { p, to: who }
            }
        }
        8 => Op::Pair { p, flip, rate: *s.pick(&[30, 0, 9_999, 10_000]) },
        9 => {
            let n = match &t {
                Some(t) if s.bool() => t.end.saturating_sub(pre.now) + s.below(3),
                _ => s.below(4),
            };
            Op::Blocks(n)
        }
        10 => Op::Trade { who, p, flip, x: amounts(s, unit), add: s.bool() },
        _ => Op::Donate { who, c: s.idx(5), to: s.idx(ACCS), x: s.u128(unit / 10) },
    }
}
fn drive(s: &mut Src, each: &mut dyn FnMut(&mut Src, &Snap, &Snap, &Op, bool) -> R) -> R {
    let scale = s.uniform(4, 100);
    let unit = 1u128 << scale;
    let mut balances = vec![];
    for i in 0..USERS {
        for c in 0..5 {
            balances.push((user(i), coin(c), s.u128_in(unit, unit * 8)));
        }
    }
    open(balances, || {
        let mut pre = Snap::read()?;
        s.steps(10, 60, |s| {
            let op = gen(s, &pre, unit);
            let root = storage_root();
            let res = pbt::guarded(|| exec(&op))?;
            s.note(|| format!("{op:?} -> {res:?}"));
            if res.is_ok() {
                s.label(op.name());
            } else {
                check!(storage_root() == root, "{op:?} was refused ({res:?}) and yet changed something");
            }
            let post = Snap::read()?;
            each(s, &pre, &post, &op, res.is_ok())?;
            pre = post;
            Ok(())
        })
    })
}
/// every call does what the terms say, to the unit
pub fn exact(s: &mut Src) -> R {
    drive(s, &mut |s, pre, post, op, ok| {
        match want(pre, op) {
            Want::Refused(why) => check!(!ok, "{op:?} must be refused ({why})"),
            Want::Done(w) => {
                check!(ok, "{op:?} was refused");
                for i in 0..ACCS {
                    for c in 0..C {
                        check_eq!(post.bal[i][c], w.bal[i][c], "after {op:?}: account {i}'s coin {c}");
                    }
                }
                for p in 0..3 {
                    check_eq!(post.pairs[p], w.pairs[p], "after {op:?}: pair {p}");
                }
            }
            Want::Open => (),
        }
        if ok && matches!(op, Op::Give { .. } | Op::Claim { .. } | Op::Refund { .. }) {
            s.nontrivial();
        }
        Ok(())
    })
}
/// nobody who gave can be left with nothing: what is owed is there, and can be had
pub fn solvent(s: &mut Src) -> R {
    drive(s, &mut |s, _, post, op, _| {
        let o = owed(post);
        for c in 0..C {
            check!(big(post.bal[BOOT][c]) >= o[c], "after {op:?}: {} of coin {c} are owed, {} are there", o[c], post.bal[BOOT][c]);
        }
        for (p, k) in post.pairs.iter().enumerate() {
            if let Raising(t) = &k.status {
                let sum = |f: &dyn Fn(&(u128, u128)) -> u128| k.given.iter().flatten().map(|g| f(g)).fold(big(0), |a, b| a + big(b));
                check_eq!((sum(&|g| g.0), sum(&|g| g.1)), (big(t.raised.0), big(t.raised.1)), "raised for pair {p}");
            }
            if let (Trading { total, .. }, Some(t)) = (&k.status, &k.over) {
                if !t.failed(post.now) {
                    let due: BigInt = k.given.iter().flatten().map(|g| big(t.share(*g).unwrap_or(0))).sum();
                    check!(due <= big(post.bal[USERS + 1 + p][5 + p]), "shares of pair {p}: {due} are due, {} are there", post.bal[USERS + 1 + p][5 + p]);
                    check!(*total >= post.bal[USERS + 1 + p][5 + p], "pair {p} holds more shares than there are");
                }
            }
            for u in 0..USERS {
                if k.given[u].is_none() {
                    continue;
                }
                let (a, b) = key(p);
                let failed = match (&k.status, &k.over) {
                    (Raising(t), _) => t.failed(post.now),
                    (Trading { .. }, Some(t)) => {
                        if !t.failed(post.now) {
                            let r = dry(|| General::bootstrap_claim(by(u), user(u), a, b, post.now + 1));
                            check!(r.is_ok(), "{u} cannot claim in pair {p}: {r:?}");
                            s.nontrivial();
                        }
                        t.failed(post.now)
                    }
                    _ => fail!("{u} gave to pair {p}, which has no bootstrap"),
                };
                if failed {
                    let r = dry(|| General::bootstrap_refund(by(u), a, b));
                    check!(r.is_ok(), "{u} cannot have back what was given to pair {p}: {r:?}");
                    s.nontrivial();
                }
            }
        }
        Ok(())
    })
}
/// the event of a new bootstrap tells its terms
pub fn announced(s: &mut Src) -> R {
    let (target, cap) = (amounts(s, 1 << 90), amounts(s, 1 << 90));
    let (p, flip, end) = (s.idx(3), s.bool(), s.below(100));
    let update = s.bool();
    open(vec![], || {
        let make = |update| Op::Create { p, flip, target, cap, end, rewards: vec![], limits: vec![], update };
        exec(&make(false))?;
        frame_system::set_quiet(false);
        System::reset_events();
        if update {
            exec(&make(true))?;
        } else {
            PairStatuses::<Test>::remove(key(p));
            exec(&make(false))?;
        }
        let told = System::events().into_iter().filter_map(|e| match e.event {
            RuntimeEvent::General(x) => Some(x),
            _ => None,
        });
        let told: Vec<_> = told.collect();
        check_eq!(told.len(), 1, "events");
        let got = match &told[0] {
            dex_general::Event::BootstrapCreated { asset_0, asset_1, total_supply_0: a, total_supply_1: b, capacity_supply_0: c, capacity_supply_1: d, end, .. } if !update => (*asset_0, *asset_1, (*a, *b), (*c, *d), *end),
            dex_general::Event::BootstrapUpdate { asset_0, asset_1, total_supply_0: a, total_supply_1: b, capacity_supply_0: c, capacity_supply_1: d, end, .. } if update => (*asset_0, *asset_1, (*a, *b), (*c, *d), *end),
            e => fail!("told {e:?}"),
        };
        s.nontrivial();
        check_eq!(got, (key(p).0, key(p).1, target, cap, end), "told of a bootstrap");
        Ok(())
    })
}
/// rewards withdrawn after one of two contributors claimed are paid out of what others gave
fn withdraw_after_claim() -> bool {
    let give = |who, p| Op::Give { who, p, flip: false, x: (100, 100), late: false };
    let make = |p, end| Op::Create { p, flip: false, target: (10, 10), cap: (1000, 1000), end, rewards: vec![3], limits: vec![], update: false };
    let own: Vec<_> = (0..4).flat_map(|i| (0..4).map(move |c| (user(i), coin(c), 1000))).collect();
    open(own, || {
        let calls = [
            make(0, 5),
            give(0, 0),
            give(1, 0),
            Op::Charge { who: 2, p: 0, what: vec![(3, 100)] },
            make(1, 50),
            Op::Charge { who: 3, p: 1, what: vec![(3, 200)] },
            Op::Blocks(10),
            Op::End { who: 0, p: 0, flip: false },
            Op::Claim { who: 0, to: 0, p: 0, flip: false, late: false },
            Op::Withdraw { p: 0, to: 3 },
        ];
        // 50 of the 100 were claimed; the other pair's 200 must stay
        calls.iter().all(|o| exec(o).is_ok()) && bal(coin(3), &acc(BOOT)) < 200
    })
}
pub const FINDINGS: &[Finding] = &[Finding {
    text: "bootstrap_withdraw_reward after some contributors claimed pays out the whole reward again, from the rewards and contributions of other bootstraps (charge 100, half is claimed, withdraw pays 100)",
    probe: withdraw_after_claim,
}];
