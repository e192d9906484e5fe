//! What the lending market looks like, the calls, and what each must do.
use crate::rt::*;
use currency::Amount;
use traits::LoansApi;

#[derive(Clone, Debug, PartialEq)]
pub struct Mk {
    pub borrows: u128,
    pub reserves: u128,
    pub index: u128,
    pub last: u64,
    pub supply: u128,
    pub market: Market<u128>,
    pub supply_speed: u128,
    pub borrow_speed: u128,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Acc {
    pub free: [u128; M],
    pub held: [u128; M],
    pub lend: [u128; M],
    pub locked: [u128; M],
    pub deposit: [u128; M],
    /// principal and index of the debt
    pub debt: [(u128, u128); M],
    pub reward: u128,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub mk: Vec<Mk>,
    pub acc: Vec<Acc>,
    pub rates: [u128; M],
    pub now: u64,
    pub min: u128,
    pub max: u128,
}

pub fn md(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    (BigInt::from(a) * BigInt::from(b) / BigInt::from(c)).to_u128()
}
pub fn md_up(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    let n = BigInt::from(a) * BigInt::from(b);
    ((n + BigInt::from(c) - BigInt::from(1)) / BigInt::from(c)).to_u128()
}
fn parts(p: Permill) -> u128 {
    p.deconstruct() as u128
}
pub fn part_floor(p: Permill, x: u128) -> u128 {
    md(x, parts(p), 1_000_000).unwrap()
}
pub fn part_ceil(p: Permill, x: u128) -> u128 {
    md_up(x, parts(p), 1_000_000).unwrap()
}

impl Snap {
    pub fn read(rates: &[u128; M]) -> Snap {
        let mk = (0..M)
            .map(|m| {
                let a = ASSETS[m];
                Mk {
                    borrows: loans::TotalBorrows::<Test>::get(a),
                    reserves: loans::TotalReserves::<Test>::get(a),
                    index: Loans::borrow_index(a).into_inner(),
                    last: Loans::last_accrued_interest_time(a),
                    supply: Tokens::total_issuance(lend(m)),
                    market: loans::Markets::<Test>::get(a).unwrap(),
                    supply_speed: Loans::reward_supply_speed(a),
                    borrow_speed: Loans::reward_borrow_speed(a),
                }
            })
            .collect();
        let accs = (0..ACCS)
            .map(|i| {
                let who = acc(i);
                let mut x = Acc::default();
                for m in 0..M {
                    let u = Tokens::accounts(&who, ASSETS[m]);
                    let l = Tokens::accounts(&who, lend(m));
                    (x.free[m], x.held[m]) = (u.free, u.reserved);
                    (x.lend[m], x.locked[m]) = (l.free, l.reserved);
                    x.deposit[m] = loans::AccountDeposits::<Test>::get(lend(m), &who);
                    let b = Loans::account_borrows(ASSETS[m], &who);
                    x.debt[m] = (b.principal, b.borrow_index.into_inner());
                }
                x.reward = Tokens::accounts(&who, REWARD).free;
                x
            })
            .collect();
        Snap { mk, acc: accs, rates: *rates, now: now(), min: Loans::min_exchange_rate().into_inner(), max: Loans::max_exchange_rate().into_inner() }
    }
    pub fn active(&self, m: usize) -> bool {
        self.mk[m].market.state == MarketState::Active
    }
    pub fn cash(&self, m: usize) -> u128 {
        self.acc[POOL].free[m]
    }
    /// underlying per lend token
    pub fn exchange(&self, m: usize) -> Option<u128> {
        let k = &self.mk[m];
        if k.supply == 0 {
            return Some(self.min);
        }
        let total = (self.cash(m) + k.borrows).checked_sub(k.reserves)?;
        let r = md(total, ONE, k.supply)?;
        (r >= self.min && r < self.max).then_some(r)
    }
    pub fn to_lend(&self, m: usize, x: u128) -> Option<u128> {
        md(x, ONE, self.exchange(m)?)
    }
    pub fn from_lend(&self, m: usize, v: u128) -> Option<u128> {
        md(v, self.exchange(m)?, ONE)
    }
    pub fn value(&self, m: usize, x: u128) -> u128 {
        if m == REF {
            x
        } else {
            md(x, ONE, self.rates[m]).unwrap()
        }
    }
    pub fn worth(&self, m: usize, v: u128) -> u128 {
        if m == REF {
            v
        } else {
            md(v, self.rates[m], ONE).unwrap()
        }
    }
    pub fn debt(&self, i: usize, m: usize) -> u128 {
        let (p, idx) = self.acc[i].debt[m];
        if p == 0 || idx == 0 {
            return 0;
        }
        md_up(p, md(self.mk[m].index, ONE, idx).unwrap(), ONE).unwrap()
    }
    pub fn debts(&self, i: usize) -> u128 {
        (0..M).filter(|m| self.active(*m)).map(|m| self.value(m, self.debt(i, m))).sum()
    }
    /// what lend tokens count for at a factor
    pub fn counts(&self, m: usize, v: u128, f: Permill) -> Option<u128> {
        Some(self.value(m, part_ceil(f, self.from_lend(m, v)?)))
    }
    pub fn collateral(&self, i: usize, factor: impl Fn(&Market<u128>) -> Permill) -> Option<u128> {
        let mut sum = 0;
        for m in (0..M).filter(|m| self.active(*m)) {
            if self.acc[i].deposit[m] > 0 {
                sum += self.counts(m, self.acc[i].deposit[m], factor(&self.mk[m].market))?;
            }
        }
        Some(sum)
    }
    pub fn backing(&self, i: usize) -> Option<u128> {
        self.collateral(i, |k| k.collateral_factor)
    }
    pub fn threshold(&self, i: usize) -> Option<u128> {
        self.collateral(i, |k| k.liquidation_threshold)
    }
    fn pay(&mut self, m: usize, from: usize, to: usize, x: u128) -> Option<()> {
        self.acc[from].free[m] = self.acc[from].free[m].checked_sub(x)?;
        self.acc[to].free[m] += x;
        Some(())
    }
    /// lend tokens come in: they join the collateral of whoever has any
    fn receive(&mut self, m: usize, to: usize, v: u128) -> Option<()> {
        let a = &mut self.acc[to];
        if a.deposit[m] > 0 {
            if !self.mk[m].market.state.eq(&MarketState::Active) {
                return None;
            }
            a.locked[m] += v;
            a.deposit[m] += v;
        } else {
            a.lend[m] += v;
        }
        Some(())
    }
    fn set_debt(&mut self, i: usize, m: usize, x: u128) {
        self.acc[i].debt[m] = (x, self.mk[m].index);
    }
    fn release(&mut self, i: usize, m: usize, v: u128) -> Option<()> {
        let a = &mut self.acc[i];
        a.deposit[m] = a.deposit[m].checked_sub(v)?;
        a.locked[m] = a.locked[m].checked_sub(v)?;
        a.lend[m] += v;
        Some(())
    }
    pub fn spare_cash(&self, m: usize) -> Option<u128> {
        self.cash(m).checked_sub(self.mk[m].reserves)
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Mint { who: usize, m: usize, x: u128 },
    Redeem { who: usize, m: usize, x: u128 },
    RedeemAll { who: usize, m: usize },
    Borrow { who: usize, m: usize, x: u128 },
    Repay { who: usize, m: usize, x: u128 },
    RepayAll { who: usize, m: usize },
    Deposit { who: usize, m: usize },
    Withdraw { who: usize, m: usize },
    Transfer { from: usize, to: usize, m: usize, v: u128 },
    Liquidate { who: usize, of: usize, m: usize, x: u128, coll: usize },
    AddReserves { who: usize, m: usize, x: u128 },
    TakeReserves { to: usize, m: usize, x: u128 },
    TakeIncentive { to: usize, m: usize, x: u128 },
    Accrue { m: usize },
    Price { rates: [u128; M] },
    Pass { secs: u64, blocks: u64 },
    Speed { m: usize, supply: Option<u128>, borrow: Option<u128> },
    Claim { who: usize, m: Option<usize> },
    Fund { who: usize, x: u128 },
    Adjust { m: usize, market: Market<u128> },
}
use Op::*;
pub const KINDS: [&str; 20] = [
    "mint", "redeem", "redeem all", "borrow", "repay", "repay all", "deposit collateral", "withdraw collateral", "transfer lend tokens", "liquidate",
    "add reserves", "take reserves", "take incentive reserve", "accrue", "price", "time passes", "reward speed", "claim", "fund rewards", "adjust market",
];
impl Op {
    pub fn kind(&self) -> usize {
        match self {
            Mint { .. } => 0,
            Redeem { .. } => 1,
            RedeemAll { .. } => 2,
            Borrow { .. } => 3,
            Repay { .. } => 4,
            RepayAll { .. } => 5,
            Deposit { .. } => 6,
            Withdraw { .. } => 7,
            Transfer { .. } => 8,
            Liquidate { .. } => 9,
            AddReserves { .. } => 10,
            TakeReserves { .. } => 11,
            TakeIncentive { .. } => 12,
            Accrue { .. } => 13,
            Price { .. } => 14,
            Pass { .. } => 15,
            Speed { .. } => 16,
            Claim { .. } => 17,
            Fund { .. } => 18,
            Adjust { .. } => 19,
        }
    }
    pub fn name(&self) -> &'static str {
        KINDS[self.kind()]
    }
    /// does it leave the money where it is
    pub fn is_world(&self) -> bool {
        self.kind() >= 13
    }
}

pub fn exec(op: &Op) -> Result<(), String> {
    let e = |r: sp_runtime::DispatchError| format!("{r:?}");
    let p = |r: frame_support::dispatch::DispatchResultWithPostInfo| r.map(drop).map_err(|x| format!("{:?}", x.error));
    let root = RuntimeOrigin::root();
    tx(|| -> Result<(), sp_runtime::DispatchError> {
        let r = match op.clone() {
            Mint { who, m, x } => p(Loans::mint(by(who), ASSETS[m], x)),
            Redeem { who, m, x } => p(Loans::redeem(by(who), ASSETS[m], x)),
            RedeemAll { who, m } => p(Loans::redeem_all(by(who), ASSETS[m])),
            Borrow { who, m, x } => p(Loans::borrow(by(who), ASSETS[m], x)),
            Repay { who, m, x } => p(Loans::repay_borrow(by(who), ASSETS[m], x)),
            RepayAll { who, m } => p(Loans::repay_borrow_all(by(who), ASSETS[m])),
            Deposit { who, m } => p(Loans::deposit_all_collateral(by(who), ASSETS[m])),
            Withdraw { who, m } => p(Loans::withdraw_all_collateral(by(who), ASSETS[m])),
            Transfer { from, to, m, v } => <Tokens as orml_traits::MultiCurrency<_>>::transfer(lend(m), &acc(from), &acc(to), v).map_err(e),
            Liquidate { who, of, m, x, coll } => p(Loans::liquidate_borrow(by(who), acc(of), ASSETS[m], x, ASSETS[coll])),
            AddReserves { who, m, x } => p(Loans::add_reserves(root, acc(who), ASSETS[m], x)),
            TakeReserves { to, m, x } => p(Loans::reduce_reserves(root, acc(to), ASSETS[m], x)),
            TakeIncentive { to, m, x } => p(Loans::reduce_incentive_reserves(root, acc(to), ASSETS[m], x)),
            Accrue { m } => Loans::recompute_underlying_amount(&Amount::new(0, lend(m))).map(drop).map_err(e),
            Price { rates } => feed(&rates),
            Pass { secs, blocks } => Ok(pass(secs, blocks)),
            Speed { m, supply, borrow } => p(Loans::update_market_reward_speed(root, ASSETS[m], supply, borrow)),
            Claim { who, m: None } => p(Loans::claim_reward(by(who))),
            Claim { who, m: Some(m) } => p(Loans::claim_reward_for_market(by(who), ASSETS[m])),
            Fund { who, x } => p(Loans::add_reward(by(who), x)),
            Adjust { m, market } => p(Loans::force_update_market(root, ASSETS[m], market)),
        };
        LAST.with(|l| *l.borrow_mut() = r.clone());
        r.map_err(|_| sp_runtime::DispatchError::Other("refused"))
    })
    .map_err(|_| LAST.with(|l| l.borrow().clone().unwrap_err()))
}
thread_local!(static LAST: std::cell::RefCell<Result<(), String>> = std::cell::RefCell::new(Ok(())));

/// the state with interest of these markets counted up to now, or none if that fails
pub fn counted(pre: &Snap, markets: &[usize]) -> Option<Snap> {
    dry(|| {
        for m in markets {
            Loans::recompute_underlying_amount(&Amount::new(0, lend(*m))).ok()?;
        }
        Some(Snap::read(&pre.rates))
    })
}

/// the markets whose interest a call counts: its own, and those its account has collateral in if that matters
fn touched(pre: &Snap, op: &Op) -> Vec<usize> {
    let with = |i: usize, m: usize| -> Vec<usize> { (0..M).filter(|k| *k == m || (pre.acc[i].deposit[*k] > 0 && pre.active(*k))).collect() };
    match op {
        Mint { m, .. } | Repay { m, .. } | RepayAll { m, .. } | AddReserves { m, .. } | TakeReserves { m, .. } | TakeIncentive { m, .. } | Accrue { m } => vec![*m],
        Redeem { who, m, .. } | RedeemAll { who, m } if pre.acc[*who].deposit[*m] == 0 => vec![*m],
        Redeem { who, m, .. } | RedeemAll { who, m } | Borrow { who, m, .. } | Withdraw { who, m } => with(*who, *m),
        Liquidate { of, m, coll, .. } => {
            let mut v = with(*of, *m);
            if !v.contains(coll) {
                v.push(*coll)
            }
            v
        }
        _ => vec![],
    }
}
pub fn market_of(op: &Op) -> Option<usize> {
    match op {
        Mint { m, .. } | Redeem { m, .. } | RedeemAll { m, .. } | Borrow { m, .. } | Repay { m, .. } | RepayAll { m, .. } | Deposit { m, .. } | Withdraw { m, .. }
        | Transfer { m, .. } | Liquidate { m, .. } | AddReserves { m, .. } | TakeReserves { m, .. } | TakeIncentive { m, .. } | Accrue { m } => Some(*m),
        _ => None,
    }
}

pub enum Want {
    /// it must succeed and lead to this
    Done(Box<Snap>),
    /// it must be refused
    Refused(&'static str),
    /// not decided here
    Open,
}

/// what a call that moves money must do
pub fn want(pre: &Snap, op: &Op) -> Want {
    if op.is_world() {
        return Want::Open;
    }
    let ms = touched(pre, op);
    if let Some(bad) = ms.iter().find(|m| !pre.active(**m)) {
        // an inactive market takes part in nothing, except that interest was counted for a liquidation
        let _ = bad;
        return Want::Refused("inactive market");
    }
    let Some(a) = counted(pre, &ms) else { return Want::Open };
    match apply(a, op) {
        Ok(s) => Want::Done(Box::new(s)),
        Err(w) => Want::Refused(w),
    }
}

macro_rules! need {
    ($c:expr, $w:expr) => {
        if !$c {
            return Err($w);
        }
    };
}
const RATE: &str = "exchange rate out of range";
const CASH: &str = "not enough cash";
const FUNDS: &str = "not enough funds";
const DEBT: &str = "not enough collateral";

fn redeem(s: &mut Snap, who: usize, m: usize, x: u128, v: u128) -> Result<(), &'static str> {
    if s.acc[who].deposit[m] > 0 {
        let (c, d) = (s.backing(who).ok_or(RATE)?, s.debts(who));
        let own = s.counts(m, v, s.mk[m].market.collateral_factor).ok_or(RATE)?;
        need!(c >= d + own, DEBT);
        s.release(who, m, v).ok_or("not so much collateral")?;
    }
    need!(v > 0, "nothing to redeem");
    need!(s.spare_cash(m).ok_or(CASH)? >= s.from_lend(m, v).ok_or(RATE)?, CASH);
    s.acc[who].lend[m] = s.acc[who].lend[m].checked_sub(v).ok_or(FUNDS)?;
    s.mk[m].supply -= v;
    s.pay(m, POOL, who, x).ok_or(CASH)
}

/// the effect of a call on a state with its interest counted
pub fn apply(mut s: Snap, op: &Op) -> Result<Snap, &'static str> {
    match *op {
        Mint { who, m, x } => {
            need!(x > 0, "zero");
            need!(s.active(m), "inactive market");
            need!(s.cash(m) + s.acc[POOL].held[m] + x <= s.mk[m].market.supply_cap, "supply cap");
            let v = s.to_lend(m, x).ok_or(RATE)?;
            need!(v > 0, "no lend tokens for it");
            s.pay(m, who, POOL, x).ok_or(FUNDS)?;
            s.mk[m].supply += v;
            s.receive(m, who, v).ok_or("inactive market")?;
        }
        Redeem { who, m, x } => {
            need!(x > 0, "zero");
            let v = s.to_lend(m, x).ok_or(RATE)?;
            redeem(&mut s, who, m, x, v)?;
        }
        RedeemAll { who, m } => {
            let v = s.acc[who].lend[m] + s.acc[who].locked[m];
            let x = s.from_lend(m, v).ok_or(RATE)?;
            redeem(&mut s, who, m, x, v)?;
        }
        Borrow { who, m, x } => {
            need!(x > 0, "zero");
            need!(s.mk[m].borrows + x <= s.mk[m].market.borrow_cap, "borrow cap");
            need!(s.spare_cash(m).ok_or(CASH)? >= x, CASH);
            let (c, d) = (s.backing(who).ok_or(RATE)?, s.debts(who));
            need!(c >= d + s.value(m, x), DEBT);
            let owed = s.debt(who, m) + x;
            s.set_debt(who, m, owed);
            s.mk[m].borrows += x;
            s.pay(m, POOL, who, x).ok_or(CASH)?;
        }
        Repay { who, m, x } => {
            need!(x > 0, "zero");
            let d = s.debt(who, m).checked_sub(x).ok_or("more than owed")?;
            s.pay(m, who, POOL, x).ok_or(FUNDS)?;
            s.set_debt(who, m, d);
            s.mk[m].borrows = s.mk[m].borrows.saturating_sub(x);
        }
        RepayAll { who, m } => {
            let x = s.debt(who, m);
            need!(x > 0, "zero");
            s.pay(m, who, POOL, x).ok_or(FUNDS)?;
            s.set_debt(who, m, 0);
            s.mk[m].borrows = s.mk[m].borrows.saturating_sub(x);
        }
        Deposit { who, m } => {
            need!(s.acc[who].lend[m] > 0, "zero");
            need!(s.acc[who].locked[m] == 0, "some are locked");
            need!(s.active(m), "inactive market");
            let a = &mut s.acc[who];
            (a.deposit[m], a.locked[m]) = (a.deposit[m] + a.lend[m], a.lend[m]);
            a.lend[m] = 0;
        }
        Withdraw { who, m } => {
            let v = s.acc[who].deposit[m];
            need!(v > 0, "zero");
            let (c, d) = (s.backing(who).ok_or(RATE)?, s.debts(who));
            need!(c >= d + s.counts(m, v, s.mk[m].market.collateral_factor).ok_or(RATE)?, DEBT);
            s.release(who, m, v).ok_or(FUNDS)?;
        }
        Transfer { from, to, m, v } => {
            if from != to && v > 0 {
                s.acc[from].lend[m] = s.acc[from].lend[m].checked_sub(v).ok_or(FUNDS)?;
                s.receive(m, to, v).ok_or("inactive market")?;
            }
        }
        Liquidate { who, of, m, x, coll } => {
            need!(x > 0, "zero");
            need!(who != of, "own debt");
            need!(s.debts(of) > s.threshold(of).ok_or(RATE)?, "not short");
            let close = s.mk[m].market.close_factor;
            need!(part_ceil(close, s.value(m, s.debt(of, m))) >= s.value(m, x), "above the close factor");
            let dep = s.acc[of].deposit[coll];
            need!(dep > 0, "no such collateral");
            let incentive = s.mk[m].market.liquidate_incentive.into_inner();
            let take = md(s.value(m, x), incentive, ONE).unwrap();
            need!(s.value(coll, s.from_lend(coll, dep).ok_or(RATE)?) >= take, "not enough of this collateral");
            let owed = s.debt(of, m).checked_sub(x).ok_or("more than owed")?;
            s.pay(m, who, POOL, x).ok_or(FUNDS)?;
            s.set_debt(of, m, owed);
            s.mk[m].borrows = s.mk[m].borrows.saturating_sub(x);
            let v = s.to_lend(coll, s.worth(coll, take)).ok_or(RATE)?;
            let kept = part_floor(s.mk[m].market.liquidate_incentive_reserved_factor, md(v, ONE, incentive).unwrap());
            s.release(of, coll, v).ok_or("not so much collateral")?;
            s.acc[of].lend[coll] = s.acc[of].lend[coll].checked_sub(v).ok_or(FUNDS)?;
            s.receive(coll, who, v - kept).ok_or("inactive market")?;
            s.receive(coll, INCENTIVE, kept).ok_or("inactive market")?;
        }
        AddReserves { who, m, x } => {
            need!(x > 0, "zero");
            s.pay(m, who, POOL, x).ok_or(FUNDS)?;
            s.mk[m].reserves += x;
        }
        TakeReserves { to, m, x } => {
            need!(x > 0, "zero");
            s.mk[m].reserves = s.mk[m].reserves.checked_sub(x).ok_or("more than the reserves")?;
            s.pay(m, POOL, to, x).ok_or(CASH)?;
        }
        TakeIncentive { to, m, x } => {
            need!(x > 0, "zero");
            let v = s.to_lend(m, x).ok_or(RATE)?;
            redeem(&mut s, INCENTIVE, m, x, v)?;
            s.pay(m, INCENTIVE, to, x).ok_or(FUNDS)?;
        }
        _ => (),
    }
    Ok(s)
}

/// where two states differ
pub fn diff(a: &Snap, b: &Snap) -> Option<String> {
    for m in 0..M {
        if a.mk[m] != b.mk[m] {
            return Some(format!("market {m}: {:?} instead of {:?}", a.mk[m], b.mk[m]));
        }
    }
    for i in 0..ACCS {
        let (mut x, mut y) = (a.acc[i].clone(), b.acc[i].clone());
        // a debt of nothing has no index
        for d in x.debt.iter_mut().chain(y.debt.iter_mut()) {
            if d.0 == 0 {
                d.1 = 0
            }
        }
        x.reward = 0;
        y.reward = 0;
        if x != y {
            return Some(format!("account {i}: {x:?} instead of {y:?}"));
        }
    }
    None
}
