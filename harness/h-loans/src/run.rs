//! Histories of the lending market.
use crate::rt::*;
use crate::world::*;
use pbt::{Src, R};

pub struct Chain {
    pub min: u128,
    pub max: u128,
    pub markets: Vec<Market<u128>>,
    pub rates: [u128; M],
    pub wealth: Vec<(usize, CurrencyId, u128)>,
    pub unit: u128,
}

pub fn rate(s: &mut Src) -> u128 {
    match s.below(4) {
        0 => ONE,
        1 => s.u128_in(ONE / 100, ONE),
        2 => s.u128_in(ONE, 100 * ONE),
        _ => *s.pick(&[1, 2, 3, 7, 20, 300, 5000]) * ONE,
    }
}
fn permill(s: &mut Src, lo: u64, hi: u64) -> Permill {
    Permill::from_parts(if s.bool() { s.uniform(lo / 10_000, hi / 10_000) as u32 * 10_000 } else { s.uniform(lo, hi) as u32 })
}
pub fn model(s: &mut Src) -> InterestRateModel {
    if s.ratio(1, 4) {
        return InterestRateModel::new_curve_model(fxu(s.u128_in(0, ONE / 10)));
    }
    let base = s.u128_in(0, ONE / 10);
    let jump = s.u128_in(base, ONE);
    let full = s.u128_in(jump, 5 * ONE);
    InterestRateModel::new_jump_model(fxu(base), fxu(jump), fxu(full), permill(s, 0, 1_000_000))
}
pub fn market(s: &mut Src, m: usize, unit: u128) -> Market<u128> {
    let cf = permill(s, 0, 990_000);
    let lt = permill(s, cf.deconstruct() as u64, 999_999).max(cf);
    let (supply_cap, borrow_cap) = if s.ratio(1, 5) { (s.u128_in(1, 3 * unit), s.u128_in(0, unit)) } else { (u128::MAX / 4, u128::MAX / 4) };
    Market {
        collateral_factor: cf,
        liquidation_threshold: lt,
        reserve_factor: permill(s, 10_000, 990_000),
        close_factor: permill(s, 10_000, 1_000_000),
        liquidate_incentive: fxu(s.u128_in(ONE, ONE + ONE / 2)),
        liquidate_incentive_reserved_factor: permill(s, 0, 990_000),
        rate_model: model(s),
        state: MarketState::Pending,
        supply_cap,
        borrow_cap,
        lend_token_id: lend(m),
    }
}
pub fn setup(s: &mut Src) -> Chain {
    let unit = *s.pick(&[1_000u128, 1_000_000, 1_000_000_000, 1_000_000_000_000, 1_000_000_000_000_000]);
    let mut wealth = vec![];
    for i in 0..USERS {
        for c in ASSETS {
            if !s.ratio(1, 6) {
                let x = if s.bool() { s.u128_in(unit, unit * 10) } else { s.u128_in(1, unit * 10) };
                wealth.push((i, c, x));
            }
        }
        wealth.push((i, REWARD, s.u128_in(0, unit * 1000)));
    }
    if s.ratio(4, 5) {
        wealth.push((REWARDS, REWARD, unit * 1_000_000));
    }
    let mut rates = [rate(s), rate(s), rate(s)];
    rates[REF] = ONE;
    let min = if s.ratio(3, 4) { ONE / 50 } else { s.u128_in(ONE / 1000, ONE / 2) };
    Chain { min, max: *s.pick(&[ONE, ONE, 2 * ONE]), markets: (0..M).map(|m| market(s, m, unit)).collect(), rates, wealth, unit }
}
pub fn begin(c: &Chain) -> R {
    for m in 0..M {
        let mut k = c.markets[m].clone();
        k.state = MarketState::Pending;
        Loans::add_market(RuntimeOrigin::root(), ASSETS[m], k).map_err(|e| format!("add_market: {:?}", e.error))?;
        Loans::activate_market(RuntimeOrigin::root(), ASSETS[m]).map_err(|e| format!("activate_market: {:?}", e.error))?;
    }
    feed(&c.rates)?;
    Ok(())
}
pub fn open_chain<X>(c: &Chain, f: impl FnOnce() -> X) -> X {
    open(c.min, c.max, vec![], || {
        for (i, cur, x) in &c.wealth {
            Tokens::set_balance(RuntimeOrigin::root(), acc(*i), *cur, *x, 0).unwrap();
        }
        f()
    })
}

/// an amount around a limit
pub fn near(s: &mut Src, limit: u128, unit: u128) -> u128 {
    match s.below(8) {
        0 | 6 | 7 => limit,
        1 => limit.saturating_add(s.below(3) as u128),
        2 => limit.saturating_sub(s.below(3) as u128),
        3 | 4 if limit > 0 => s.u128_in(0, limit),
        _ => s.u128(unit.saturating_mul(2)),
    }
}
/// weights of the calls, in the order of KINDS
pub type Mix = [u64; 20];
//                        mint    redeem borrow repay  dep with xfer liq res        accr price pass speed claim fund adj
pub const SUPPLY: Mix =  [12,     0, 0,  0,     0, 0, 10,  0,   0,   0,  0, 0, 0,    0,   0,    2,   2,    0,    1,   0];
pub const LEVER: Mix =   [3,      0, 0,  12,    0, 0,  3,  0,   1,   0,  0, 0, 0,    0,   1,    2,   0,    0,    0,   0];
pub const PLAIN: Mix =   [12,     6, 3,  10,    5, 2,  9,  3,   3,   6,  1, 2, 2,    2,   5,    8,   0,    0,    0,   1];
pub const SHORT: Mix =   [10,     1, 1,  14,    2, 1,  9,  1,   1,  16,  1, 1, 4,    1,  12,    8,   0,    0,    0,   1];
pub const REWARDED: Mix = [10,    4, 3,   9,    5, 3,  6,  2,   5,   5,  0, 0, 1,    2,   5,   10,   5,    9,    2,   0];

pub fn gen(s: &mut Src, c: &Chain, p: &Snap, mix: &Mix) -> Op {
    let m = s.idx(M);
    let mut who = s.idx(USERS);
    let mut kind = s.weighted(mix);
    let short: Vec<usize> = (0..USERS).filter(|i| p.threshold(*i).map_or(false, |t| p.debts(*i) > t)).collect();
    if kind == 9 && short.is_empty() && s.ratio(3, 4) {
        kind = if (0..USERS).any(|i| p.debts(i) > 0) { 14 } else { 3 };
    }
    // someone for whom it can mean something
    let can = |i: usize, m: usize| -> bool {
        let a = &p.acc[i];
        match kind {
            0 => a.free[m] > 0,
            1 | 2 => a.lend[m] + a.locked[m] > 0,
            3 => a.deposit.iter().any(|d| *d > 0),
            4 | 5 | 9 => p.debt(i, m) > 0,
            6 | 8 => a.lend[m] > 0,
            7 => a.deposit[m] > 0,
            _ => true,
        }
    };
    let mut m = m;
    if !s.ratio(1, 8) {
        let some: Vec<(usize, usize)> = (0..USERS).flat_map(|i| (0..M).map(move |m| (i, m))).filter(|(i, m)| can(*i, *m)).collect();
        if !some.is_empty() {
            (who, m) = *s.pick(&some);
        }
    }
    let a = &p.acc[who];
    let rate_ok = p.exchange(m);
    match kind {
        0 => {
            let room = p.mk[m].market.supply_cap.saturating_sub(p.cash(m));
            let limit = if s.bool() { a.free[m] } else { a.free[m].min(room) };
            Op::Mint { who, m, x: near(s, limit, c.unit) }
        }
        1 => {
            let own = rate_ok.and_then(|r| md(a.lend[m] + a.locked[m], r, ONE)).unwrap_or(0);
            let spare = match (p.backing(who), p.exchange(m)) {
                (Some(b), Some(_)) if a.deposit[m] > 0 => {
                    let f = (p.mk[m].market.collateral_factor.deconstruct() as u128).max(1);
                    md(p.worth(m, b.saturating_sub(p.debts(who))), 1_000_000, f).unwrap_or(0)
                }
                _ => own,
            };
            let limit = *s.pick(&[own, own.min(p.spare_cash(m).unwrap_or(0)), spare]);
            Op::Redeem { who, m, x: near(s, limit, c.unit) }
        }
        2 => Op::RedeemAll { who, m },
        3 => {
            let liquid: Vec<usize> = (0..M).filter(|m| p.spare_cash(*m).unwrap_or(0) > 0).collect();
            let m = if liquid.is_empty() || s.ratio(1, 10) { s.idx(M) } else { *s.pick(&liquid) };
            let room = p.backing(who).unwrap_or(0).saturating_sub(p.debts(who));
            let most = p.worth(m, room);
            let limit = match s.below(5) {
                0 => p.spare_cash(m).unwrap_or(0),
                1 => p.mk[m].market.borrow_cap.saturating_sub(p.mk[m].borrows).min(c.unit * 100),
                2 => most,
                _ => most.min(p.spare_cash(m).unwrap_or(0)),
            };
            Op::Borrow { who, m, x: near(s, limit, c.unit) }
        }
        4 => {
            let d = p.debt(who, m);
            Op::Repay { who, m, x: near(s, d, c.unit) }
        }
        5 => Op::RepayAll { who, m },
        6 => Op::Deposit { who, m },
        7 => Op::Withdraw { who, m },
        8 => {
            let to = s.idx(USERS);
            Op::Transfer { from: who, to, m, v: near(s, a.lend[m], c.unit) }
        }
        9 => {
            let of = who;
            let (of, m) = if !short.is_empty() && !s.ratio(1, 8) {
                let of = *s.pick(&short);
                let owed: Vec<usize> = (0..M).filter(|m| p.debt(of, *m) > 0).collect();
                (of, if owed.is_empty() { m } else { *s.pick(&owed) })
            } else {
                (of, m)
            };
            let colls: Vec<usize> = (0..M).filter(|k| p.acc[of].deposit[*k] > 0).collect();
            let coll = if colls.is_empty() || s.ratio(1, 10) { s.idx(M) } else { *s.pick(&colls) };
            let d = p.debt(of, m);
            let close = part_ceil(p.mk[m].market.close_factor, d);
            // what the collateral pays for
            let dep = p.from_lend(coll, p.acc[of].deposit[coll]).unwrap_or(0);
            let inc = p.mk[m].market.liquidate_incentive.into_inner().max(1);
            let most = p.worth(m, md(p.value(coll, dep), ONE, inc).unwrap_or(0));
            let limit = match s.below(4) {
                0 => close,
                1 => most,
                2 => d,
                _ => close.min(most),
            };
            let rich: Vec<usize> = (0..USERS).filter(|i| *i != of && p.acc[*i].free[m] > 0).collect();
            let liq = if rich.is_empty() || s.ratio(1, 10) { s.idx(USERS) } else { *s.pick(&rich) };
            let limit = if s.bool() { limit.min(p.acc[liq].free[m]) } else { limit };
            Op::Liquidate { who: liq, of, m, x: near(s, limit, c.unit), coll }
        }
        10 => Op::AddReserves { who, m, x: near(s, a.free[m] / 10, c.unit / 10) },
        11 => Op::TakeReserves { to: who, m, x: near(s, p.mk[m].reserves, c.unit) },
        12 => {
            let some: Vec<usize> = (0..M).filter(|k| p.acc[INCENTIVE].lend[*k] > 0).collect();
            let m = if some.is_empty() { m } else { *s.pick(&some) };
            let own = p.from_lend(m, p.acc[INCENTIVE].lend[m]).unwrap_or(0);
            Op::TakeIncentive { to: who, m, x: near(s, own, c.unit) }
        }
        13 => Op::Accrue { m },
        14 => {
            let mut rates = p.rates;
            let tight: Vec<usize> = (0..USERS).filter(|i| p.debts(*i) > 0).collect();
            if !tight.is_empty() && s.ratio(2, 3) {
                // prices that make someone short, or nearly
                let i = *s.pick(&tight);
                let (d, t) = (p.debts(i), p.threshold(i).unwrap_or(0));
                let k = md(1000, t, d).unwrap_or(1000).clamp(1000, 100_000);
                let k = s.u128_in(k * 9 / 10, k * 2);
                for m in (0..M).filter(|m| *m != REF) {
                    let held = p.from_lend(m, p.acc[i].deposit[m]).unwrap_or(0);
                    rates[m] = if p.debt(i, m) > held { rates[m] / k * 1000 } else { md(rates[m], k, 1000).unwrap() };
                    rates[m] = rates[m].clamp(ONE / 1000, 10_000 * ONE);
                }
                return Op::Price { rates };
            }
            for m in 0..M {
                if m == REF || s.bool() {
                    continue;
                }
                rates[m] = match s.below(4) {
                    0 => rate(s),
                    _ => md(rates[m], s.u128_in(500, 2000), 1000).unwrap().clamp(ONE / 1000, 10_000 * ONE),
                };
            }
            Op::Price { rates }
        }
        15 => {
            let secs = match s.below(5) {
                0 => 0,
                1 => s.uniform(1, 60),
                2 => s.uniform(60, 86_400),
                3 => s.uniform(86_400, YEAR / 12),
                _ => s.uniform(1, YEAR / 4),
            };
            Op::Pass { secs, blocks: s.below(100) }
        }
        16 => {
            let supply = s.bool().then(|| s.u128(c.unit / 10));
            let borrow = s.bool().then(|| s.u128(c.unit / 10));
            Op::Speed { m, supply, borrow }
        }
        17 => {
            let m = s.bool().then_some(m);
            Op::Claim { who, m }
        }
        18 => Op::Fund { who, x: s.u128(c.unit * 1000) },
        _ => {
            let mut k = market(s, m, c.unit);
            k.state = if s.ratio(1, 6) { *s.pick(&[MarketState::Pending, MarketState::Supervision]) } else { MarketState::Active };
            Op::Adjust { m, market: k }
        }
    }
}
pub fn rates_after(op: &Op, p: &Snap) -> [u128; M] {
    match op {
        Op::Price { rates } => *rates,
        _ => p.rates,
    }
}
