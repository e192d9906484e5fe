//! What holds for the lenders and borrowers after every call.
use crate::laws::*;
use crate::rt::*;
use crate::run::*;
use crate::world::*;
use pbt::{check, check_eq, fail, Src, R};

/// whose money a call may move
fn parties(op: &Op) -> Vec<usize> {
    match *op {
        Op::Mint { who, .. } | Op::Redeem { who, .. } | Op::RedeemAll { who, .. } | Op::Borrow { who, .. } | Op::Repay { who, .. } | Op::RepayAll { who, .. } | Op::AddReserves { who, .. } => vec![who, POOL],
        Op::Deposit { who, .. } | Op::Withdraw { who, .. } => vec![who],
        Op::Transfer { from, to, .. } => vec![from, to],
        Op::Liquidate { who, of, .. } => vec![who, of, POOL, INCENTIVE],
        Op::TakeReserves { to, .. } => vec![to, POOL],
        Op::TakeIncentive { to, .. } => vec![to, POOL, INCENTIVE],
        _ => vec![],
    }
}
/// everything the market owns, per market
fn total(p: &Snap, m: usize) -> Rat {
    rat(p.cash(m)) + rat(p.mk[m].borrows) - rat(p.mk[m].reserves)
}
pub fn safety(s: &mut Src) -> R {
    drive(s, SHORT, &mut |s, st| {
        let (a, b) = (st.pre, st.post);
        let who = parties(st.op);
        for i in 0..ACCS {
            if who.contains(&i) {
                continue;
            }
            let (x, y) = (&a.acc[i], &b.acc[i]);
            check!(
                (x.free, x.lend, x.locked, x.deposit, x.debt) == (y.free, y.lend, y.locked, y.deposit, y.debt),
                "{:?} touched account {i}: {y:?} instead of {x:?}",
                st.op
            );
        }
        for m in 0..M {
            let held: u128 = b.acc.iter().map(|x| x.lend[m] + x.locked[m]).sum();
            check_eq!(held, b.mk[m].supply, "lend tokens of market {m} held, and issued");
            let own = |p: &Snap| p.acc.iter().map(|x| x.free[m] + x.held[m]).sum::<u128>();
            check_eq!(own(a), own(b), "money in market {m} after {:?}", st.op);
            let debts: u128 = (0..USERS).map(|i| b.debt(i, m)).sum();
            check!(debts >= b.mk[m].borrows, "all owe {debts} in market {m}, of a recorded total of {}", b.mk[m].borrows);
            // the lenders' claim on every lend token never shrinks, but for the rounding of one redemption
            if a.mk[m].supply > 0 && b.mk[m].supply > 0 {
                let per = total(a, m) / rat(a.mk[m].supply);
                let loss = &per * rat(b.mk[m].supply) - total(b, m);
                let redeemed = b.mk[m].supply < a.mk[m].supply;
                let slack = if redeemed { per.clone() } else { rat(0) } + ulp() * rat(4 * (a.mk[m].supply + b.mk[m].supply)) * rat(ONE / a.min + 1) + ratio(1, 1_000_000);
                check!(loss <= slack, "lenders of market {m} lose {} by {:?}", show(&loss), st.op);
            }
        }
        for i in 0..USERS {
            for m in 0..M {
                let x = &b.acc[i];
                check_eq!(x.deposit[m], x.locked[m], "collateral of {i} in market {m}, and what is locked");
                check!(x.deposit[m] == 0 || x.lend[m] == 0, "{i} has collateral in market {m} and yet free lend tokens");
            }
        }
        if !st.ok {
            return Ok(());
        }
        // nobody takes on debt or takes collateral away and is left short
        let acting = match *st.op {
            Op::Borrow { who, .. } => Some(who),
            Op::Redeem { who, m, .. } | Op::RedeemAll { who, m } | Op::Withdraw { who, m } if a.acc[who].deposit[m] > 0 => Some(who),
            _ => None,
        };
        if let Some(i) = acting {
            let Some(c) = b.backing(i) else { return Ok(()) };
            let d = b.debts(i);
            let tol: u128 = 2 + (0..M).filter(|m| *m == REF || b.rates[*m] < ONE).map(|m| if m == REF { 3 } else { 3 * ONE / b.rates[m] + 3 }).sum::<u128>();
            check!(c + tol >= d, "{i} owes {d} against {c} after {:?}", st.op);
            // with nothing behind it, next to nothing may be owed
            s.nontrivial();
        }
        if let Op::Borrow { m, .. } = *st.op {
            check!(b.mk[m].borrows <= b.mk[m].market.borrow_cap, "more borrowed than the cap");
            check!(b.cash(m) >= b.mk[m].reserves, "reserves were lent out");
        }
        if let Op::Mint { m, .. } = *st.op {
            check!(b.cash(m) <= b.mk[m].market.supply_cap, "more supplied than the cap");
        }
        if let Op::Liquidate { who, of, m, x, coll } = *st.op {
            s.nontrivial();
            let Some(pre) = counted(a, &[]) else { fail!("unreadable") };
            let _ = (pre, who);
            let taken = a.acc[of].deposit[coll] - b.acc[of].deposit[coll];
            let got = (b.acc[who].lend[coll] + b.acc[who].locked[coll]) - (a.acc[who].lend[coll] + a.acc[who].locked[coll]);
            let kept = b.acc[INCENTIVE].lend[coll] - a.acc[INCENTIVE].lend[coll];
            check_eq!(taken, got + kept, "lend tokens seized, and given out");
            // worth at most the repaid debt and the incentive
            let k = &a.mk[m].market;
            let inc = fx(k.liquidate_incentive);
            let most = rat(b.value(m, x)) * &inc;
            let worth = rat(taken) * total(b, coll) / rat(b.mk[coll].supply);
            let worth = if coll == REF { worth } else { worth / fx(fxu(b.rates[coll])) };
            check!(worth <= most.clone() + rat(1), "seized {} for {}", show(&worth), show(&most));
            let part = rat(taken) / inc * ratio(k.liquidate_incentive_reserved_factor.deconstruct(), 1_000_000);
            check!(rat(kept) <= part && rat(kept + 2) > part, "the reserve keeps {kept} of {}", show(&part));
        }
        Ok(())
    })
}

/// what the pallet says an account can still borrow is what it can still borrow
pub fn queries(s: &mut Src) -> R {
    drive(s, PLAIN, &mut |s, st| {
        let p = st.post;
        let i = s.idx(USERS);
        let all: Vec<usize> = (0..M).filter(|m| p.active(*m)).collect();
        let Some(c) = counted(p, &all) else { return Ok(()) };
        let (liq, thr) = dry(|| {
            for m in &all {
                exec(&Op::Accrue { m: *m }).unwrap();
            }
            (Loans::get_account_liquidity(&acc(i)), Loans::get_account_liquidation_threshold_liquidity(&acc(i)))
        });
        let (Ok(liq), Ok(thr)) = (liq, thr) else { fail!("liquidity of {i} is unknown") };
        let d = c.debts(i);
        for (l, b, w) in [(liq, c.backing(i), "liquidity"), (thr, c.threshold(i), "liquidity at the liquidation threshold")] {
            let b = b.unwrap();
            check_eq!((l.liquidity().amount(), l.shortfall().amount()), (b.saturating_sub(d), d.saturating_sub(b)), "{w} of {i}");
        }
        if d > 0 {
            s.nontrivial();
        }
        Ok(())
    })
}
