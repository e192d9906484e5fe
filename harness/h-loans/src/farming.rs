//! Incentive rewards: a block's reward is shared by lend tokens and by debts.
use crate::laws::*;
use crate::rt::*;
use crate::run::*;
use crate::world::*;
use pbt::{check, Src, R};

struct Book {
    /// at least and at most earned so far
    lo: Vec<Rat>,
    hi: Vec<Rat>,
    paid: Vec<u128>,
    emitted: Rat,
    n: u128,
}
fn blocks_pass(b: &mut Book, p: &Snap, blocks: u64) {
    for m in 0..M {
        let k = &p.mk[m];
        if k.supply_speed > 0 && k.supply > 0 {
            let r = rat(k.supply_speed) * rat(blocks);
            b.emitted += &r;
            for i in 0..ACCS {
                let share = p.acc[i].lend[m] + p.acc[i].locked[m];
                if share > 0 {
                    let part = &r * ratio(share, k.supply);
                    b.lo[i] += &part;
                    b.hi[i] += part;
                }
            }
        }
        if k.borrow_speed > 0 && k.borrows > 0 {
            let r = rat(k.borrow_speed) * rat(blocks);
            b.emitted += &r;
            let base = rat(k.borrows) * rat(ONE) / rat(k.index);
            for i in 0..USERS {
                let (d, idx) = p.acc[i].debt[m];
                if d > 0 && idx > 0 {
                    let mine = rat(d) * rat(ONE) / rat(idx);
                    let part = &r * &mine / &base;
                    // totals and parts are whole numbers, rounded at every counting of interest
                    let eps = rat(3 + b.n) / &base;
                    let up = &part * (rat(1) + rat(2) / &mine) * (rat(1) + &eps);
                    let up = if base > rat(2 * (3 + b.n)) { &up * (rat(1) + &eps) } else { up + &r * rat(1 + b.n) * (rat(1) + rat(1) / &mine) * (rat(2) + &mine) };
                    b.hi[i] += up;
                    if eps < rat(1) && mine > rat(2) {
                        b.lo[i] += part * (rat(1) - eps) * (rat(1) - rat(2) / mine);
                    }
                }
            }
        }
    }
}
fn slack(b: &Book) -> Rat {
    rat(8 * (b.n + 1))
}
/// the reward index counts in 10^-12 per unit
fn coarse(b: &Book, p: &Snap, i: usize) -> Rat {
    let most: u128 = (0..M).map(|m| p.mk[m].supply.max(p.mk[m].borrows)).max().unwrap();
    let _ = i;
    rat(most) * ratio(1, 1_000_000_000_000u64) * rat(6 * (b.n + 1))
}
pub fn farming(s: &mut Src) -> R {
    earn(s, false)
}
pub fn liquidated(s: &mut Src) -> R {
    earn(s, true)
}
/// rewards are set, time passes, the price makes someone short, who is liquidated, time passes, all claim
fn squeeze(n: usize) -> Mix {
    match n {
        0..=5 => SUPPLY,
        6 | 10 => only(&[16]),
        7..=9 | 11 => LEVER,
        _ => match n % 8 {
            4 | 0 => only(&[15]),
            5 => only(&[14]),
            6 | 7 => only(&[9]),
            1 | 2 => only(&[17]),
            _ => REWARDED,
        },
    }
}
fn only(k: &[usize]) -> Mix {
    let mut m = [0; 20];
    k.iter().for_each(|k| m[*k] = 1);
    m
}
fn usual(n: usize) -> Mix {
    match n {
        0..=4 => SUPPLY,
        5 | 6 => only(&[16]),
        7..=9 => LEVER,
        _ => match n % 6 {
            0 | 1 => only(&[15]),
            5 => only(&[17]),
            _ => REWARDED,
        },
    }
}
fn earn(s: &mut Src, short: bool) -> R {
    let mut hit = [false; USERS];
    let mut b = Book { lo: vec![rat(0); ACCS], hi: vec![rat(0); ACCS], paid: vec![0; ACCS], emitted: rat(0), n: 0 };
    let mut most = rat(0);
    drive_by(s, if short { 24 } else { 16 }, if short { &squeeze } else { &usual }, &mut |s, st| {
        b.n += 1;
        let (p, q) = (st.pre, st.post);
        let c = coarse(&b, q, 0).max(coarse(&b, p, 0));
        if c > most {
            most = c;
        }
        if let Op::Pass { blocks, .. } = *st.op {
            blocks_pass(&mut b, p, blocks);
        }
        for i in 0..USERS {
            let (x, y) = (p.acc[i].reward, q.acc[i].reward);
            match *st.op {
                Op::Claim { who, .. } if who == i => b.paid[i] += y.checked_sub(x).ok_or("a claim cost something")?,
                Op::Fund { who, x: v } if who == i && st.ok => check!(x == y + v, "funding took {x} - {y}"),
                _ => check!(x == y, "{:?} changed the reward balance of {i}", st.op),
            }
        }
        if let (true, Op::Liquidate { who, of, .. }) = (st.ok, st.op) {
            hit[*who] = true;
            hit[*of] = true;
        }
        if let Op::Claim { who, m } = *st.op {
            let left = p.acc[REWARDS].reward;
            let most_due = &b.hi[who] - rat(b.paid[who]) + slack(&b);
            if !st.ok {
                check!(rat(left) < most_due, "{who} cannot claim, at most {} of {left}", show(&most_due));
                return Ok(());
            }
            check!(rat(b.paid[who]) <= &b.hi[who] + rat(1), "{who} got {} of at most {}", b.paid[who], show(&b.hi[who]));
            if m.is_none() {
                let low = &b.lo[who] - slack(&b) - &most;
                check!(rat(b.paid[who]) >= low, "{who} got {} of {}", b.paid[who], show(&b.lo[who]));
                if b.paid[who] > 0 && (!short || hit[who]) {
                    s.nontrivial();
                }
            }
            if p.acc[REWARDS].reward < q.acc[REWARDS].reward + (q.acc[who].reward - p.acc[who].reward) {
                check!(false, "rewards were not paid from their account");
            }
        }
        Ok(())
    })
}
