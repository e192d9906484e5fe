//! Interest: how debts, reserves and the worth of lend tokens grow with time, and the rate they grow at.
use crate::laws::*;
use crate::rt::*;
use crate::run::*;
use crate::world::*;
use pbt::{check, check_eq, fail, Src, R};

fn f(x: u128) -> f64 {
    x as f64 / ONE as f64
}
fn near_f(got: f64, want: f64, tol: f64, what: &str) -> R {
    check!((got - want).abs() <= tol, "{what} is {got:e} instead of {want:e}");
    Ok(())
}
/// the yearly rate at a utilization
fn rate_at(k: &InterestRateModel, util: f64) -> f64 {
    match k {
        InterestRateModel::Curve(c) => util.powi(9) + f(c.base_rate.into_inner()),
        InterestRateModel::Jump(j) => {
            let (b, at, full) = (f(j.base_rate.into_inner()), f(j.jump_rate.into_inner()), f(j.full_rate.into_inner()));
            let kink = j.jump_utilization.deconstruct() as f64 / 1e6;
            if util <= kink {
                if kink == 0.0 {
                    at
                } else {
                    b + (at - b) * util / kink
                }
            } else {
                at + (full - at) * (util - kink) / (1.0 - kink)
            }
        }
    }
}
fn util(p: &Snap, m: usize) -> Option<u128> {
    let k = &p.mk[m];
    if k.borrows == 0 {
        return Some(0);
    }
    let total = (p.cash(m) + k.borrows).checked_sub(k.reserves)?;
    Some(if total == 0 { 1_000_000 } else { md(k.borrows, 1_000_000, total)?.min(1_000_000) })
}

/// `c` is `p` with the interest of a market counted up to now
fn counted_right(p: &Snap, c: &Snap, m: usize) -> R {
    let (a, b) = (&p.mk[m], &c.mk[m]);
    let mut rest = c.clone();
    rest.mk[m].last = a.last;
    rest.mk[m].borrows = a.borrows;
    rest.mk[m].reserves = a.reserves;
    rest.mk[m].index = a.index;
    if let Some(d) = diff(&rest, p) {
        fail!("counting the interest of market {m} changed {d}");
    }
    check_eq!(b.last, p.now.max(a.last), "time the interest was counted");
    if a.last == 0 || p.now <= a.last {
        check!((a.borrows, a.reserves, a.index) == (b.borrows, b.reserves, b.index), "no time passed, but interest was counted: {b:?} after {a:?}");
        return Ok(());
    }
    let dt = (p.now - a.last) as f64;
    let Some(u) = util(p, m) else { fail!("interest was counted with more reserves than there is") };
    let r = rate_at(&a.market.rate_model, u as f64 / 1e6);
    let g = (rat(b.index) / rat(a.index) - rat(1)).to_f64().unwrap();
    let want = (dt * (r / YEAR as f64).ln_1p()).exp_m1();
    near_f(g, want, want * 1e-8 + dt * (1.0 + want) * 4e-18 + (1.0 + want) * dt / YEAR as f64 * 1e-11 + 1e-16, "growth of the borrow index")?;
    let ratio = md(b.index, ONE, a.index).unwrap();
    check_eq!(b.borrows, md(a.borrows, ratio, ONE).unwrap(), "total of borrows");
    check_eq!(b.reserves, a.reserves + part_floor(a.market.reserve_factor, b.borrows - a.borrows), "reserves");
    Ok(())
}
/// what the pallet recorded when it counted the interest
fn recorded_right(p: &Snap, m: usize) -> R {
    let c = counted(p, &[m]);
    let Some(c) = c else { return Ok(()) };
    if p.now <= p.mk[m].last || p.mk[m].last == 0 {
        return Ok(());
    }
    let (er, u, br, sr) = dry(|| {
        exec(&Op::Accrue { m }).unwrap();
        let a = ASSETS[m];
        (Loans::exchange_rate(a), Loans::utilization_ratio(a), Loans::borrow_rate(a), Loans::supply_rate(a))
    });
    check_eq!(Some(er.into_inner()), c.exchange(m), "recorded exchange rate");
    let want = util(p, m).unwrap();
    check_eq!(u.deconstruct() as u128, want, "recorded utilization");
    let r = rate_at(&p.mk[m].market.rate_model, want as f64 / 1e6);
    near_f(f(br.into_inner()), r, 1e-11, "recorded borrow rate")?;
    let rf = p.mk[m].market.reserve_factor.deconstruct() as f64 / 1e6;
    near_f(f(sr.into_inner()), r * (1.0 - rf) * want as f64 / 1e6, 1e-11, "recorded supply rate")
}
pub fn interest(s: &mut Src) -> R {
    drive(s, PLAIN, &mut |s, st| {
        let closely = s.idx(M);
        for m in 0..M {
            if !st.post.active(m) || (m != closely && !matches!(st.op, Op::Pass { .. })) {
                continue;
            }
            match counted(st.post, &[m]) {
                Some(c) => {
                    counted_right(st.post, &c, m)?;
                    if c.mk[m].borrows > st.post.mk[m].borrows {
                        s.nontrivial();
                    }
                    if m != closely {
                        continue;
                    }
                    recorded_right(st.post, m)?;
                    // counting it again at once changes nothing
                    let again = dry(|| {
                        exec(&Op::Accrue { m }).unwrap();
                        exec(&Op::Accrue { m }).map(|_| Snap::read(&st.post.rates))
                    });
                    check!(again.as_ref().map_or(false, |g| diff(g, &c).is_none()), "interest counted twice for the same time: {again:?}");
                }
                None => {
                    // only if the lend tokens left the range they may be worth
                    let u = util(st.post, m);
                    let grown = u.map(|u| {
                        let dt = st.post.now.saturating_sub(st.post.mk[m].last) as f64;
                        let g = (dt * (rate_at(&st.post.mk[m].market.rate_model, u as f64 / 1e6) / YEAR as f64).ln_1p()).exp();
                        let k = &st.post.mk[m];
                        let rf = k.market.reserve_factor.deconstruct() as f64 / 1e6;
                        (st.post.cash(m) as f64 + k.borrows as f64 * (1.0 + (g - 1.0) * (1.0 - rf)) - k.reserves as f64) / (k.supply.max(1)) as f64
                    });
                    if let Some(x) = grown {
                        let (lo, hi) = (f(st.post.min), f(st.post.max));
                        check!(x < lo * (1.0 + 1e-9) + 2.0 / st.post.mk[m].supply.max(1) as f64 || x > hi * (1.0 - 1e-9) - 2.0 / st.post.mk[m].supply.max(1) as f64,
                            "interest of market {m} cannot be counted though lend tokens are worth {x}");
                    }
                }
            }
            for i in 0..USERS {
                let got = Loans::current_borrow_balance(&acc(i), ASSETS[m]).map(|a| a.amount());
                check_eq!(got, Ok(st.post.debt(i, m)), "debt of {i} in market {m}");
            }
        }
        // a debt only shrinks if it is paid
        for i in 0..USERS {
            for m in 0..M {
                let paid = matches!(st.op, Op::Repay { .. } | Op::RepayAll { .. } | Op::Liquidate { .. });
                check!(paid || st.post.debt(i, m) >= st.pre.debt(i, m), "{:?} lowered the debt of {i}", st.op);
                check!(st.post.mk[m].index >= st.pre.mk[m].index, "borrow index fell");
            }
        }
        Ok(())
    })
}

/// the rate rises with the utilization, from the base to the full rate
pub fn curve(s: &mut Src) -> R {
    let k = match s.below(6) {
        0 => InterestRateModel::new_jump_model(fxu(s.u128(2 * ONE)), fxu(s.u128(2 * ONE)), fxu(s.u128(6 * ONE)), Permill::from_parts(s.uniform(0, 1_000_000) as u32)),
        1 => {
            let at = *s.pick(&[0u32, 1, 999_999, 1_000_000]);
            InterestRateModel::new_jump_model(fxu(ONE / 50), fxu(ONE / 10), fxu(ONE), Permill::from_parts(at))
        }
        2 => InterestRateModel::new_curve_model(fxu(s.u128(ONE / 5))),
        _ => model(s),
    };
    let fits = match &k {
        InterestRateModel::Jump(j) => {
            let (b, a, c) = (j.base_rate.into_inner(), j.jump_rate.into_inner(), j.full_rate.into_inner());
            b <= a && a <= c && b <= ONE / 10 && a <= ONE && c <= 5 * ONE
        }
        InterestRateModel::Curve(c) => c.base_rate.into_inner() <= ONE / 10,
    };
    check_eq!(k.check_model(), fits, "is {k:?} accepted");
    if !fits {
        return Ok(());
    }
    s.nontrivial();
    let mut at: Vec<u32> = s.list(2, 12, |s| s.uniform(0, 1_000_000) as u32);
    at.extend([0, 1_000_000]);
    if let InterestRateModel::Jump(j) = &k {
        let u = j.jump_utilization.deconstruct();
        at.extend([u, u.saturating_sub(1), (u + 1).min(1_000_000)]);
    }
    at.sort();
    let mut last = 0;
    for u in at {
        let r = pbt::guarded(|| k.get_borrow_rate(Permill::from_parts(u)))?;
        let Some(r) = r else { fail!("{k:?} has no rate at {u} ppm") };
        near_f(f(r.into_inner()), rate_at(&k, u as f64 / 1e6), 1e-11, &format!("rate of {k:?} at {u} ppm"))?;
        check!(r.into_inner() + 10_000_000 >= last, "the rate of {k:?} falls at {u} ppm");
        last = r.into_inner();
        // what borrowers pay, less the reserves, is what suppliers get
        let rf = Permill::from_parts(s.uniform(0, 1_000_000) as u32);
        let sr = InterestRateModel::get_supply_rate(r, Permill::from_parts(u), rf);
        near_f(f(sr.into_inner()), f(r.into_inner()) * (u as f64 / 1e6) * (1.0 - rf.deconstruct() as f64 / 1e6), 1e-12, "supply rate")?;
    }
    Ok(())
}
