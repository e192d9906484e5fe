//! Prices, amounts and fees.
use crate::model::{muldiv, ONE};
use crate::rt::*;
use crate::run::plain;
use crate::world::COLS;
use currency::Amount;
use frame_support::{dispatch::DispatchError, traits::Hooks, BoundedVec};
use pbt::{check, check_eq, fail, Src, R};
use sp_core::U256;
use std::collections::{BTreeMap, BTreeSet};

type A = Amount<Test>;
const REPORTERS: [u64; 6] = [90, 91, 92, 93, 94, 95];
const ALL: [CurrencyId; 4] = [COLS[0], COLS[1], COLS[2], WRAPPED];

fn price(s: &mut Src) -> u128 {
    match s.below(6) {
        0 => s.u128(3),
        1 => ONE,
        2 => s.u128_in(ONE / 1000, 1000 * ONE),
        3 => s.u128_in(1, ONE),
        4 => s.u128_in(ONE, 1 << 100),
        _ => *s.pick(&[ONE / 2, ONE * 3, ONE + 1, ONE - 1, 7 * ONE / 3]),
    }
}

/// the price of each key is the median of what is fresh
pub fn prices(s: &mut Src) -> R {
    let mut c = plain();
    let delay = s.int(0, 120) as u32;
    c.max_delay = delay;
    let keys = [OracleKey::ExchangeRate(COLS[0]), OracleKey::ExchangeRate(COLS[1]), OracleKey::FeeEstimation];
    open(&c, || {
        let mut now = 1000u64;
        Timestamp::set_timestamp(now);
        let mut allowed: BTreeSet<u64> = [ORACLE, ORACLE + 1].into();
        for w in &REPORTERS[2..s.idx(5) + 2] {
            Oracle::insert_authorized_oracle(RuntimeOrigin::root(), *w, Default::default()).unwrap();
            allowed.insert(*w);
        }
        // (key, account) -> (time, value)
        let mut raw: BTreeMap<(usize, u64), (u64, u128)> = BTreeMap::new();
        let mut shown: BTreeMap<usize, Option<(u128, u128)>> = BTreeMap::new();
        s.steps(4, 50, |s| {
            match s.weighted(&[6, 6, 1, 1]) {
                0 => {
                    let who = if s.ratio(7, 8) && !allowed.is_empty() { *s.pick(&allowed.iter().copied().collect::<Vec<_>>()) } else { *s.pick(&REPORTERS) };
                    let mut v = vec![];
                    for _ in 0..s.int(1, 4) {
                        v.push((s.idx(3), price(s)));
                    }
                    let list = v.iter().map(|(k, p)| (keys[*k].clone(), FixedU128::from_inner(*p))).collect();
                    let r = tx(|| Oracle::feed_values(RuntimeOrigin::signed(who), list).map_err(|e| e.error));
                    s.note(|| format!("at {now} {who} reports {v:?} -> {}", r.is_ok()));
                    check_eq!(r.is_ok(), allowed.contains(&who), "a report of {who} taken");
                    if r.is_ok() {
                        for (k, p) in v {
                            raw.insert((k, who), (now, p));
                        }
                    }
                }
                1 => {
                    now += match s.below(4) {
                        0 => 0,
                        1 => s.int(1, 10),
                        2 => s.int(0, 40),
                        _ => {
                            // just when a value expires
                            let t: Vec<u64> = raw.values().map(|v| v.0 + delay as u64).filter(|t| *t + 1 >= now).collect();
                            if t.is_empty() {
                                1
                            } else {
                                *s.pick(&t) + s.below(2) - now.min(*t.iter().min().unwrap_or(&now))
                            }
                        }
                    };
                    Timestamp::set_timestamp(now);
                    s.note(|| format!("a block at {now}"));
                    <Oracle as Hooks<u64>>::on_initialize(0);
                    for k in 0..keys.len() {
                        let mut fresh: Vec<u128> = raw.iter().filter(|(i, v)| i.0 == k && v.0 + delay as u64 >= now).map(|(_, v)| v.1).collect();
                        fresh.sort();
                        if fresh.len() >= 2 {
                            s.nontrivial();
                        }
                        let n = fresh.len();
                        s.label(["no price", "one report", "two reports", "three reports", "more reports"][n.min(4)]);
                        let m = match n {
                            0 => None,
                            n if n % 2 == 1 => Some((fresh[n / 2], fresh[n / 2])),
                            n => {
                                let m = (fresh[n / 2 - 1] + fresh[n / 2]) / 2;
                                Some((m, m + 1))
                            }
                        };
                        shown.insert(k, m);
                    }
                }
                2 => {
                    let who = *s.pick(&REPORTERS);
                    let root = s.ratio(3, 4);
                    let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(*s.pick(&REPORTERS)) };
                    let r = Oracle::insert_authorized_oracle(o, who, BoundedVec::truncate_from(b"x".to_vec()));
                    check_eq!(r.is_ok(), root, "an oracle added");
                    if root {
                        allowed.insert(who);
                    }
                }
                _ => {
                    let who = *s.pick(&REPORTERS);
                    let root = s.ratio(3, 4);
                    let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(*s.pick(&REPORTERS)) };
                    let r = Oracle::remove_authorized_oracle(o, who);
                    check_eq!(r.is_ok(), root, "an oracle removed");
                    if root {
                        allowed.remove(&who);
                    }
                }
            }
            // (a report counts from the next block on)
            for (k, key) in keys.iter().enumerate() {
                let got = Oracle::get_price(key.clone()).ok().map(|p| p.into_inner());
                match (shown.get(&k).copied().flatten(), got) {
                    (None, None) => (),
                    (Some((lo, hi)), Some(g)) if g >= lo && g <= hi => (),
                    (want, got) => fail!("at {now} the price of {key:?} is {got:?}, the median of the fresh reports {:?}", want.map(|w| w.0)),
                }
            }
            Ok(())
        })
    })
}

fn floor_or<E: std::fmt::Debug>(got: Result<u128, E>, want: Option<U256>, what: &str) -> R {
    let want = want.filter(|w| *w <= U256::from(u128::MAX)).map(|w| w.as_u128());
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (g, w) => fail!("{what}: {g:?}, not {w:?}"),
    }
}
fn mul(a: u128, b: u128, c: u128) -> Option<U256> {
    (c > 0).then(|| U256::from(a) * U256::from(b) / U256::from(c))
}
fn small(u: Option<U256>) -> Option<u128> {
    u.filter(|w| *w <= U256::from(u128::MAX)).map(|w| w.as_u128())
}
fn amount(s: &mut Src) -> u128 {
    match s.below(4) {
        0 => s.u128(u128::MAX),
        1 => s.u128(1 << 100),
        _ => s.u128(10_000_000_000),
    }
}

pub fn conversions(s: &mut Src) -> R {
    let c = plain();
    open(&c, || {
        let mut rates: Vec<Option<u128>> = vec![];
        let mut v = vec![];
        for k in COLS {
            let r = (!s.ratio(1, 8)).then(|| price(s));
            if let Some(r) = r {
                v.push((OracleKey::ExchangeRate(k), FixedU128::from_inner(r)));
            }
            rates.push(r);
        }
        feed(v)?;
        s.note(|| format!("rates {rates:?}"));
        s.steps(4, 12, |s| {
            let (i, j) = (s.idx(4), s.idx(4));
            let a = amount(s);
            let x = A::new(a, ALL[i]);
            let got = pbt::guarded(|| x.convert_to(ALL[j]))?;
            let to_wrapped = |a: u128, r: Option<u128>| match r {
                None => None,
                Some(_) if a == 0 => Some(U256::zero()),
                Some(r) => mul(a, ONE, r),
            };
            let from_wrapped = |a: u128, r: Option<u128>| r.and_then(|r| mul(a, r, ONE));
            let want = match (i, j) {
                (i, j) if i == j => Some(U256::from(a)),
                (3, j) => from_wrapped(a, rates[j]),
                (i, 3) => to_wrapped(a, rates[i]),
                (i, j) => small(to_wrapped(a, rates[i])).and_then(|b| from_wrapped(b, rates[j])),
            };
            if i != j && want.is_some() {
                s.nontrivial();
            }
            if let Ok(g) = &got {
                check_eq!(g.currency(), ALL[j], "the currency after a conversion");
                // there and back never gains
                if let Ok(back) = g.convert_to(ALL[i]) {
                    check!(back.amount() <= a, "{a} of {:?} came back as {} from {:?}", ALL[i], back.amount(), ALL[j]);
                }
            }
            floor_or(got.map(|g| g.amount()), want, &format!("{a} of {:?} in {:?}", ALL[i], ALL[j]))
        })
    })
}

pub fn amounts(s: &mut Src) -> R {
    let (i, j) = (s.idx(4), if s.ratio(3, 4) { None } else { Some(s.idx(4)) });
    let j = j.unwrap_or(i);
    let (a, b) = (amount(s), if s.bool() { amount(s) } else { 0 });
    let b = if s.ratio(1, 6) { a } else { b };
    let (x, y) = (A::new(a, ALL[i]), A::new(b, ALL[j]));
    let same = i == j;
    if same && a > 0 && b > 0 {
        s.nontrivial();
    }
    s.note(|| format!("{a} of {:?}, {b} of {:?}", ALL[i], ALL[j]));
    let cmp = |what: &str, got: Result<bool, DispatchError>, want: bool| -> R {
        match got {
            Ok(g) => check!(same && g == want, "{what}: {g}"),
            Err(_) => check!(!same, "{what} failed"),
        }
        Ok(())
    };
    cmp("lt", x.lt(&y), a < b)?;
    cmp("le", x.le(&y), a <= b)?;
    cmp("gt", x.gt(&y), a > b)?;
    cmp("ge", x.ge(&y), a >= b)?;
    cmp("eq", x.eq(&y), a == b)?;
    cmp("ne", x.ne(&y), a != b)?;
    let arith = |what: &str, got: Result<A, DispatchError>, want: Option<u128>| -> R {
        let want = want.filter(|_| same);
        match (&got, want) {
            (Ok(g), Some(w)) if g.amount() == w && g.currency() == ALL[i] => Ok(()),
            (Err(_), None) => Ok(()),
            _ => fail!("{what}: {got:?}, not {want:?}"),
        }
    };
    arith("checked_add", x.checked_add(&y), a.checked_add(b))?;
    let mut z = x.clone();
    let r = z.checked_accrue(&y).map(|z| z.clone());
    check!(r.is_ok() || z == x, "a failed checked_accrue changed the amount");
    arith("checked_accrue", r, a.checked_add(b))?;
    arith("checked_sub", x.checked_sub(&y), a.checked_sub(b))?;
    arith("saturating_sub", x.saturating_sub(&y), Some(a.saturating_sub(b)))?;
    arith("min", x.min(&y), Some(a.min(b)))?;
    arith("max", x.max(&y), Some(a.max(b)))?;
    match x.ratio(&y) {
        Ok(r) => check!(same && b > 0 && Some(U256::from(r.into_inner())) == mul(a, ONE, b), "the ratio is {r:?}"),
        Err(_) => check!(!same || small(mul(a, ONE, b)).is_none(), "no ratio"),
    }
    // scaling
    let f = price(s);
    let fx = FixedU128::from_inner(f);
    floor_or(x.checked_mul(&fx).map(|g| g.amount()), mul(a, f, ONE), "checked_mul")?;
    floor_or(pbt::guarded(|| x.checked_div(&fx))?.map(|g| g.amount()), mul(a, ONE, f), "checked_div")?;
    use currency::Rounding;
    let p = U256::from(a) * U256::from(f);
    let one = U256::from(ONE);
    let up: U256 = (p + one - U256::from(1u8)) / one;
    let half: U256 = (p * U256::from(2u8) + one) / (one * U256::from(2u8));
    floor_or(x.checked_rounded_mul(&fx, Rounding::Up).map(|g| g.amount()), Some(up), "rounded up")?;
    floor_or(x.checked_rounded_mul(&fx, Rounding::NearestPrefUp).map(|g| g.amount()), Some(half), "rounded to nearest")?;
    // as fixed points
    let (u, g) = (x.to_unsigned_fixed_point(), x.to_signed_fixed_point());
    match &u {
        Ok(v) => {
            check!(a <= u128::MAX / ONE && v.into_inner() == a * ONE, "{a} as {v:?}");
            check_eq!(A::from_unsigned_fixed_point(*v, ALL[i]).map(|x| x.amount()), Ok(a), "back from unsigned");
        }
        Err(_) => check!(a > u128::MAX / ONE, "{a} is no fixed point"),
    }
    match &g {
        Ok(v) => {
            check!(a <= i128::MAX as u128 / ONE && v.into_inner() == (a * ONE) as i128, "{a} as {v:?}");
            check_eq!(A::from_signed_fixed_point(*v, ALL[i]).map(|x| x.amount()), Ok(a), "back from signed");
        }
        Err(_) => check!(a > i128::MAX as u128 / ONE, "{a} is no signed fixed point"),
    }
    let t = s.u128(u128::MAX);
    check_eq!(A::from_unsigned_fixed_point(FixedU128::from_inner(t), ALL[i]).map(|x| x.amount()), Ok(t / ONE), "truncated");
    let t = if s.bool() { t as i128 } else { -(s.u128(10 * ONE) as i128) };
    let want = t / ONE as i128;
    let got = A::from_signed_fixed_point(FixedI128::from_inner(t), ALL[i]).map(|x| x.amount());
    check!(if want >= 0 { got == Ok(want as u128) } else { got.is_err() }, "{t} truncated to {got:?}");
    check_eq!(x.set_currency(ALL[j]), A::new(a, ALL[j]), "another currency");
    check!(A::zero(ALL[i]).is_zero() && x.is_zero() == (a == 0), "zero");
    Ok(())
}

/// what an account does with its balance
pub fn moves(s: &mut Src) -> R {
    let mut c = plain();
    const WHO: [u64; 4] = [1, 2, 11, 12];
    c.balances = vec![];
    let mut bal: BTreeMap<(u64, usize), (u128, u128)> = BTreeMap::new();
    for w in WHO {
        for k in 0..4 {
            let b = if s.ratio(1, 4) { 0 } else { s.u128(1000) };
            bal.insert((w, k), (b, 0));
            if b > 0 {
                c.balances.push((w, ALL[k], b));
            }
        }
    }
    open(&c, || {
        s.steps(3, 30, |s| {
            let k = s.idx(4);
            let (p, q) = (*s.pick(&WHO), *s.pick(&WHO));
            let (f, r) = bal[&(p, k)];
            let t = *s.pick(&[f, r, f + r]);
            let n = match s.below(4) {
                0 => t,
                1 => t.saturating_add(s.below(3) as u128).saturating_sub(1),
                2 => s.u128(2000),
                _ => s.u128(t),
            };
            let x = A::new(n, ALL[k]);
            let free_in_all = bal.iter().filter(|b| b.0 .1 == k).fold(0u128, |a, b| a + b.1 .0 + b.1 .1);
            let (what, got, want): (_, Result<(), DispatchError>, _) = match s.below(5) {
                0 => ("transfer", tx(|| x.transfer(&p, &q)), p == q || f >= n),
                1 => ("lock_on", tx(|| x.lock_on(&p)), f >= n),
                2 => ("unlock_on", tx(|| x.unlock_on(&p)), r >= n),
                3 => ("burn_from", tx(|| x.burn_from(&p)), r >= n),
                _ => ("mint_to", tx(|| x.mint_to(&p)), true),
            };
            s.note(|| format!("{what} {n} of {:?} by {p} (to {q}) -> {got:?}", ALL[k]));
            check_eq!(got.is_ok(), want, "{what} of {n} by {p}, who has {f} and {r} reserved");
            let mut total = free_in_all;
            if want {
                if n > 0 {
                    s.nontrivial();
                }
                match what {
                    // (to oneself, nothing happens)
                    "transfer" if p == q => (),
                    "transfer" => {
                        bal.get_mut(&(p, k)).unwrap().0 -= n;
                        bal.get_mut(&(q, k)).unwrap().0 += n;
                    }
                    "lock_on" => *bal.get_mut(&(p, k)).unwrap() = (f - n, r + n),
                    "unlock_on" => *bal.get_mut(&(p, k)).unwrap() = (f + n, r - n),
                    "burn_from" => {
                        bal.get_mut(&(p, k)).unwrap().1 -= n;
                        total -= n;
                    }
                    _ => {
                        bal.get_mut(&(p, k)).unwrap().0 += n;
                        total += n;
                    }
                }
            }
            for ((w, k), (f, r)) in &bal {
                let got = (currency::get_free_balance::<Test>(ALL[*k], w).amount(), currency::get_reserved_balance::<Test>(ALL[*k], w).amount());
                check_eq!(got, (*f, *r), "{:?} of {w} after {what}", ALL[*k]);
            }
            check_eq!(Tokens::total_issuance(ALL[k]), total, "{:?} in existence after {what}", ALL[k]);
            Ok(())
        })
    })
}

pub fn fees(s: &mut Src) -> R {
    let c = plain();
    open(&c, || {
        let mut set = [c.issue_fee, c.issue_griefing, c.redeem_fee, c.premium_fee, c.punishment_fee, c.replace_griefing].map(|f| f.into_inner());
        s.steps(3, 12, |s| {
            // set one
            let i = s.idx(6);
            let f = match s.below(5) {
                0 => ONE + s.below(3) as u128 - 1,
                1 => s.u128(u128::MAX),
                _ => s.u128(ONE),
            };
            let root = s.ratio(5, 6);
            let o = || if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(1) };
            let v = FixedU128::from_inner(f);
            let r = match i {
                0 => Fee::set_issue_fee(o(), v),
                1 => Fee::set_issue_griefing_collateral(o(), v),
                2 => Fee::set_redeem_fee(o(), v),
                3 => Fee::set_premium_redeem_fee(o(), v),
                4 => Fee::set_punishment_fee(o(), v),
                _ => Fee::set_replace_griefing_collateral(o(), v),
            };
            s.note(|| format!("fee {i} set to {f} (root: {root}) -> {}", r.is_ok()));
            check_eq!(r.is_ok(), root && f <= ONE, "fee {i} set to {f}, by root: {root}");
            if r.is_ok() {
                set[i] = f;
                s.nontrivial();
            }
            check_eq!([Fee::issue_fee(), Fee::issue_griefing_collateral(), Fee::redeem_fee(), Fee::premium_redeem_fee(), Fee::punishment_fee(), Fee::replace_griefing_collateral()].map(|f| f.into_inner()), set, "the fees");
            // all asked
            let a = amount(s);
            let x = A::new(a, *s.pick(&ALL));
            let got = [
                Fee::get_issue_fee(&x),
                Fee::get_issue_griefing_collateral(&x),
                Fee::get_redeem_fee(&x),
                Fee::get_premium_redeem_fee(&x),
                Fee::get_punishment_fee(&x),
                Fee::get_replace_griefing_collateral(&x),
            ];
            for (i, g) in got.into_iter().enumerate() {
                let g: A = g.map_err(|e: DispatchError| format!("fee {i} of {a}: {e:?}"))?;
                let want = if i == 3 {
                    muldiv(a, set[i], ONE)
                } else {
                    ((U256::from(a) * U256::from(set[i]) * U256::from(2u8) + U256::from(ONE)) / U256::from(2 * ONE)).low_u128()
                };
                check_eq!(g.amount(), want, "fee {i} of {a} at {}", set[i]);
                check_eq!(g.currency(), x.currency(), "the currency of fee {i}");
                check!(g.amount() <= a, "fee {i} is more than the amount");
            }
            Ok(())
        })
    })
}
