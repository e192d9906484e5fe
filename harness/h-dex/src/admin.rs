//! Stable pools: their parameters, what is told of them, and how they come to be.
use crate::curve::*;
use crate::rt::*;
use crate::stable::*;
use pbt::{check, check_eq, Src, R};

fn told(pre: &Snap, p: usize, s: &mut Src) -> R {
    let id = p as u32;
    let Some(q) = pre.pools.get(p) else {
        check_eq!((Stable::get_a(id), Stable::get_a_precise_by_id(id), Stable::get_virtual_price(id)), (0, 0, 0), "told of no pool");
        check_eq!((Stable::get_currencies(id), Stable::get_currency(id, 0), Stable::get_lp_currency(id)), (vec![], None, None), "told of no pool");
        return Ok(());
    };
    let amp = pre.amp(p);
    check_eq!((Stable::get_a(id), Stable::get_a_precise_by_id(id)), (amp / 100, amp), "the A of pool {p} at {}: {:?} at {:?}", pre.now, q.a, q.t);
    check!((q.a.0.min(q.a.1)..=q.a.0.max(q.a.1)).contains(&amp), "the A of pool {p} is {amp}, not within {:?}", q.a);
    let ids: Vec<CurrencyId> = q.cur.iter().map(|c| cur(*c)).collect();
    check_eq!(Stable::get_currencies(id), ids, "the currencies of pool {p}");
    for i in 0..ids.len() + 2 {
        check_eq!(Stable::get_currency(id, i as u32), ids.get(i).copied(), "currency {i} of pool {p}");
    }
    for c in 0..N + P {
        let at = q.cur.iter().position(|x| *x == c).map(|i| i as u32);
        check_eq!(Stable::get_currency_index(id, cur(c)), at, "the place of {:?} in pool {p}", cur(c));
    }
    check_eq!(Stable::get_lp_currency(id), Some(StableLpToken(id)), "the share of pool {p}");
    check_eq!(Stable::lp_currencies(StableLpToken(id)), Some(id), "the pool of the share of {p}");
    check_eq!(Stable::get_currency_precision_multipliers(id), q.mult.clone(), "the multipliers of pool {p}");
    check_eq!(Stable::get_currency_balances(id), q.bal.clone(), "the balances of pool {p}");
    check_eq!(Stable::get_number_of_currencies(id), ids.len() as u32, "the number of currencies of pool {p}");
    let over: Vec<u128> = q.cur.iter().zip(&q.bal).map(|(c, b)| pre.bal[USERS + p][*c] - b).collect();
    check_eq!(Stable::get_admin_balances(id), over, "what is put aside in pool {p}");
    if let Some(iv) = pre.price(p) {
        let t = pbt::guarded(|| Stable::get_virtual_price(id))?;
        // none if the steps to it do not come to rest
        if t != 0 {
            s.label("price");
            check!(iv.has(t), "a share of pool {p} is told to be worth {t}, not {iv:?}");
        }
    }
    Ok(())
}
pub fn params(s: &mut Src) -> R {
    drive(s, PARAM, &mut |s, st| {
        if matches!(st.op, Op::Receiver(..) | Op::Fee(..) | Op::Admin(..) | Op::Ramp(..) | Op::Stop(..) | Op::Withdraw(..) | Op::Wait(..)) {
            judge(st)?;
            if st.ok && !matches!(st.op, Op::Withdraw(..) | Op::Wait(..)) {
                s.nontrivial();
            }
        } else if st.ok {
            // no other call changes what only the root may
            for (a, b) in st.pre.pools.iter().zip(&st.post.pools) {
                check_eq!((a.fee, a.admin, a.a, a.t, a.to, &a.cur, &a.mult, &a.rest), (b.fee, b.admin, b.a, b.t, b.to, &b.cur, &b.mult, &b.rest), "{:?} changed a parameter", st.op);
            }
        }
        let p = s.idx(st.post.pools.len() + 1);
        told(st.post, p, s)
    })
}

#[derive(Clone, Debug)]
struct New {
    ids: Vec<usize>,
    dec: Vec<u32>,
    a: u128,
    fee: u128,
    admin: u128,
    to: usize,
    sym: usize,
    meta: bool,
    root: bool,
}
fn new(s: &mut Src, pools: usize) -> New {
    let odd = |s: &mut Src| s.ratio(1, 12);
    let meta = s.bool();
    let n = if odd(s) { *s.pick(&[10, 11, 1, 12]) } else { s.int(2, 5) as usize };
    let mut ids: Vec<usize> = (0..n).map(|_| if s.ratio(1, 6) { s.idx(N + P) } else { s.idx(N) }).collect();
    if meta && !odd(s) && pools > 0 {
        ids[n - 1] = N + s.idx(pools);
    }
    let m = if odd(s) { n + 1 - 2 * s.idx(2) } else { n };
    let dec = (0..m).map(|_| if odd(s) { 18 + s.below(3) as u32 } else { s.below(19) as u32 }).collect();
    New {
        ids,
        dec,
        a: if odd(s) { *s.pick(&[0, 999_999, 1_000_000, u128::MAX]) } else { s.u128_in(1, 20_000) },
        fee: if odd(s) { 100_000_000 + s.u128(1) } else { s.u128(100_000_000) },
        admin: if odd(s) { DEN + s.u128(1) } else { s.u128(DEN) },
        to: s.idx(USERS),
        sym: if odd(s) { 50 + s.idx(2) } else { s.idx(12) },
        meta,
        root: !odd(s),
    }
}
pub fn creation(s: &mut Src) -> R {
    open(vec![], || {
        for u in 0..USERS {
            for c in 0..N {
                give(cur(c), &user(u), 10u128.pow(27));
            }
        }
        Timestamp::set_timestamp(Timestamp::now() + s.below(100_000) * 1000);
        s.steps(2, 10, |s| {
            let pre = Snap::read();
            let n = pre.pools.len();
            if n > 0 && s.bool() {
                // something goes in
                let p = s.idx(n);
                let q = &pre.pools[p];
                let x: Vec<u128> = q.cur.iter().zip(&q.mult).map(|(c, m)| (10u128.pow(18) / m * (1 + s.u128(20))).max(1).min(pre.bal[0][*c] / 3)).collect();
                s.note(|| format!("add {x:?} to {p}"));
                let _ = pbt::guarded(|| tx(|| Stable::add_liquidity(by(0), p as u32, x, 0, user(0), 1000)))?;
                return Ok(());
            }
            if n == P {
                return Ok(());
            }
            let w = new(s, n);
            s.note(|| format!("{w:?}"));
            let ids: Vec<CurrencyId> = w.ids.iter().map(|c| cur(*c)).collect();
            let o = if w.root { root() } else { by(1) };
            let before = storage_root();
            let run = || {
                let (d, sym) = (w.dec.clone(), vec![b'x'; w.sym]);
                if w.meta {
                    Stable::create_meta_pool(o.clone(), ids.clone(), d, w.a, w.fee, w.admin, user(w.to), sym)
                } else {
                    Stable::create_base_pool(o.clone(), ids.clone(), d, w.a, w.fee, w.admin, user(w.to), sym)
                }
            };
            let base = w.ids.last().filter(|c| **c >= N && **c - N < n).map(|c| *c - N);
            let fine = w.root
                && w.dec.len() == w.ids.len()
                && w.dec.iter().all(|d| *d <= 18)
                && (1..1_000_000).contains(&w.a)
                && w.fee <= 100_000_000
                && w.admin <= DEN
                && w.sym <= 50
                && w.ids.len() <= 10
                && (!w.meta || base.map_or(false, |b| pre.supply(b) > 0));
            let r = pbt::guarded(|| tx(run)).map_err(|e| format!("{w:?} panics: {e}"))?;
            if r.is_err() {
                check_eq!(storage_root(), before, "{w:?} failed and left something");
                // the price of the base pool's shares may not be found
                check!(!fine || w.meta, "{w:?} was refused: {r:?}");
                if let (true, Some(b)) = (fine, base) {
                    check!(Stable::get_virtual_price(b as u32) == 0, "{w:?} was refused: {r:?}");
                }
                return Ok(());
            }
            check!(fine, "{w:?} was accepted");
            s.nontrivial();
            s.label(if w.meta { "meta" } else { "base" });
            let post = Snap::read();
            let mut want = pre.clone();
            let meta = match (w.meta, base) {
                (true, Some(b)) => {
                    let vp = Stable::get_virtual_price(b as u32);
                    if let Some(iv) = pre.price(b) {
                        check!(iv.has(vp), "a share of pool {b} is worth {iv:?}, not {vp}");
                    }
                    Some(Meta { base: b, vp, last: pre.now, under: pre.pools[b].cur.clone() })
                }
                _ => None,
            };
            want.pools.push(Pool {
                meta,
                cur: w.ids.clone(),
                mult: w.dec.iter().map(|d| 10u128.pow(18 - d)).collect(),
                bal: vec![0; w.ids.len()],
                fee: w.fee,
                admin: w.admin,
                a: (w.a * 100, w.a * 100),
                t: (0, 0),
                to: w.to,
                rest: (StableLpToken(n as u32), vec![b'x'; w.sym], 18),
            });
            if let Some(d) = diff(&post, &want) {
                return Err(format!("after {w:?}: {d}"));
            }
            check_eq!(Stable::next_pool_id(), n as u32 + 1, "the next pool");
            told(&post, n, s)
        })
    })
}
