//! Routes through pairs and stable pools: each is its hops, one after the other.
use crate::pairs::amount;
use crate::rt::*;
use crate::stable::*;
use dex_swap_router::{Route, StablePath, StableSwapMode};
use pbt::{check, check_eq, Src, R};

type Hop = Route<u32, CurrencyId>;
fn ends(h: &Hop) -> Option<(CurrencyId, CurrencyId)> {
    match h {
        Route::General(p) => Some((*p.first()?, *p.last()?)),
        Route::Stable(p) => Some((p.from_currency, p.to_currency)),
    }
}
/// the hops by themselves, from who to who, the last to whom it is for; what comes out
fn hops(pre: &Snap, who: usize, x: u128, routes: &[Hop], to: usize) -> Option<u128> {
    let mut x = x;
    for w in routes.windows(2) {
        if ends(&w[0])?.1 != ends(&w[1])?.0 {
            return None;
        }
    }
    for (k, h) in routes.iter().enumerate() {
        let (a, b) = ends(h)?;
        let dest = if k + 1 == routes.len() { to } else { who };
        let had = bal(b, &account(dest));
        let index = |p: u32, c: CurrencyId| -> Option<u32> { pre.pools.get(p as usize)?.cur.iter().position(|x| cur(*x) == c).map(|i| i as u32) };
        let ok = match h {
            Route::General(path) => tx(|| General::swap_exact_assets_for_assets(by(who), x, 0, path.clone(), account(dest), 1_000_000)).is_ok(),
            Route::Stable(p) => {
                let (pool, base) = (p.pool_id as usize, p.base_pool_id as usize);
                let op = match p.mode {
                    StableSwapMode::Single => Op::Swap { who, p: pool, i: index(p.pool_id, a)?, j: index(p.pool_id, b)?, x, min: 0, to: dest, late: false },
                    StableSwapMode::FromBase => Op::FromBase { who, p: pool, base, i: index(p.base_pool_id, a)?, j: index(p.pool_id, b)?, x, min: 0, to: dest, late: false },
                    StableSwapMode::ToBase => Op::ToBase { who, p: pool, base, i: index(p.pool_id, a)?, j: index(p.base_pool_id, b)?, x, min: 0, to: dest, late: false },
                };
                exec(&op).is_ok()
            }
        };
        if !ok {
            return None;
        }
        let back = if a == b && dest == who { x } else { 0 };
        x = (bal(b, &account(dest)) + back).checked_sub(had)?;
    }
    Some(x)
}
fn hop(s: &mut Src, pre: &Snap, from: usize, pairs: &[(usize, usize)]) -> Option<(Hop, usize)> {
    // what can be done with it
    let mut all: Vec<(u8, usize, usize, usize)> = vec![];
    for (a, b) in pairs {
        if *a == from || *b == from {
            all.push((0, 0, 0, if *a == from { *b } else { *a }));
        }
    }
    for (p, q) in pre.pools.iter().enumerate() {
        if q.cur.contains(&from) {
            for c in &q.cur {
                if *c != from {
                    all.push((1, p, p, *c));
                }
            }
        }
        if let Some(m) = &q.meta {
            let b = &pre.pools[m.base];
            if b.cur.contains(&from) {
                for c in &q.cur {
                    all.push((2, p, m.base, *c));
                }
            }
            if q.cur.contains(&from) {
                for c in &b.cur {
                    all.push((3, p, m.base, *c));
                }
            }
        }
    }
    if all.is_empty() {
        return None;
    }
    // of each kind as often
    let kinds: Vec<u8> = (0..4).filter(|k| all.iter().any(|a| a.0 == *k)).collect();
    let kind = *s.pick(&kinds);
    let some: Vec<_> = all.into_iter().filter(|a| a.0 == kind).collect();
    let (_, p, b, to) = *s.pick(&some);
    let (mut p, mut b, mut end) = (p as u32, b as u32, to);
    if s.ratio(1, 60) {
        p = s.below(4) as u32;
    }
    if s.ratio(1, 60) {
        b = s.below(4) as u32;
    }
    if s.ratio(1, 60) {
        end = s.idx(N + P);
    }
    let mode = match kind {
        0 => {
            let mut path = vec![cur(from), cur(end)];
            let mut at = end;
            while s.ratio(1, 3) {
                let next: Vec<usize> = pairs.iter().filter(|(a, b)| *a == at || *b == at).map(|(a, b)| if *a == at { *b } else { *a }).collect();
                if next.is_empty() {
                    break;
                }
                at = *s.pick(&next);
                path.push(cur(at));
            }
            if s.ratio(1, 60) {
                path.truncate(s.idx(2));
            }
            return Some((Route::General(path), at));
        }
        1 => StableSwapMode::Single,
        2 => StableSwapMode::FromBase,
        _ => StableSwapMode::ToBase,
    };
    Some((Route::Stable(StablePath { pool_id: p, base_pool_id: b, mode, from_currency: cur(from), to_currency: cur(end) }), end))
}
pub fn routes(s: &mut Src) -> R {
    open(vec![], || {
        setup(s)?;
        let mut pairs = vec![];
        let pools = Snap::read().pools.len();
        for a in 0..N + pools {
            for b in 0..a {
                if !s.ratio(2, 5) {
                    continue;
                }
                check!(tx(|| General::create_pair(root(), cur(a), cur(b), *s.pick(&[30, 0, 100, 1]))).is_ok(), "a pair of {a} and {b}");
                let (x, y) = (bal(cur(a), &user(0)) / 1_000_000, bal(cur(b), &user(0)) / 1_000_000);
                let _ = tx(|| General::add_liquidity(by(0), cur(a), cur(b), x, y, 0, 0, 1000));
                pairs.push((b, a));
            }
        }
        s.steps(6, 30, |s| {
            let pre = Snap::read();
            let (who, to) = (s.idx(USERS), s.idx(USERS));
            let mut at = s.idx(N + pre.pools.len());
            let first = at;
            let mut list = vec![];
            let len = *s.pick(&[1, 2, 2, 3, 3, 4, 6]);
            for _ in 0..len {
                if s.ratio(1, 60) {
                    at = s.idx(N + pre.pools.len());
                }
                let Some((h, e)) = hop(s, &pre, at, &pairs) else { break };
                list.push(h);
                at = e;
            }
            if list.is_empty() {
                return Ok(());
            }
            let have = pre.bal[who][first];
            let x = match s.weighted(&[6, 2, 1, 1]) {
                0 => amount(s, have / 10_000),
                1 => amount(s, have / 100_000_000),
                2 => s.u128(10),
                _ => have.saturating_add(s.u128(1)),
            };
            let want = pbt::guarded(|| dry(|| hops(&pre, who, x, &list, to).map(|o| (o, storage_root()))))?;
            let out = want.as_ref().map_or(0, |w| w.0);
            let min = match s.weighted(&[4, 2, 1, 1]) {
                0 => 0,
                1 => out,
                2 => out.saturating_add(1),
                _ => s.u128(out),
            };
            let late = s.ratio(1, 50);
            s.note(|| format!("{who} {x} {list:?} to {to}, at least {min}{}", if late { ", late" } else { "" }));
            let before = storage_root();
            let call = || tx(|| Router::swap_exact_tokens_for_tokens(by(who), x, min, list.clone(), account(to), System::block_number() + !late as u64));
            let got = pbt::guarded(|| dry(|| call().map(|_| storage_root()))).map_err(|e| format!("{x} along {list:?} panics: {e}"))?;
            let r = call();
            check_eq!(r.is_ok(), got.is_ok(), "{x} along {list:?}, twice the same");
            match (&want, &r) {
                (_, Err(e)) => {
                    check_eq!(storage_root(), before, "{x} along {list:?} failed and left something");
                    check!(late || want.is_none() || min > out, "{x} along {list:?} from {who} to {to}, at least {min}, was refused ({e:?}); its hops give {out}");
                }
                (Some((o, after)), Ok(())) => {
                    check!(!late, "{x} along {list:?} was accepted too late");
                    check!(*o >= min, "{x} along {list:?} gives {o}, and was accepted for {min}");
                    check_eq!(got.as_ref().unwrap(), after, "{x} along {list:?} from {who} to {to} does not do what its hops do");
                    s.nontrivial();
                    s.label(if list.len() > 1 { "several" } else { "one" });
                    for h in &list {
                        s.label(match h {
                            Route::General(_) => "pairs",
                            Route::Stable(StablePath { mode: StableSwapMode::Single, .. }) => "single",
                            Route::Stable(StablePath { mode: StableSwapMode::FromBase, .. }) => "from base",
                            Route::Stable(StablePath { mode: StableSwapMode::ToBase, .. }) => "to base",
                        });
                    }
                }
                (None, Ok(())) => return Err(format!("{x} along {list:?} from {who} was accepted, though its hops are not")),
            }
            if s.ratio(1, 6) {
                let mut t = Timestamp::now();
                t += 1000 * *s.pick(&[12u64, 36_001]);
                Timestamp::set_timestamp(t);
            }
            Ok(())
        })
    })
}
