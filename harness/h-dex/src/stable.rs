//! Stable pools: what they look like, the calls, and what each must do.
use crate::curve::*;
use crate::pairs::amount;
use crate::rt::*;
use codec::{Decode, Encode};
use dex_stable::traits::StableAmmApi;
use pbt::{check, check_eq, fail, Src, R};

pub const N: usize = 5;
pub const P: usize = 3;
pub const USERS: usize = 5;
pub const ACCS: usize = USERS + P;
pub const DAY: u64 = 86_400;
/// tokens, then the shares of the pools
pub fn cur(i: usize) -> CurrencyId {
    let t = [Token(DOT), Token(IBTC), ForeignAsset(1), Token(KSM), ForeignAsset(2)];
    if i < N {
        t[i]
    } else {
        StableLpToken((i - N) as u32)
    }
}
pub fn which(c: CurrencyId) -> usize {
    (0..N + P).find(|i| cur(*i) == c).unwrap()
}
pub fn account(i: usize) -> Acc {
    if i < USERS {
        user(i)
    } else {
        Stable::pool_account_id(&((i - USERS) as u32))
    }
}
pub fn of(a: &Acc) -> usize {
    (0..ACCS).find(|i| account(*i) == *a).unwrap()
}
#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub base: usize,
    pub vp: u128,
    pub last: u64,
    pub under: Vec<usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pool {
    pub meta: Option<Meta>,
    pub cur: Vec<usize>,
    pub mult: Vec<u128>,
    pub bal: Vec<u128>,
    pub fee: u128,
    pub admin: u128,
    /// initial, future
    pub a: (u128, u128),
    pub t: (u128, u128),
    pub to: usize,
    pub rest: (CurrencyId, Vec<u8>, u8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub bal: Vec<Vec<u128>>,
    pub issued: Vec<u128>,
    pub pools: Vec<Pool>,
    pub now: u64,
}
pub fn secs() -> u64 {
    Timestamp::now() / 1000
}
impl Snap {
    pub fn read() -> Snap {
        let pools = (0..P as u32)
            .map_while(|id| Stable::pools(id))
            .map(|p| {
                let e = p.encode();
                let meta = (e[0] == 1).then(|| {
                    let (_, base, vp, last, under) = <(u8, u32, u128, u64, Vec<CurrencyId>)>::decode(&mut &e[..]).unwrap();
                    Meta { base: base as usize, vp, last, under: under.into_iter().map(which).collect() }
                });
                let i = p.info();
                Pool {
                    meta,
                    cur: i.currency_ids.iter().map(|c| which(*c)).collect(),
                    mult: i.token_multipliers.to_vec(),
                    bal: i.balances.to_vec(),
                    fee: i.fee,
                    admin: i.admin_fee,
                    a: (i.initial_a, i.future_a),
                    t: (i.initial_a_time, i.future_a_time),
                    to: of(&i.admin_fee_receiver),
                    rest: (i.lp_currency_id, i.lp_currency_symbol.to_vec(), i.lp_currency_decimal),
                }
            })
            .collect();
        Snap {
            bal: (0..ACCS).map(|a| (0..N + P).map(|c| bal(cur(c), &account(a))).collect()).collect(),
            issued: (0..N + P).map(|c| issued(cur(c))).collect(),
            pools,
            now: secs(),
        }
    }
    pub fn supply(&self, p: usize) -> u128 {
        self.issued[N + p]
    }
    pub fn amp(&self, p: usize) -> u128 {
        let q = &self.pools[p];
        let now = self.now as u128;
        if now >= q.t.1 {
            return q.a.1;
        }
        let done = |x: u128| (big(x) * big(now - q.t.0) / big(q.t.1 - q.t.0)).to_u128().unwrap();
        if q.a.1 > q.a.0 {
            q.a.0 + done(q.a.1 - q.a.0)
        } else {
            q.a.0 - done(q.a.0 - q.a.1)
        }
    }
    pub fn stale(&self, p: usize) -> bool {
        self.pools[p].meta.as_ref().map_or(false, |m| self.now > m.last + 36_000)
    }
    pub fn curve(&self, p: usize, vp: Option<u128>) -> Curve {
        let q = &self.pools[p];
        Curve { mult: q.mult.clone(), bal: q.bal.clone(), fee: q.fee, admin: q.admin, amp: self.amp(p), vp, supply: self.supply(p) }
    }
    /// with the price as it is remembered, whether or not it is too old
    pub fn old(&self, p: usize) -> Curve {
        self.curve(p, self.pools[p].meta.as_ref().map(|m| m.vp))
    }
    /// what the price of the base pool's shares may be now
    pub fn price_of_base(&self, p: usize) -> Option<Iv> {
        let m = self.pools[p].meta.as_ref()?;
        if self.stale(p) {
            self.price(m.base)
        } else {
            Some(at(m.vp))
        }
    }
    pub fn price(&self, p: usize) -> Option<Iv> {
        match self.price_of_base(p) {
            None if self.pools[p].meta.is_some() => None,
            None => self.old(p).price(),
            Some(vp) => {
                let a = self.curve(p, vp.lo.to_u128()).price()?;
                let b = self.curve(p, vp.hi.to_u128()).price()?;
                Some(Iv { lo: a.lo, hi: b.hi })
            }
        }
    }
    pub fn take(&mut self, c: usize, from: usize, x: u128) -> Option<()> {
        self.bal[from][c] = self.bal[from][c].checked_sub(x)?;
        Some(())
    }
    pub fn put(&mut self, c: usize, to: usize, x: u128) {
        self.bal[to][c] += x
    }
    pub fn pay(&mut self, c: usize, from: usize, to: usize, x: u128) -> Option<()> {
        self.take(c, from, x)?;
        self.put(c, to, x);
        Some(())
    }
}
#[derive(Clone, Debug)]
pub enum Op {
    Swap { who: usize, p: usize, i: u32, j: u32, x: u128, min: u128, to: usize, late: bool },
    Add { who: usize, p: usize, x: Vec<u128>, min: u128, to: usize, late: bool },
    Remove { who: usize, p: usize, lp: u128, min: Vec<u128>, to: usize, late: bool },
    One { who: usize, p: usize, lp: u128, i: u32, min: u128, to: usize, late: bool },
    Imbalance { who: usize, p: usize, x: Vec<u128>, max: u128, to: usize, late: bool },
    AddBoth { who: usize, p: usize, base: usize, x: Vec<u128>, y: Vec<u128>, min: u128, to: usize, late: bool },
    RemoveBoth { who: usize, p: usize, base: usize, lp: u128, min: Vec<u128>, min_base: Vec<u128>, to: usize, late: bool },
    OneBoth { who: usize, p: usize, base: usize, lp: u128, i: u32, min: u128, to: usize, late: bool },
    FromBase { who: usize, p: usize, base: usize, i: u32, j: u32, x: u128, min: u128, to: usize, late: bool },
    ToBase { who: usize, p: usize, base: usize, i: u32, j: u32, x: u128, min: u128, to: usize, late: bool },
    Under { who: usize, p: usize, i: u32, j: u32, x: u128, min: u128, to: usize, late: bool },
    Receiver(usize, usize, bool),
    Fee(usize, u128, bool),
    Admin(usize, u128, bool),
    Ramp(usize, u128, u128, bool),
    Stop(usize, bool),
    Withdraw(usize, usize),
    Donate { who: usize, c: usize, p: usize, x: u128 },
    Wait(u64),
}
impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Swap { .. } => "swap",
            Op::Add { .. } => "add",
            Op::Remove { .. } => "remove",
            Op::One { .. } => "remove in one currency",
            Op::Imbalance { .. } => "remove given amounts",
            Op::AddBoth { .. } => "add to both",
            Op::RemoveBoth { .. } => "remove from both",
            Op::OneBoth { .. } => "remove one from both",
            Op::FromBase { .. } => "swap from base",
            Op::ToBase { .. } => "swap to base",
            Op::Under { .. } => "swap underlying",
            Op::Receiver(..) | Op::Fee(..) | Op::Admin(..) => "fees",
            Op::Ramp(..) | Op::Stop(..) => "ramp",
            Op::Withdraw(..) => "withdraw fees",
            Op::Donate { .. } => "donate",
            Op::Wait(_) => "wait",
        }
    }
    pub fn composed(&self) -> bool {
        matches!(self, Op::AddBoth { .. } | Op::RemoveBoth { .. } | Op::OneBoth { .. } | Op::FromBase { .. } | Op::ToBase { .. } | Op::Under { .. })
    }
}
fn deadline(late: bool) -> u64 {
    System::block_number() + !late as u64
}
pub fn origin(is_root: bool) -> RuntimeOrigin {
    if is_root {
        root()
    } else {
        by(0)
    }
}
pub fn exec(op: &Op) -> Result<(), String> {
    let e = |r: frame_support::dispatch::DispatchResult| r.map_err(|e| format!("{e:?}"));
    match op.clone() {
        Op::Swap { who, p, i, j, x, min, to, late } => e(tx(|| Stable::swap(by(who), p as u32, i, j, x, min, account(to), deadline(late)))),
        Op::Add { who, p, x, min, to, late } => e(tx(|| Stable::add_liquidity(by(who), p as u32, x, min, account(to), deadline(late)))),
        Op::Remove { who, p, lp, min, to, late } => e(tx(|| Stable::remove_liquidity(by(who), p as u32, lp, min, account(to), deadline(late)))),
        Op::One { who, p, lp, i, min, to, late } => e(tx(|| Stable::remove_liquidity_one_currency(by(who), p as u32, lp, i, min, account(to), deadline(late)))),
        Op::Imbalance { who, p, x, max, to, late } => e(tx(|| Stable::remove_liquidity_imbalance(by(who), p as u32, x, max, account(to), deadline(late)))),
        Op::AddBoth { who, p, base, x, y, min, to, late } => {
            e(tx(|| Stable::add_pool_and_base_pool_liquidity(by(who), p as u32, base as u32, x, y, min, account(to), deadline(late))))
        }
        Op::RemoveBoth { who, p, base, lp, min, min_base, to, late } => {
            e(tx(|| Stable::remove_pool_and_base_pool_liquidity(by(who), p as u32, base as u32, lp, min, min_base, account(to), deadline(late))))
        }
        Op::OneBoth { who, p, base, lp, i, min, to, late } => {
            e(tx(|| Stable::remove_pool_and_base_pool_liquidity_one_currency(by(who), p as u32, base as u32, lp, i, min, account(to), deadline(late))))
        }
        Op::FromBase { who, p, base, i, j, x, min, to, late } => {
            e(tx(|| Stable::swap_pool_from_base(by(who), p as u32, base as u32, i, j, x, min, account(to), deadline(late))))
        }
        Op::ToBase { who, p, base, i, j, x, min, to, late } => {
            e(tx(|| Stable::swap_pool_to_base(by(who), p as u32, base as u32, i, j, x, min, account(to), deadline(late))))
        }
        Op::Under { who, p, i, j, x, min, to, late } => e(tx(|| Stable::swap_meta_pool_underlying(by(who), p as u32, i, j, x, min, account(to), deadline(late)))),
        Op::Receiver(p, to, r) => e(tx(|| Stable::update_fee_receiver(origin(r), p as u32, user(to)))),
        Op::Fee(p, x, r) => e(tx(|| Stable::set_swap_fee(origin(r), p as u32, x))),
        Op::Admin(p, x, r) => e(tx(|| Stable::set_admin_fee(origin(r), p as u32, x))),
        Op::Ramp(p, a, t, r) => e(tx(|| Stable::ramp_a(origin(r), p as u32, a, t))),
        Op::Stop(p, r) => e(tx(|| Stable::stop_ramp_a(origin(r), p as u32))),
        Op::Withdraw(who, p) => e(tx(|| Stable::withdraw_admin_fee(by(who), p as u32))),
        Op::Donate { who, c, p, x } => send(cur(c), &user(who), &account(USERS + p), x),
        Op::Wait(s) => {
            Timestamp::set_timestamp(Timestamp::now() + s * 1000);
            System::set_block_number(System::block_number() + 1);
            Ok(())
        }
    }
}
/// whether a call must be refused, must be accepted, or either
#[derive(Debug)]
pub enum Must {
    Refuse(&'static str),
    Accept,
    Either,
}
/// the price of the base pool's shares a call used, and whether it was renewed by the rules
fn price_used(pre: &Snap, post: &Snap, p: usize) -> Result<Option<u128>, String> {
    let Some(m) = &pre.pools[p].meta else { return Ok(None) };
    let n = post.pools[p].meta.as_ref().ok_or("no longer a pool on a pool")?;
    if pre.stale(p) {
        check_eq!(n.last, pre.now, "the price of pool {}'s shares in pool {p} is older than ten hours and was not renewed", m.base);
        if let Some(iv) = pre.price(m.base) {
            check!(iv.has(n.vp), "a share of pool {} is worth {:?}, not {}", m.base, iv, n.vp);
        }
    } else {
        check_eq!((n.last, n.vp), (m.last, m.vp), "the price of pool {}'s shares in pool {p} was changed", m.base);
    }
    Ok(Some(n.vp))
}
/// what a call that went through, of those that are not composed of others, must have done
pub fn follow(pre: &Snap, op: &Op, post: &Snap) -> R {
    let mut s = pre.clone();
    macro_rules! had {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => fail!("{op:?} paid with more than there was"),
            }
        };
    }
    let renew = |s: &mut Snap, p: usize| -> Result<Option<u128>, String> {
        let vp = price_used(pre, post, p)?;
        s.pools[p].meta = post.pools[p].meta.clone();
        Ok(vp)
    };
    match op.clone() {
        Op::Swap { who, p, i, j, x, min, to, .. } => {
            let (i, j) = (i as usize, j as usize);
            let vp = renew(&mut s, p)?;
            let q = &pre.pools[p];
            let (ci, cj) = (q.cur[i], q.cur[j]);
            let out = had!(post.bal[to][cj].checked_sub(pre.bal[to][cj]));
            check!(out >= min, "{op:?}: {out} came out");
            let used = had!(pre.pools[p].bal[j].checked_sub(post.pools[p].bal[j]));
            let admin = had!(used.checked_sub(out));
            if let Some(w) = pre.curve(p, vp).swap(i, j, x) {
                check!(w.out.has(out), "{op:?}: {out} came out, not {:?}", w.out);
                check!(w.admin.has(admin), "{op:?}: {admin} was put aside for the fee, not {:?}", w.admin);
            }
            had!(s.pay(ci, who, USERS + p, x));
            had!(s.pay(cj, USERS + p, to, out));
            s.pools[p].bal[i] += x;
            s.pools[p].bal[j] -= used;
        }
        Op::Add { who, p, x, min, to, .. } => {
            let vp = renew(&mut s, p)?;
            let mint = had!(post.bal[to][N + p].checked_sub(pre.bal[to][N + p]));
            check!(mint >= min, "{op:?}: {mint} shares");
            for (k, c) in pre.pools[p].cur.clone().into_iter().enumerate() {
                had!(s.pay(c, who, USERS + p, x[k]));
            }
            if let Some(w) = pre.curve(p, vp).add(&x) {
                // who pays in shares of the same pool is not possible, so that what was minted is what is more
                check!(w.mint.has(mint), "{op:?}: {mint} shares, not {:?}", w.mint);
                for k in 0..x.len() {
                    check!(w.bal[k].has(post.pools[p].bal[k]), "{op:?}: balance {k} became {}, not {:?}", post.pools[p].bal[k], w.bal[k]);
                }
            }
            for k in 0..x.len() {
                check!(post.pools[p].bal[k] <= pre.pools[p].bal[k] + x[k], "{op:?}: balance {k}");
            }
            s.put(N + p, to, mint);
            s.issued[N + p] += mint;
            s.pools[p].bal = post.pools[p].bal.clone();
        }
        Op::Remove { who, p, lp, min, to, .. } => {
            had!(s.take(N + p, who, lp));
            s.issued[N + p] -= lp;
            for (k, c) in pre.pools[p].cur.clone().into_iter().enumerate() {
                let x = had!(md(pre.pools[p].bal[k], lp, pre.supply(p)));
                check!(x >= min[k], "{op:?}: {x} of {k}");
                s.pools[p].bal[k] -= x;
                had!(s.pay(c, USERS + p, to, x));
            }
        }
        Op::One { who, p, lp, i, min, to, .. } => {
            let i = i as usize;
            let vp = renew(&mut s, p)?;
            let c = pre.pools[p].cur[i];
            let out = had!(post.bal[to][c].checked_sub(pre.bal[to][c]));
            check!(out >= min, "{op:?}: {out} came out");
            let used = had!(pre.pools[p].bal[i].checked_sub(post.pools[p].bal[i]));
            let admin = had!(used.checked_sub(out));
            if let Some(w) = pre.curve(p, vp).one(lp, i) {
                check!(w.out.has(out), "{op:?}: {out} came out, not {:?}", w.out);
                check!(w.admin.has(admin), "{op:?}: {admin} was put aside for the fee, not {:?}", w.admin);
            }
            had!(s.take(N + p, who, lp));
            s.issued[N + p] -= lp;
            had!(s.pay(c, USERS + p, to, out));
            s.pools[p].bal[i] -= used;
        }
        Op::Imbalance { who, p, x, max, to, .. } => {
            let vp = renew(&mut s, p)?;
            let burn = had!(pre.supply(p).checked_sub(post.supply(p)));
            check!(burn <= max, "{op:?}: {burn} shares");
            if let Some(w) = pre.curve(p, vp).imbalance(&x) {
                check!(w.mint.has(burn - 1), "{op:?}: {burn} shares, not one more than {:?}", w.mint);
                for k in 0..x.len() {
                    check!(w.bal[k].has(post.pools[p].bal[k]), "{op:?}: balance {k} became {}, not {:?}", post.pools[p].bal[k], w.bal[k]);
                }
            }
            had!(s.take(N + p, who, burn));
            s.issued[N + p] -= burn;
            for (k, c) in pre.pools[p].cur.clone().into_iter().enumerate() {
                check!(big(post.pools[p].bal[k]) <= big(pre.pools[p].bal[k]) - big(x[k]), "{op:?}: balance {k}");
                had!(s.pay(c, USERS + p, to, x[k]));
            }
            s.pools[p].bal = post.pools[p].bal.clone();
        }
        Op::Receiver(p, to, _) => s.pools[p].to = to,
        Op::Fee(p, x, _) => s.pools[p].fee = x,
        Op::Admin(p, x, _) => s.pools[p].admin = x,
        Op::Ramp(p, a, t, _) => {
            s.pools[p].a = (pre.amp(p), a * 100);
            s.pools[p].t = (pre.now as u128, t);
        }
        Op::Stop(p, _) => {
            s.pools[p].a = (pre.amp(p), pre.amp(p));
            s.pools[p].t = (pre.now as u128, pre.now as u128);
        }
        Op::Withdraw(_, p) => {
            for (k, c) in pre.pools[p].cur.clone().into_iter().enumerate() {
                let x = had!(pre.bal[USERS + p][c].checked_sub(pre.pools[p].bal[k]));
                had!(s.pay(c, USERS + p, pre.pools[p].to, x));
            }
        }
        Op::Donate { who, c, p, x } => had!(s.pay(c, who, USERS + p, x)),
        Op::Wait(t) => s.now += t,
        _ => return Ok(()),
    }
    match diff(post, &s) {
        Some(d) => Err(format!("after {op:?}: {d}")),
        None => Ok(()),
    }
}
pub fn diff(got: &Snap, want: &Snap) -> Option<String> {
    for i in 0..ACCS {
        for c in 0..N + P {
            if got.bal[i][c] != want.bal[i][c] {
                let who = if i < USERS { format!("user {i}") } else { format!("pool {}", i - USERS) };
                return Some(format!("{who} has {} of {:?}, not {}", got.bal[i][c], cur(c), want.bal[i][c]));
            }
        }
    }
    for c in 0..N + P {
        if got.issued[c] != want.issued[c] {
            return Some(format!("{} of {:?} exist, not {}", got.issued[c], cur(c), want.issued[c]));
        }
    }
    for p in 0..got.pools.len().max(want.pools.len()) {
        if got.pools.get(p) != want.pools.get(p) {
            return Some(format!("pool {p}: {:?}, not {:?}", got.pools.get(p), want.pools.get(p)));
        }
    }
    (got != want).then(|| format!("{}, not {}", got.now, want.now))
}
/// with the price the call would use: remembered, or, if that is too old, what it is
fn curve_now(pre: &Snap, p: usize) -> Option<Curve> {
    if pre.pools[p].meta.is_none() || !pre.stale(p) {
        return Some(pre.old(p));
    }
    // what exactly will be used is not known: any of these, so that nothing is decided by the last digit
    let iv = pre.price_of_base(p)?;
    Some(pre.curve(p, iv.lo.to_u128()))
}
/// what a call gives with whatever price it may find
fn blur(pre: &Snap, p: usize, f: &dyn Fn(&Curve) -> Option<Iv>) -> Option<Iv> {
    if !pre.stale(p) {
        return f(&pre.old(p));
    }
    let vp = pre.price_of_base(p)?;
    let (a, b) = (f(&pre.curve(p, vp.lo.to_u128()))?, f(&pre.curve(p, vp.hi.to_u128()))?);
    let (lo, hi) = (a.lo.min(b.lo), a.hi.max(b.hi));
    let c = pre.old(p);
    let e = &hi - &lo + hi.abs() / z(1_000_000_000) + z(10) + c.last_digit()? * z(4);
    Some(Iv { lo: lo - &e, hi: hi + &e })
}
fn lopsided(c: &Curve) -> bool {
    let xp = c.xp(&c.balances());
    match d_exact(&xp, &c.ann()) {
        Some(d) => {
            let d = d >> K as usize;
            d < z(100_000) || d > z(10u128.pow(32)) || xp.iter().any(|x| x * z(1_000_000) < d) || !rests(&xp, &d, &c.ann())
        }
        None => true,
    }
}
/// the price the call needs is remembered, or can be found
fn priced(pre: &Snap, p: usize) -> bool {
    match &pre.pools[p].meta {
        Some(m) if pre.stale(p) => priced(pre, m.base) && curve_now(pre, m.base).map_or(false, |c| c.supply > 0 && !lopsided(&c)),
        _ => true,
    }
}
pub fn must(pre: &Snap, op: &Op) -> Must {
    use Must::*;
    macro_rules! need {
        ($e:expr, $why:expr) => {
            if !$e {
                return Refuse($why);
            }
        };
    }
    match op.clone() {
        Op::Swap { who, p, i, j, x, min, late, .. } => {
            let (i, j) = (i as usize, j as usize);
            need!(!late, "too late");
            need!(p < pre.pools.len(), "no such pool");
            let n = pre.pools[p].cur.len();
            need!(i != j && i < n && j < n, "no such currency");
            need!(pre.bal[who][pre.pools[p].cur[i]] >= x, "not enough");
            let Some(c) = curve_now(pre, p) else { return Either };
            let Some(w) = c.swap(i, j, x) else { return Either };
            let (Some(out), Some(dy)) = (blur(pre, p, &|c| Some(c.swap(i, j, x)?.out)), blur(pre, p, &|c| Some(c.swap(i, j, x)?.dy))) else { return Either };
            need!(pre.stale(p) || out.hi >= z(min), "less than asked");
            need!(pre.stale(p) || dy.hi >= z(0), "nothing comes out");
            if priced(pre, p) && !lopsided(&c) && out.lo >= z(min) && dy.lo >= z(0) {
                return Accept;
            }
        }
        Op::Add { who, p, x, min, late, .. } => {
            need!(!late, "too late");
            need!(p < pre.pools.len(), "no such pool");
            let q = &pre.pools[p];
            need!(x.len() == q.cur.len(), "as many as currencies");
            need!(q.cur.iter().zip(&x).all(|(c, x)| pre.bal[who][*c] >= *x), "not enough");
            need!(pre.supply(p) > 0 || x.iter().all(|x| *x > 0), "the first adds of all");
            need!(x.iter().any(|x| *x > 0), "nothing is added");
            let Some(c) = curve_now(pre, p) else { return Either };
            let Some(w) = c.add(&x) else { return Either };
            let Some(mint) = blur(pre, p, &|c| Some(c.add(&x)?.mint)) else { return Either };
            need!(pre.stale(p) || mint.hi >= z(min), "less than asked");
            need!(pre.stale(p) || mint.hi >= z(0), "no share");
            let mut grown = c.clone();
            for k in 0..x.len() {
                grown.bal[k] += x[k];
            }
            if mint.lo >= z(min) && mint.lo > z(0) && w.d1.lo > w.d0.hi && w.kept.iter().all(|k| k.lo > z(0)) && priced(pre, p) && !lopsided(&grown) && (pre.supply(p) == 0 || !lopsided(&c)) {
                return Accept;
            }
        }
        Op::Remove { who, p, lp, min, late, .. } => {
            need!(!late, "too late");
            need!(p < pre.pools.len(), "no such pool");
            let q = &pre.pools[p];
            need!(lp > 0 && pre.bal[who][N + p] >= lp, "not as many shares");
            need!(min.len() == q.cur.len(), "as many as currencies");
            need!(q.bal.iter().zip(&min).all(|(b, m)| md(*b, lp, pre.supply(p)).unwrap() >= *m), "less than asked");
            return Accept;
        }
        Op::One { who, p, lp, i, min, late, .. } => {
            let i = i as usize;
            need!(!late, "too late");
            need!(p < pre.pools.len(), "no such pool");
            need!(lp > 0 && pre.bal[who][N + p] >= lp, "not as many shares");
            need!(i < pre.pools[p].cur.len(), "no such currency");
            let Some(c) = curve_now(pre, p) else { return Either };
            let Some(w) = c.one(lp, i) else { return Either };
            let Some(out) = blur(pre, p, &|c| Some(c.one(lp, i)?.out)) else { return Either };
            need!(pre.stale(p) || out.hi >= z(min), "less than asked");
            need!(pre.stale(p) || out.hi >= z(0), "nothing comes out");
            let Some(used) = blur(pre, p, &|c| c.one(lp, i).map(|w| w.out.plus(&w.admin))) else { return Either };
            let left = at(c.bal[i]).minus(&used);
            if priced(pre, p) && !lopsided(&c) && lp < pre.supply(p) - pre.supply(p) / 1000 && out.lo >= z(min) && out.lo > z(0) && w.expected.lo > z(0) && w.fee.lo >= z(0) && left.lo > z(0) {
                return Accept;
            }
        }
        Op::Imbalance { who, p, x, max, late, .. } => {
            need!(!late, "too late");
            need!(p < pre.pools.len(), "no such pool");
            let q = &pre.pools[p];
            need!(x.len() == q.cur.len(), "as many as currencies");
            need!(pre.supply(p) > 0, "empty");
            need!(q.bal.iter().zip(&x).all(|(b, x)| b >= x), "not so much there");
            need!(x.iter().any(|x| *x > 0), "nothing is removed");
            let Some(c) = curve_now(pre, p) else { return Either };
            let Some(w) = c.imbalance(&x) else { return Either };
            let Some(burn) = blur(pre, p, &|c| Some(c.imbalance(&x)?.mint)) else { return Either };
            need!(pre.stale(p) || burn.hi > z(0), "no share is burned");
            need!(pre.stale(p) || &burn.lo + 1 <= z(max), "more than offered");
            need!(pre.stale(p) || &burn.lo + 1 <= z(pre.bal[who][N + p]), "not as many shares");
            let mut less = c.clone();
            for k in 0..x.len() {
                less.bal[k] -= x[k];
            }
            if priced(pre, p) && !lopsided(&c) && !lopsided(&less) && burn.lo > z(0) && &burn.hi + 1 <= z(max) && &burn.hi + 1 <= z(pre.bal[who][N + p]) && w.kept.iter().all(|k| k.lo > z(0)) {
                return Accept;
            }
        }
        Op::Receiver(p, _, r) => {
            need!(r, "not root");
            need!(p < pre.pools.len(), "no such pool");
            return Accept;
        }
        Op::Fee(p, x, r) => {
            need!(r, "not root");
            need!(p < pre.pools.len(), "no such pool");
            need!(x <= 100_000_000, "above one in a hundred");
            return Accept;
        }
        Op::Admin(p, x, r) => {
            need!(r, "not root");
            need!(p < pre.pools.len(), "no such pool");
            need!(x <= DEN, "more than all");
            return Accept;
        }
        Op::Ramp(p, a, t, r) => {
            need!(r, "not root");
            need!(p < pre.pools.len(), "no such pool");
            let (now, day) = (pre.now as u128, DAY as u128);
            need!(now >= pre.pools[p].t.0 + day, "within a day of the last");
            need!(t >= now + day, "in less than a day");
            need!(a > 0 && a < 1_000_000, "out of bounds");
            let (from, to) = (pre.amp(p), a * 100);
            need!(to <= from * 10 && from <= to * 10, "more than tenfold");
            return Accept;
        }
        Op::Stop(p, r) => {
            need!(r, "not root");
            need!(p < pre.pools.len(), "no such pool");
            need!(pre.pools[p].t.1 > pre.now as u128, "not on the way");
            return Accept;
        }
        Op::Withdraw(_, p) => {
            need!(p < pre.pools.len(), "no such pool");
            return Accept;
        }
        Op::Donate { who, c, p, x } => {
            let _ = p;
            need!(pre.bal[who][c] >= x, "not enough");
            return Accept;
        }
        Op::Wait(_) => return Accept,
        _ => {}
    }
    Either
}

fn near(s: &mut Src, x: u128) -> u128 {
    match s.weighted(&[5, 2, 2, 1, 1]) {
        0 => 0,
        1 => x.saturating_sub(x / 10_000 + 2),
        2 => x,
        3 => x.saturating_sub(1),
        _ => x.saturating_add(x / 10_000 + 3),
    }
}
/// chances of: swap, add, remove, one, imbalance, composed, fees, ramp, withdraw, donate, wait
pub type Mix = [u64; 11];
pub const SWAPS: Mix = [20, 4, 1, 1, 1, 3, 2, 1, 2, 1, 3];
pub const LIQ: Mix = [5, 8, 6, 6, 6, 2, 2, 1, 2, 1, 3];
pub const META: Mix = [4, 3, 1, 1, 1, 20, 2, 1, 1, 1, 4];
pub const PARAM: Mix = [3, 1, 1, 0, 0, 1, 8, 12, 2, 1, 9];
fn index(s: &mut Src, n: usize) -> u32 {
    if s.ratio(1, 60) {
        n as u32 + s.below(2) as u32
    } else {
        s.idx(n) as u32
    }
}
fn amounts(s: &mut Src, pre: &Snap, p: usize) -> Vec<u128> {
    let n = pre.pools[p].cur.len();
    let n = if s.ratio(1, 60) { n + 1 - s.idx(2) * 2 } else { n };
    let scale = *s.pick(&[1u128, 10, 1000, 1_000_000]);
    (0..n)
        .map(|k| {
            let b = pre.pools[p].bal.get(k).copied().unwrap_or(1000);
            if s.ratio(1, 4) {
                0
            } else if b == 0 {
                let most = 10u128.pow(s.int(3, 14) as u32);
                amount(s, most)
            } else {
                amount(s, b / scale)
            }
        })
        .collect()
}
fn part(s: &mut Src, x: u128) -> u128 {
    match s.weighted(&[4, 3, 1, 1, 1]) {
        0 => s.u128(x / 3 + 1),
        1 => s.u128(x / 1000 + 1),
        2 => x,
        3 => x.saturating_add(1),
        _ => s.u128(5),
    }
}
/// by how much a call would let something grow
fn probe(of: impl Fn() -> u128, op: &Op) -> u128 {
    let had = of();
    dry(|| {
        pbt::guarded(|| exec(op)).ok()?.ok()?;
        of().checked_sub(had)
    })
    .unwrap_or(0)
}
pub fn gen(s: &mut Src, pre: &Snap, mix: &Mix) -> Op {
    let who = s.idx(USERS);
    let to = s.idx(USERS);
    let late = s.ratio(1, 80);
    let np = pre.pools.len();
    let p = if s.ratio(1, 100) { np } else { s.idx(np) };
    let have = p < np;
    let q = if have { p } else { 0 };
    let n = pre.pools[q].cur.len();
    match s.weighted(mix) {
        0 => {
            let (i, j) = (index(s, n), index(s, n));
            let j = if i == j && !s.ratio(1, 40) { (i + 1) % n as u32 } else { j };
            let b = pre.pools[q].bal.get(i as usize).copied().unwrap_or(1000);
            let scale = *s.pick(&[1u128, 10, 1000, 1_000_000]);
            let x = amount(s, b / scale);
            let told = Stable::stable_amm_calculate_swap_amount(q as u32, i as usize, j as usize, x).unwrap_or(0);
            Op::Swap { who, p, i, j, x, min: near(s, told), to, late }
        }
        1 => {
            let x = amounts(s, pre, q);
            let told = dry(|| Stable::stable_amm_calculate_currency_amount(q as u32, &x, true)).unwrap_or(0);
            let op = Op::Add { who, p, x: x.clone(), min: 0, to, late };
            let min = if s.bool() { near(s, told - told / 100) } else { (probe(|| bal(cur(N + q), &account(to)), &op) + s.below(3) as u128).saturating_sub(1) };
            Op::Add { who, p, x, min, to, late }
        }
        2 => {
            let lp = part(s, pre.bal[who][N + q]);
            let min = pre.pools[q].bal.iter().map(|b| near(s, md(*b, lp, pre.supply(q)).unwrap_or(0))).collect::<Vec<_>>();
            let min = if s.ratio(1, 60) { min[1..].to_vec() } else { min };
            Op::Remove { who, p, lp, min, to, late }
        }
        3 => {
            let lp = part(s, pre.bal[who][N + q]);
            let i = index(s, n);
            let told = Stable::stable_amm_calculate_remove_liquidity_one_currency(q as u32, lp, i).unwrap_or(0);
            Op::One { who, p, lp, i, min: near(s, told), to, late }
        }
        4 => {
            let x = amounts(s, pre, q);
            let told = dry(|| if x.len() == n { Stable::stable_amm_calculate_currency_amount(q as u32, &x, false) } else { Ok(0) }).unwrap_or(0);
            let op = Op::Imbalance { who, p, x: x.clone(), max: u128::MAX, to, late };
            let max = match s.below(4) {
                0 | 1 => u128::MAX,
                2 => near(s, told + told / 100),
                _ => (probe(|| u128::MAX - issued(cur(N + q)), &op) + s.below(3) as u128).saturating_sub(1),
            };
            Op::Imbalance { who, p, x, max, to, late }
        }
        5 => composed(s, pre, who, to, late, p),
        6 => match s.below(3) {
            0 => Op::Receiver(p, to, !s.ratio(1, 10)),
            1 => Op::Fee(p, *s.pick(&[0, 4_000_000, 100_000_000, 100_000_001, 1, 33_333_333]), !s.ratio(1, 10)),
            _ => Op::Admin(p, *s.pick(&[0, DEN / 2, DEN, DEN + 1, 1, 3_333_333_333]), !s.ratio(1, 10)),
        },
        7 => {
            if s.ratio(1, 4) {
                return Op::Stop(p, !s.ratio(1, 10));
            }
            let a = pre.amp(q) / 100;
            let a = match s.weighted(&[4, 1, 1, 1, 1, 1, 1]) {
                0 => s.u128_in(a / 10, a.saturating_mul(10)),
                1 => a * 10 + s.u128(2),
                2 => (a / 10).saturating_add(s.u128(2)),
                3 => 999_999 + s.u128(1),
                4 => s.u128(2),
                5 => a,
                _ => s.u128(1_200_000),
            };
            let t = pre.now as u128 + DAY as u128;
            let t = match s.weighted(&[4, 1, 1]) {
                0 => t + s.u128(20 * DAY as u128),
                1 => t,
                _ => t - 1,
            };
            Op::Ramp(p, a, t, !s.ratio(1, 20))
        }
        8 => Op::Withdraw(who, p),
        9 => {
            let c = pre.pools[q].cur[s.idx(n)];
            let x = amount(s, 1_000_000).min(pre.bal[who][c]);
            Op::Donate { who, c, p: q, x }
        }
        _ => Op::Wait(*s.pick(&[1, 3600, 36_000, 36_001, 86_399, 86_400, 86_401, 600_000, 12])),
    }
}
fn composed(s: &mut Src, pre: &Snap, who: usize, to: usize, late: bool, p: usize) -> Op {
    let metas: Vec<usize> = (0..pre.pools.len()).filter(|p| pre.pools[*p].meta.is_some()).collect();
    if metas.is_empty() {
        return Op::Wait(1);
    }
    let p = if s.ratio(1, 30) { p } else { *s.pick(&metas) };
    let q = if p < pre.pools.len() { p } else { metas[0] };
    let base = pre.pools[q].meta.as_ref().map_or(0, |m| m.base);
    let base = if s.ratio(1, 40) { s.idx(pre.pools.len() + 1) } else { base };
    let b = base.min(pre.pools.len() - 1);
    let (n, nb) = (pre.pools[q].cur.len(), pre.pools[b].cur.len());
    let (i, j) = (index(s, n), index(s, nb));
    let scale = *s.pick(&[1u128, 10, 1000, 1_000_000]);
    let mut x_of = |s: &mut Src, p: usize, i: u32| {
        let b = pre.pools[p].bal.get(i as usize).copied().unwrap_or(1000);
        amount(s, b / scale)
    };
    let min = |s: &mut Src, f: &dyn Fn(u128) -> Op| -> u128 {
        // the greatest that is accepted, or one more
        if s.bool() {
            return 0;
        }
        let op = f(0);
        let got = dry(|| {
            let c = match &op {
                Op::AddBoth { p, .. } => N + *p,
                Op::OneBoth { base, i, .. } | Op::ToBase { base, j: i, .. } => *pre.pools.get(*base)?.cur.get(*i as usize)?,
                Op::FromBase { p, j, .. } => *pre.pools.get(*p)?.cur.get(*j as usize)?,
                Op::Under { p, j, .. } => under(pre, *p)?.get(*j as usize).copied()?,
                _ => return None,
            };
            let had = bal(cur(c), &account(to));
            pbt::guarded(|| exec(&op)).ok()?.ok()?;
            bal(cur(c), &account(to)).checked_sub(had)
        });
        got.unwrap_or(0) + s.below(2) as u128
    };
    match s.weighted(&[3, 2, 2, 4, 4, 8]) {
        0 => {
            let mut x = amounts(s, pre, q);
            let y = if s.ratio(1, 8) { vec![0; nb] } else { amounts(s, pre, b) };
            if !s.ratio(1, 8) {
                if let Some(l) = x.last_mut() {
                    *l = 0;
                }
            }
            let f = |min| Op::AddBoth { who, p, base, x: x.clone(), y: y.clone(), min, to, late };
            f(min(s, &f))
        }
        1 => {
            let lp = part(s, pre.bal[who][N + q]);
            let m: Vec<u128> = pre.pools[q].bal.iter().map(|b| if s.ratio(1, 6) { md(*b, lp, pre.supply(q)).unwrap_or(0) + s.below(2) as u128 } else { 0 }).collect();
            let mb: Vec<u128> = (0..nb).map(|_| if s.ratio(1, 20) { s.u128(1_000_000) } else { 0 }).collect();
            Op::RemoveBoth { who, p, base, lp, min: m, min_base: mb, to, late }
        }
        2 => {
            let lp = part(s, pre.bal[who][N + q]);
            let f = |min| Op::OneBoth { who, p, base, lp, i: j, min, to, late };
            f(min(s, &f))
        }
        3 => {
            let x = x_of(s, b, j);
            let f = |min| Op::FromBase { who, p, base, i: j, j: i, x, min, to, late };
            f(min(s, &f))
        }
        4 => {
            let x = x_of(s, q, i);
            let f = |min| Op::ToBase { who, p, base, i, j, x, min, to, late };
            f(min(s, &f))
        }
        _ => {
            let all = under(pre, q).map_or(1, |u| u.len());
            let (i, j) = (index(s, all), index(s, all));
            let x = if (i as usize) + 1 < n { x_of(s, q, i) } else { x_of(s, b, i + 1 - n as u32) };
            let f = |min| Op::Under { who, p, i, j, x, min, to, late };
            f(min(s, &f))
        }
    }
}
/// the currencies of a pool on a pool, the base pool's in place of its shares
pub fn under(pre: &Snap, p: usize) -> Option<Vec<usize>> {
    let q = pre.pools.get(p)?;
    let m = q.meta.as_ref()?;
    Some(q.cur[..q.cur.len() - 1].iter().chain(&m.under).copied().collect())
}
pub struct Step<'a> {
    pub pre: &'a Snap,
    pub post: &'a Snap,
    pub op: &'a Op,
    pub ok: bool,
    pub err: &'a str,
}
pub fn setup(s: &mut Src) -> R {
    let dec: Vec<u32> = (0..N).map(|_| *s.pick(&[18, 12, 6, 8, 10, 0, 17])).collect();
    for u in 0..USERS {
        for c in 0..N {
            give(cur(c), &user(u), 10u128.pow(dec[c] + 9));
        }
    }
    let nb = s.int(2, 4) as usize;
    let base: Vec<usize> = (0..nb).collect();
    let mut pools = vec![base];
    let mut meta = vec![4];
    if s.ratio(1, 3) {
        meta.push(s.idx(4));
    }
    meta.push(N);
    pools.push(meta);
    if s.ratio(1, 2) {
        // another on the same pool, or on the one on it, or a plain one
        pools.push(match s.below(3) {
            0 => vec![3, N],
            1 => vec![s.idx(4), N + 1],
            _ => vec![2, 3, 4],
        });
    }
    for (p, curs) in pools.iter().enumerate() {
        let ids: Vec<CurrencyId> = curs.iter().map(|c| cur(*c)).collect();
        let decs: Vec<u32> = curs.iter().map(|c| if *c < N { dec[*c] } else { 18 }).collect();
        let a = *s.pick(&[100, 1, 10, 2000, 999_999, 37]);
        let fee = *s.pick(&[4_000_000, 0, 100_000_000, 1, 33_333_333]);
        let admin = *s.pick(&[DEN / 2, 0, DEN, 1, 3_333_333_333]);
        let r = if curs.last().unwrap() >= &N {
            Stable::create_meta_pool(root(), ids, decs, a, fee, admin, user(4), vec![b'a'])
        } else {
            Stable::create_base_pool(root(), ids, decs, a, fee, admin, user(4), vec![b'a'])
        };
        check!(r.is_ok(), "pool {p} of {curs:?}: {r:?}");
        if p + 1 == pools.len() && s.ratio(1, 8) {
            continue;
        }
        // what goes in first
        let size = s.int(0, 6) as u32;
        let x: Vec<u128> = curs
            .iter()
            .map(|c| {
                if *c >= N {
                    bal(cur(*c), &user(0)) / *s.pick(&[2, 3, 10, 1000])
                } else {
                    let u = 10u128.pow(dec[*c] + size);
                    u128::max(1, u / *s.pick(&[1u128, 2, 10, 1]) * *s.pick(&[1u128, 3, 1, 7]) + s.u128(u / 3))
                }
            })
            .collect();
        let r = tx(|| Stable::add_liquidity(by(0), p as u32, x.clone(), 0, user(0), 1000));
        if r.is_err() {
            break;
        }
        // the shares are spread
        let l = bal(cur(N + p), &user(0));
        for u in 1..USERS - 1 {
            send(cur(N + p), &user(0), &user(u), l / 6).unwrap();
        }
    }
    Ok(())
}
pub fn drive(s: &mut Src, mix: Mix, each: &mut dyn FnMut(&mut Src, &Step) -> R) -> R {
    open(vec![], || {
        setup(s)?;
        let mut pre = Snap::read();
        s.steps(8, 40, |s| {
            let op = pbt::guarded(|| gen(s, &pre, &mix))?;
            s.note(|| format!("{op:?}"));
            let root = storage_root();
            let r = pbt::guarded(|| exec(&op)).map_err(|e| format!("{op:?} panics: {e}"))?;
            let post = Snap::read();
            if r.is_err() {
                check_eq!(storage_root(), root, "{op:?} failed and left something");
            } else {
                s.label(op.name());
            }
            let err = r.as_ref().err().cloned().unwrap_or_default();
            each(s, &Step { pre: &pre, post: &post, op: &op, ok: r.is_ok(), err: &err })?;
            for (p, q) in post.pools.iter().enumerate() {
                for (k, c) in q.cur.iter().enumerate() {
                    check!(post.bal[USERS + p][*c] >= q.bal[k], "{op:?}: pool {p} holds {} of currency {k}, less than its book of {}", post.bal[USERS + p][*c], q.bal[k]);
                }
            }
            pre = post;
            Ok(())
        })
    })
}
pub fn judge(st: &Step) -> R {
    match must(st.pre, st.op) {
        Must::Refuse(why) => check!(!st.ok, "{:?} must be refused ({why})", st.op),
        Must::Accept => check!(st.ok, "{:?} was refused: {}; {:?}", st.op, st.err, (0..st.pre.pools.len()).map(|p| (st.pre.old(p), st.pre.stale(p))).collect::<Vec<_>>()),
        Must::Either => {}
    }
    if st.ok {
        follow(st.pre, st.op, st.post)?;
    }
    Ok(())
}
fn pool_of(op: &Op) -> usize {
    match op {
        Op::Swap { p, .. } | Op::Add { p, .. } | Op::Remove { p, .. } | Op::One { p, .. } | Op::Imbalance { p, .. } | Op::Under { p, .. } => *p,
        Op::AddBoth { p, .. } | Op::RemoveBoth { p, .. } | Op::OneBoth { p, .. } | Op::FromBase { p, .. } | Op::ToBase { p, .. } => *p,
        Op::Receiver(p, ..) | Op::Fee(p, ..) | Op::Admin(p, ..) | Op::Ramp(p, ..) | Op::Stop(p, ..) | Op::Withdraw(_, p) | Op::Donate { p, .. } => *p,
        Op::Wait(_) => 0,
    }
}
pub fn swaps(s: &mut Src) -> R {
    drive(s, SWAPS, &mut |s, st| {
        if !matches!(st.op, Op::Swap { .. } | Op::Withdraw(..) | Op::Donate { .. }) {
            return Ok(());
        }
        judge(st)?;
        if st.ok && matches!(st.op, Op::Swap { .. }) {
            s.nontrivial();
        }
        Ok(())
    })
}
/// no call takes from those who stay: the worth of a share does not fall
pub fn worth(s: &mut Src) -> R {
    let mix = if s.bool() { SWAPS } else { LIQ };
    drive(s, mix, &mut |s, st| {
        if !st.ok || matches!(st.op, Op::Wait(_) | Op::Ramp(..) | Op::Stop(..)) {
            return Ok(());
        }
        for p in 0..st.pre.pools.len() {
            let (a, b) = (st.pre.supply(p), st.post.supply(p));
            if a == 0 || b == 0 {
                continue;
            }
            // at the same price of the base pool's shares before and after
            let vp = st.post.pools[p].meta.as_ref().map(|m| m.vp);
            let (x, y) = (st.pre.curve(p, vp), st.post.curve(p, vp));
            if x.bal == y.bal && a == b {
                continue;
            }
            let solve = |c: &Curve| d_exact(&c.xp(&c.balances()), &c.ann());
            let (Some(dx), Some(dy)) = (d_iv(&x.xp(&x.balances()), &x.ann()), d_iv(&y.xp(&y.balances()), &y.ann())) else { continue };
            let (Some(ex), Some(ey)) = (solve(&x), solve(&y)) else { continue };
            s.nontrivial();
            // what was taken for D before counts for all shares there are then
            let before = (&dx.hi - &dx.lo) << K as usize;
            let mut slack = (&dy.hi - &dy.lo) << K as usize;
            // and the last digit of a balance may be worth much
            let xp = y.xp(&y.balances());
            for j in 0..xp.len() {
                let mut more = xp.clone();
                more[j] += 4;
                slack += d_exact(&more, &y.ann()).unwrap() - &ey;
            }
            // D before over shares before, against D after over shares after
            let (l, r) = ((&ex - before) * z(b), (&ey + slack) * z(a));
            check!(l <= r, "{:?}: what a share of pool {p} is worth fell: D {} over {a}, then {} over {b}", st.op, ex >> K as usize, ey >> K as usize);
        }
        Ok(())
    })
}
pub fn quotes(s: &mut Src) -> R {
    drive(s, SWAPS, &mut |s, st| {
        let pre = st.post;
        let p = s.idx(pre.pools.len());
        let n = pre.pools[p].cur.len();
        let Op::Swap { who, i, j, x, to, .. } = gen(s, pre, &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]) else { unreachable!() };
        let (iu, ju) = (i as usize, j as usize);
        let got = |op: Op, c: usize| {
            dry(|| {
                exec(&op).ok()?;
                Some(Snap::read().bal[to][c] - pre.bal[to][c])
            })
        };
        let told = pbt::guarded(|| Stable::stable_amm_calculate_swap_amount(p as u32, iu, ju, x))?;
        if iu < n && ju < n && iu != ju && pre.bal[who][pre.pools[p].cur[iu]] >= x {
            let out = got(Op::Swap { who, p, i, j, x, min: 0, to, late: false }, pre.pools[p].cur[ju]);
            match (told, out, pre.pools[p].meta.is_some()) {
                (Some(t), Some(o), false) => check!(t <= o && o - t <= 3, "told {t}, got {o} for {x} of {i} in {j} of pool {p}"),
                (Some(t), Some(o), true) => check_eq!(t, o, "told, and got, for {x} of {i} in {j} of pool {p}"),
                (None, Some(o), b) => check!(o <= 1 && !b, "{o} for {x} of {i} in {j} of pool {p}, though not told"),
                (Some(t), None, _) => fail!("told {t} for {x} of {i} in {j} of pool {p}, but refused"),
                (None, None, _) => {}
            }
            if told.is_some() {
                s.nontrivial();
            }
        } else if iu >= n || ju >= n || iu == ju {
            check_eq!(told, None, "told for {x} of {i} in {j} of pool {p}");
        }
        // shares for one currency, and for all
        let lp = part(s, pre.bal[who][N + p]);
        let told = pbt::guarded(|| Stable::stable_amm_calculate_remove_liquidity_one_currency(p as u32, lp, j))?;
        if ju < n && lp > 0 && lp <= pre.bal[who][N + p] {
            let out = got(Op::One { who, p, lp, i: j, min: 0, to, late: false }, pre.pools[p].cur[ju]);
            if out.is_some() || told.is_none() {
                check_eq!(told, out, "told, and got, for {lp} shares of pool {p} in {j}");
            }
        } else if ju >= n {
            check_eq!(told, None, "told for {lp} shares of pool {p} of {n} in {j}");
        }
        let told = Stable::stable_amm_calculate_remove_liquidity(p as u32, lp);
        let want: Option<Vec<u128>> = (lp <= pre.supply(p)).then(|| pre.pools[p].bal.iter().map(|b| md(*b, lp, pre.supply(p))).collect::<Option<_>>()).flatten();
        check_eq!(told, want, "told for {lp} shares of pool {p}");
        // what is added, or taken, without regard for fees
        let xs = amounts(s, pre, p);
        for add in [true, false] {
            let told = pbt::guarded(|| dry(|| Stable::stable_amm_calculate_currency_amount(p as u32, &xs, add)))?;
            if xs.len() != n {
                check!(told.is_err(), "told for {} amounts in pool {p} of {n}", xs.len());
                continue;
            }
            if let (Ok(t), false, 0) = (&told, add, pre.pools[p].fee) {
                // without fees what is taken costs more shares than it is worth, by the digit that is cut off
                let op = Op::Imbalance { who, p, x: xs.clone(), max: u128::MAX, to, late: false };
                let burn = probe(|| u128::MAX - issued(cur(N + p)), &op);
                check!(burn == 0 || burn > *t, "{burn} shares were taken for {xs:?} from pool {p}; told {t}");
            }
            if told.is_err() && pre.supply(p) > 0 {
                // what can be done is told (but for less than D's last digits)
                let n = if add {
                    got(Op::Add { who, p, x: xs.clone(), min: 0, to, late: false }, N + p)
                } else {
                    let burn = probe(|| u128::MAX - issued(cur(N + p)), &Op::Imbalance { who, p, x: xs.clone(), max: u128::MAX, to, late: false });
                    let d: u128 = pre.pools[p].bal.iter().min().copied().unwrap_or(0);
                    (burn > 64 && burn / 64 > pre.supply(p) / d.max(1)).then_some(burn)
                };
                check!(n.is_none(), "nothing told for {xs:?} (added: {add}) in pool {p}, though it comes to {n:?}");
            }
            let (Ok(t), Some(vp)) = (told, pre.price_of_base(p).map(|v| v.lo.to_u128()).or(pre.pools[p].meta.is_none().then_some(None))) else { continue };
            let c = pre.curve(p, vp);
            if lopsided(&c) || pre.supply(p) == 0 {
                continue;
            }
            let free = |c: &Curve| {
                let mut c = c.clone();
                (c.fee, c.admin) = (0, 0);
                Some((if add { c.add(&xs) } else { c.imbalance(&xs) })?.mint)
            };
            let Some(w) = blur(pre, p, &free) else { continue };
            check!(w.has(t), "told {t} for {xs:?} (added: {add}) in pool {p}, not {w:?}");
        }
        Ok(())
    })
}
pub fn liquidity(s: &mut Src) -> R {
    drive(s, LIQ, &mut |s, st| {
        if st.op.composed() || matches!(st.op, Op::Swap { .. }) {
            return Ok(());
        }
        judge(st)?;
        if st.ok && matches!(st.op, Op::Add { .. } | Op::Remove { .. } | Op::One { .. } | Op::Imbalance { .. }) {
            s.nontrivial();
        }
        Ok(())
    })
}
/// what a composed call is made of
fn parts(pre: &Snap, op: &Op) -> Option<()> {
    let lp_of = |u: usize, p: usize| bal(cur(N + p), &account(u));
    let meta_on = |p: usize, base: usize| -> Option<()> {
        (p < pre.pools.len() && base < pre.pools.len() && pre.pools[p].meta.as_ref()?.base == base).then_some(())
    };
    let run = |op: Op| exec(&op).ok();
    match op.clone() {
        Op::AddBoth { who, p, base, mut x, y, min, to, late } => {
            meta_on(p, base)?;
            if x.len() != pre.pools[p].cur.len() {
                return None;
            }
            let had = lp_of(who, base);
            if y.iter().any(|y| *y > 0) {
                run(Op::Add { who, p: base, x: y, min: 0, to: who, late })?;
            }
            *x.last_mut()? = lp_of(who, base) - had;
            run(Op::Add { who, p, x, min, to, late })
        }
        Op::RemoveBoth { who, p, base, lp, min, min_base, to, late } => {
            if base >= pre.pools.len() {
                return None;
            }
            let had = lp_of(who, base);
            run(Op::Remove { who, p, lp, min, to: who, late })?;
            run(Op::Remove { who, p: base, lp: lp_of(who, base).checked_sub(had)?, min: min_base, to, late })
        }
        Op::OneBoth { who, p, base, lp, i, min, to, late } => {
            meta_on(p, base)?;
            let had = lp_of(who, base);
            run(Op::One { who, p, lp, i: pre.pools[p].cur.len() as u32 - 1, min: 0, to: who, late })?;
            run(Op::One { who, p: base, lp: lp_of(who, base) - had, i, min, to, late })
        }
        Op::FromBase { who, p, base, i, j, x, min, to, late } => {
            meta_on(p, base)?;
            let mut y = vec![0; pre.pools[base].cur.len()];
            *y.get_mut(i as usize)? = x;
            let l = pre.pools[p].cur.len() as u32 - 1;
            if j == l {
                return run(Op::Add { who, p: base, x: y, min, to, late });
            }
            let had = lp_of(who, base);
            run(Op::Add { who, p: base, x: y, min: 0, to: who, late })?;
            run(Op::Swap { who, p, i: l, j, x: lp_of(who, base) - had, min, to, late })
        }
        Op::ToBase { who, p, base, i, j, x, min, to, late } => {
            if base >= pre.pools.len() || p >= pre.pools.len() {
                return None;
            }
            let l = pre.pools[p].cur.iter().position(|c| *c == N + base)? as u32;
            let had = lp_of(who, base);
            run(Op::Swap { who, p, i, j: l, x, min: 0, to: who, late })?;
            run(Op::One { who, p: base, lp: lp_of(who, base) - had, i: j, min, to, late })
        }
        Op::Under { who, p, i, j, x, min, to, late } => {
            let all = under(pre, p)?;
            let m = pre.pools[p].meta.as_ref()?;
            let l = pre.pools[p].cur.len() as u32 - 1;
            if i == j || i as usize >= all.len() || j as usize >= all.len() {
                return None;
            }
            match (i < l, j < l) {
                (true, true) => run(Op::Swap { who, p, i, j, x, min, to, late }),
                (false, true) => parts(pre, &Op::FromBase { who, p, base: m.base, i: i - l, j, x, min, to, late }),
                (true, false) => parts(pre, &Op::ToBase { who, p, base: m.base, i, j: j - l, x, min, to, late }),
                (false, false) => run(Op::Swap { who, p: m.base, i: i - l, j: j - l, x, min, to, late }),
            }
        }
        _ => Some(()),
    }
}
pub fn compositions(s: &mut Src) -> R {
    open(vec![], || {
        setup(s)?;
        let mut pre = Snap::read();
        s.steps(8, 40, |s| {
            let op = pbt::guarded(|| gen(s, &pre, &META))?;
            s.note(|| format!("{op:?}"));
            if !op.composed() {
                pbt::guarded(|| exec(&op)).map_err(|e| format!("{op:?} panics: {e}"))?.ok();
                pre = Snap::read();
                return Ok(());
            }
            let want = dry(|| {
                pbt::guarded(|| parts(&pre, &op)).map(|r| r.map(|_| Snap::read()))
            })?;
            let r = pbt::guarded(|| exec(&op)).map_err(|e| format!("{op:?} panics: {e}"))?;
            let mut post = Snap::read();
            match (&r, &want) {
                (Ok(()), Some(w)) => {
                    s.nontrivial();
                    s.label(op.name());
                    let p = pool_of(&op);
                    let after = post.clone();
                    if let Op::Under { .. } = op {
                        // a swap within the base pool also renews the price; it is read before the base pool changes
                        if pre.stale(p) {
                            price_used(&pre, &post, p)?;
                            let close = |a: &Snap, b: &Snap| a.pools[p].meta.as_ref().map(|m| m.vp) == b.pools[p].meta.as_ref().map(|m| m.vp);
                            if !close(&after, w) {
                                pre = post;
                                return Ok(());
                            }
                            post.pools[p].meta = w.pools[p].meta.clone();
                        }
                    }
                    if let Some(d) = diff(&post, w) {
                        fail!("{op:?} is not what it is made of: {d}");
                    }
                    post = after;
                }
                (Err(_), None) => check_eq!(post, pre, "{op:?} failed and left something"),
                // read before, the price may be another
                (Ok(()), None) if matches!(op, Op::Under { p, .. } if pre.stale(p)) => {}
                (Ok(()), None) => fail!("{op:?} went through though what it is made of does not"),
                (Err(e), Some(_)) => {
                    let ok = match &op {
                        // with nothing for the base pool the shares are not asked for
                        Op::AddBoth { .. } => false,
                        // read before, the price may be another
                        Op::Under { p, .. } => pre.stale(*p),
                        _ => false,
                    };
                    check!(ok, "{op:?} was refused ({e}) though what it is made of is not");
                    check_eq!(post, pre, "{op:?} failed and left something");
                }
            }
            pre = post;
            Ok(())
        })
    })
}
/// what is told of a swap between underlying currencies
pub fn under_quotes(s: &mut Src) -> R {
    drive(s, META, &mut |s, st| {
        let pre = st.post;
        let op = composed(s, pre, 0, 1, false, 1);
        let Op::Under { who, p, i, j, x, to, .. } = op else { return Ok(()) };
        let told = pbt::guarded(|| Stable::calculate_meta_swap_underlying(p as u32, x, i as usize, j as usize))?.ok();
        let Some(all) = under(pre, p) else {
            check_eq!(told, None, "told of pool {p}");
            return Ok(());
        };
        let l = pre.pools[p].cur.len() as u32 - 1;
        if i == j || i as usize >= all.len() || j as usize >= all.len() {
            check_eq!(told, None, "told for {i} in {j} of pool {p}");
            return Ok(());
        }
        if pre.stale(p) {
            return Ok(());
        }
        let c = all[j as usize];
        let got = dry(|| {
            exec(&Op::Under { who, p, i, j, x, min: 0, to, late: false }).ok()?;
            Some(Snap::read().bal[to][c] - pre.bal[to][c])
        });
        let base = pre.pools[p].meta.as_ref().unwrap().base;
        if let (None, Some(g)) = (told, got) {
            let (cb, cm) = (pre.old(base), pre.old(p));
            check!(g < 1000 || lopsided(&cb) || lopsided(&cm), "{g} for {x} of {i} in {j} of pool {p}, though not told");
        }
        let (Some(t), Some(g)) = (told, got) else { return Ok(()) };
        s.nontrivial();
        match (i < l, j < l) {
            (true, true) => check_eq!(t, g, "told, and got, for {x} of {i} in {j}"),
            (false, false) if pre.pools[base].meta.is_none() => check!(t <= g && g - t <= 3, "told {t}, got {g} for {x} of {i} in {j}"),
            (false, false) => check_eq!(t, g, "told, and got, for {x} of {i} in {j}"),
            (true, false) => {
                // shares of the base pool may differ by one
                let d = t.abs_diff(g);
                check!(d <= g / 1_000_000_000 + 4, "told {t}, got {g} for {x} of {i} in {j}");
            }
            (false, true) => {
                // only estimated: the fee of the base pool is taken for half
                let (cb, cm) = (pre.old(base), pre.old(p));
                let small = x <= pre.pools[base].bal[(i - l) as usize] / 200 && g >= 100_000 && g <= pre.pools[p].bal[j as usize] / 200;
                let even = |c: &Curve| {
                    let xp = c.xp(&c.balances());
                    let (a, b) = (xp.iter().min().unwrap().clone(), xp.iter().max().unwrap().clone());
                    b <= a * z(20)
                };
                if small && even(&cb) && even(&cm) && !lopsided(&cb) && !lopsided(&cm) {
                    s.label("estimated");
                    let d = t.abs_diff(g);
                    check!(d <= g / 25 + 10, "told {t}, got {g} for {x} of {i} in {j}");
                }
            }
        }
        Ok(())
    })
}
