//! Pairs: what they look like, the calls, and what each must do.
use crate::rt::*;
use dex_general::{KLast, PairStatuses};
use dex_general::PairStatus;
use pbt::{check, check_eq, fail, Src, R};

pub const N: usize = 4;
pub const P: usize = 6;
pub const USERS: usize = 5;
/// users, then the accounts of the pairs
pub const ACCS: usize = USERS + P;
/// the assets, in the order of their ids, then three that cannot be in a pair
pub fn assets() -> [CurrencyId; N + 3] {
    let mut a = [Token(DOT), Token(IBTC), ForeignAsset(1), StableLpToken(7)];
    a.sort();
    [a[0], a[1], a[2], a[3], LendToken(1), LpToken(primitives::LpToken::Token(DOT), primitives::LpToken::Token(KSM)), BARRED]
}
pub const PAIRS: [(usize, usize); P] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
pub fn pair_of(a: usize, b: usize) -> Option<usize> {
    PAIRS.iter().position(|p| *p == (a.min(b), a.max(b)))
}
pub fn lp(p: usize) -> CurrencyId {
    let a = assets();
    CurrencyId::join_lp_token(a[PAIRS[p].0], a[PAIRS[p].1]).unwrap()
}
pub fn account(i: usize) -> Acc {
    if i < USERS {
        return user(i);
    }
    let (x, y) = PAIRS[i - USERS];
    General::pair_account_id(assets()[x], assets()[y])
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pair {
    pub open: bool,
    pub total: u128,
    pub rate: u128,
    pub k_last: BigInt,
    pub issued: u128,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    /// of each account: the assets, then the shares of the pairs
    pub bal: Vec<Vec<u128>>,
    pub pairs: Vec<Pair>,
    pub fee_to: Option<usize>,
    pub point: u8,
}
pub fn u256(x: sp_core::U256) -> BigInt {
    let mut b = [0u8; 32];
    x.to_little_endian(&mut b);
    BigInt::from_bytes_le(num_bigint::Sign::Plus, &b)
}
pub use mockrt::num_bigint;
impl Snap {
    pub fn read() -> Snap {
        let a = assets();
        let bal = (0..ACCS)
            .map(|i| {
                let who = account(i);
                (0..N).map(|c| bal(a[c], &who)).chain((0..P).map(|p| bal(lp(p), &who))).collect()
            })
            .collect();
        let pairs = PAIRS
            .iter()
            .enumerate()
            .map(|(p, (x, y))| {
                let key = (a[*x], a[*y]);
                let (open, total, rate) = match PairStatuses::<Test>::get(key) {
                    PairStatus::Trading(m) => (true, m.total_supply, m.fee_rate),
                    _ => (false, 0, 30),
                };
                Pair { open, total, rate, k_last: u256(KLast::<Test>::get(key)), issued: issued(lp(p)) }
            })
            .collect();
        let (to, point) = General::fee_meta();
        Snap { bal, pairs, fee_to: to.map(|t| (0..USERS).find(|i| user(*i) == t).unwrap()), point }
    }
    /// what the pair holds of an asset
    pub fn held(&self, p: usize, asset: usize) -> u128 {
        self.bal[USERS + p][asset]
    }
    pub fn k(&self, p: usize) -> BigInt {
        big(self.held(p, PAIRS[p].0)) * big(self.held(p, PAIRS[p].1))
    }
    fn pay(&mut self, asset: usize, from: usize, to: usize, x: u128) -> Option<()> {
        let left = self.bal[from][asset].checked_sub(x)?;
        self.bal[from][asset] = left;
        self.bal[to][asset] = self.bal[to][asset].checked_add(x)?;
        Some(())
    }
    /// what a path gives for each amount
    pub fn outs(&self, x: u128, path: &[usize]) -> Option<Vec<u128>> {
        let mut v = vec![x];
        for w in path.windows(2) {
            let p = pair_of(w[0], w[1])?;
            let (ri, ro, fee) = (self.held(p, w[0]), self.held(p, w[1]), self.pairs[p].rate);
            let i = big(*v.last().unwrap()) * big(10_000 - fee);
            if ri == 0 || ro == 0 {
                return None;
            }
            let out = (&i * big(ro) / (big(ri) * big(10_000) + &i)).to_u128()?;
            if out == 0 {
                return None;
            }
            v.push(out);
        }
        (v.len() > 1).then_some(v)
    }
    pub fn ins(&self, out: u128, path: &[usize]) -> Option<Vec<u128>> {
        let mut v = vec![out];
        for w in path.windows(2).rev() {
            let p = pair_of(w[0], w[1])?;
            let (ri, ro, fee) = (self.held(p, w[0]), self.held(p, w[1]), self.pairs[p].rate);
            let o = *v.last().unwrap();
            if ri == 0 || o == 0 || o >= ro {
                return None;
            }
            v.push((big(ri) * big(o) * big(10_000) / (big(ro - o) * big(10_000 - fee)) + big(1)).to_u128()?);
        }
        v.reverse();
        (v.len() > 1).then_some(v)
    }
    pub fn swap(mut self, who: usize, amounts: &[u128], path: &[usize], to: usize) -> Option<Snap> {
        let ps: Option<Vec<usize>> = path.windows(2).map(|w| pair_of(w[0], w[1])).collect();
        let ps = ps?;
        self.pay(path[0], who, USERS + ps[0], amounts[0])?;
        for (i, p) in ps.iter().enumerate() {
            if !self.pairs[*p].open {
                return None;
            }
            let next = ps.get(i + 1).map(|q| USERS + q).unwrap_or(to);
            self.pay(path[i + 1], USERS + p, next, amounts[i + 1])?;
        }
        Some(self)
    }
    /// the part of the growth of the pair that is the protocol's, in shares
    pub fn due(&self, p: usize) -> u128 {
        let k = &self.pairs[p];
        if self.fee_to.is_none() || k.k_last.is_zero() {
            return 0;
        }
        let (now, last) = (sqrt(&self.k(p)), sqrt(&k.k_last));
        if now <= last {
            return 0;
        }
        (big(k.total) * (&now - &last) / (&now * big(self.point as u128) + &last)).to_u128().unwrap_or(0)
    }
    fn charge(&mut self, p: usize) -> Option<()> {
        let due = self.due(p);
        if let Some(f) = self.fee_to {
            self.issue(p, f, due)?;
        } else {
            self.pairs[p].k_last = big(0);
        }
        Some(())
    }
    fn issue(&mut self, p: usize, to: usize, x: u128) -> Option<()> {
        self.bal[to][N + p] = self.bal[to][N + p].checked_add(x)?;
        self.pairs[p].total = self.pairs[p].total.checked_add(x)?;
        self.pairs[p].issued = self.pairs[p].issued.checked_add(x)?;
        Some(())
    }
    fn remember(&mut self, p: usize) {
        if self.fee_to.is_some() {
            self.pairs[p].k_last = self.k(p);
        }
    }
}

pub fn share(x: u128, of: u128, total: u128) -> u128 {
    md(x, total, of).unwrap_or(0)
}

#[derive(Clone, Debug)]
pub enum Op {
    In { who: usize, x: u128, min: u128, path: Vec<usize>, to: usize, late: bool },
    Out { who: usize, x: u128, max: u128, path: Vec<usize>, to: usize, late: bool },
    Add { who: usize, a: usize, b: usize, want: (u128, u128), min: (u128, u128), late: bool },
    Remove { who: usize, a: usize, b: usize, x: u128, min: (u128, u128), to: usize, late: bool },
    Donate { who: usize, asset: usize, p: usize, x: u128 },
    FeeTo(Option<usize>),
    Point(u8),
    Rate(usize, usize, u128),
    Create(usize, usize, u128),
}
pub enum Want {
    Refused(&'static str),
    Done(Snap),
    Open,
}
impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::In { path, .. } | Op::Out { path, .. } if revisits(path) => "swap through a pair twice",
            Op::In { .. } => "swap of an exact amount",
            Op::Out { .. } => "swap for an exact amount",
            Op::Add { .. } => "add",
            Op::Remove { .. } => "remove",
            Op::Donate { .. } => "donate",
            Op::FeeTo(_) | Op::Point(_) => "protocol fee",
            Op::Rate(..) => "fee rate",
            Op::Create(..) => "create",
        }
    }
    pub fn is_swap(&self) -> bool {
        matches!(self, Op::In { .. } | Op::Out { .. })
    }
}
pub fn revisits(path: &[usize]) -> bool {
    let ps: Vec<_> = path.windows(2).map(|w| (w[0].min(w[1]), w[0].max(w[1]))).collect();
    (1..ps.len()).any(|i| ps[..i].contains(&ps[i]))
}
fn deadline(late: bool) -> u64 {
    System::block_number() + !late as u64
}
pub fn exec(op: &Op) -> Result<(), String> {
    let a = assets();
    let ids = |p: &[usize]| p.iter().map(|i| a[*i]).collect::<Vec<_>>();
    let e = |r: frame_support::dispatch::DispatchResult| r.map_err(|e| format!("{e:?}"));
    match op.clone() {
        Op::In { who, x, min, path, to, late } => e(tx(|| General::swap_exact_assets_for_assets(by(who), x, min, ids(&path), account(to), deadline(late)))),
        Op::Out { who, x, max, path, to, late } => e(tx(|| General::swap_assets_for_exact_assets(by(who), x, max, ids(&path), account(to), deadline(late)))),
        Op::Add { who, a: i, b: j, want, min, late } => e(tx(|| General::add_liquidity(by(who), a[i], a[j], want.0, want.1, min.0, min.1, deadline(late)))),
        Op::Remove { who, a: i, b: j, x, min, to, late } => e(tx(|| General::remove_liquidity(by(who), a[i], a[j], x, min.0, min.1, account(to), deadline(late)))),
        Op::Donate { who, asset, p, x } => send(a[asset], &user(who), &account(USERS + p), x),
        Op::FeeTo(t) => e(tx(|| General::set_fee_receiver(root(), t.map(user)))),
        Op::Point(x) => e(tx(|| General::set_fee_point(root(), x))),
        Op::Rate(i, j, f) => e(tx(|| General::set_exchange_fee(root(), a[i], a[j], f))),
        Op::Create(i, j, f) => e(tx(|| General::create_pair(root(), a[i], a[j], f))),
    }
}
/// the part of the wanted amounts that keeps the proportion
pub fn fit(want: (u128, u128), r: (u128, u128)) -> (u128, u128) {
    if r.0 == 0 || r.1 == 0 {
        return want;
    }
    let b = share(want.0, r.0, r.1);
    if big(want.0) * big(r.1) / big(r.0) <= big(want.1) {
        (want.0, b)
    } else {
        (share(want.1, r.1, r.0), want.1)
    }
}
pub fn want(pre: &Snap, op: &Op) -> Want {
    use Want::*;
    let mut s = pre.clone();
    macro_rules! or {
        ($e:expr, $why:expr) => {
            match $e {
                Some(x) => x,
                None => return Refused($why),
            }
        };
    }
    macro_rules! need {
        ($e:expr, $why:expr) => {
            if !$e {
                return Refused($why);
            }
        };
    }
    match op.clone() {
        Op::In { who, x, min, path, to, late } => {
            need!(!late, "too late");
            let v = or!(pre.outs(x, &path), "no such path, or nothing comes out");
            need!(*v.last().unwrap() >= min, "less than asked");
            if revisits(&path) {
                return Open;
            }
            s = or!(s.swap(who, &v, &path, to), "not enough, or a pair is not open");
        }
        Op::Out { who, x, max, path, to, late } => {
            need!(!late, "too late");
            let v = or!(pre.ins(x, &path), "no such path, or not so much there");
            need!(v[0] <= max, "more than offered");
            if revisits(&path) {
                return Open;
            }
            s = or!(s.swap(who, &v, &path, to), "not enough, or a pair is not open");
        }
        Op::Add { who, a, b, want, min, late } => {
            need!(!late, "too late");
            let p = or!(pair_of(a, b), "no such pair");
            need!(pre.pairs[p].open, "not open");
            let r = (pre.held(p, a), pre.held(p, b));
            let got = fit(want, r);
            let fresh = r.0 == 0 || r.1 == 0;
            need!(fresh || got.0 >= min.0 && got.1 >= min.1, "less than asked");
            or!(s.charge(p), "overflow");
            let total = s.pairs[p].total;
            let mint = if total == 0 {
                sqrt(&(big(got.0) * big(got.1))).to_u128().unwrap_or(0)
            } else {
                share(got.0, r.0, total).min(share(got.1, r.1, total))
            };
            need!(mint > 0, "no share");
            or!(s.issue(p, who, mint), "overflow");
            or!(s.pay(a, who, USERS + p, got.0), "not enough");
            or!(s.pay(b, who, USERS + p, got.1), "not enough");
            s.remember(p);
        }
        Op::Remove { who, a, b, x, min, to, late } => {
            need!(!late, "too late");
            let p = or!(pair_of(a, b), "no such pair");
            need!(pre.pairs[p].open, "not open");
            let r = (pre.held(p, a), pre.held(p, b));
            or!(s.charge(p), "overflow");
            let total = s.pairs[p].total;
            let got = (share(x, total, r.0), share(x, total, r.1));
            need!(s.bal[who][N + p] >= x, "not enough shares");
            need!(got.0 >= min.0 && got.1 >= min.1, "less than asked");
            s.bal[who][N + p] -= x;
            s.pairs[p].total -= x;
            s.pairs[p].issued -= x;
            or!(s.pay(a, USERS + p, to, got.0), "not enough there");
            or!(s.pay(b, USERS + p, to, got.1), "not enough there");
            s.remember(p);
        }
        Op::Donate { who, asset, p, x } => or!(s.pay(asset, who, USERS + p, x), "not enough"),
        Op::FeeTo(t) => s.fee_to = t,
        Op::Point(x) => s.point = x,
        Op::Rate(a, b, f) => {
            need!(f < 10_000, "too high");
            let p = or!(pair_of(a, b), "no such pair");
            need!(pre.pairs[p].open, "not open");
            s.pairs[p].rate = f;
        }
        Op::Create(a, b, f) => {
            need!(f < 10_000, "too high");
            let p = or!(pair_of(a, b), "no such pair");
            need!(!pre.pairs[p].open, "there already");
            s.pairs[p].open = true;
            s.pairs[p].rate = f;
        }
    }
    Done(s)
}
pub fn diff(got: &Snap, want: &Snap) -> Option<String> {
    for i in 0..ACCS {
        for c in 0..N + P {
            if got.bal[i][c] != want.bal[i][c] {
                let what = if c < N { format!("asset {c}") } else { format!("share {:?}", PAIRS[c - N]) };
                let who = if i < USERS { format!("user {i}") } else { format!("pair {:?}", PAIRS[i - USERS]) };
                return Some(format!("{who} has {} of {what}, not {}", got.bal[i][c], want.bal[i][c]));
            }
        }
    }
    for p in 0..P {
        if got.pairs[p] != want.pairs[p] {
            return Some(format!("pair {:?}: {:?}, not {:?}", PAIRS[p], got.pairs[p], want.pairs[p]));
        }
    }
    (got != want).then(|| format!("protocol fee {:?} {}, not {:?} {}", got.fee_to, got.point, want.fee_to, want.point))
}

fn rate(s: &mut Src) -> u128 {
    *s.pick(&[30, 0, 1, 100, 5000, 9999, 10_000])
}
pub fn amount(s: &mut Src, around: u128) -> u128 {
    match s.weighted(&[6, 2, 1]) {
        0 => s.u128(around.saturating_mul(2).max(10)),
        1 => around.saturating_add(1) - s.u128(2).min(around),
        _ => s.u128(100),
    }
}
fn two(s: &mut Src) -> (usize, usize) {
    let (a, b) = PAIRS[s.idx(P)];
    if s.bool() {
        (b, a)
    } else {
        (a, b)
    }
}
pub fn near(s: &mut Src, x: u128) -> u128 {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => 0,
        1 => x,
        2 => x.saturating_sub(1),
        _ => x.saturating_add(1),
    }
}
/// chances of: in, out, add, remove, donate, fee, point, rate, create
pub type Mix = [u64; 9];
pub const SWAPS: Mix = [12, 12, 3, 1, 1, 1, 1, 2, 1];
pub const SHARES: Mix = [4, 3, 9, 9, 2, 2, 1, 1, 1];
pub fn path(s: &mut Src) -> Vec<usize> {
    let len = *s.pick(&[2, 3, 2, 4, 5, 6, 1]);
    let mut v: Vec<usize> = vec![];
    while v.len() < len {
        let n = v.len();
        let c = if s.ratio(1, 150) {
            s.idx(N + 3)
        } else if n >= 3 && s.bool() {
            v[n - 3]
        } else {
            s.idx(N)
        };
        // not the same twice in a row, or hardly ever
        let c = if n > 0 && v[n - 1] == c && !s.ratio(1, 40) { (c + 1) % N } else { c };
        v.push(c);
    }
    v
}
pub fn gen(s: &mut Src, pre: &Snap, mix: &Mix) -> Op {
    let who = s.idx(USERS);
    let late = s.ratio(1, 60);
    let to = if s.ratio(1, 40) { s.idx(ACCS) } else { s.idx(USERS) };
    match s.weighted(mix) {
        0 => {
            let path = path(s);
            let p = path.get(1).and_then(|b| pair_of(path[0], *b));
            let x = amount(s, p.map_or(1000, |p| pre.held(p, path[0])));
            let out = pre.outs(x, &path).map_or(0, |v| *v.last().unwrap());
            Op::In { who, x, min: near(s, out), path, to, late }
        }
        1 => {
            let path = path(s);
            let n = path.len();
            let p = if n > 1 { pair_of(path[n - 2], path[n - 1]) } else { None };
            let x = amount(s, p.map_or(1000, |p| pre.held(p, path[n - 1]) / 2));
            let need = pre.ins(x, &path).map_or(0, |v| v[0]);
            let max = if s.bool() { u128::MAX } else { near(s, need) };
            Op::Out { who, x, max, path, to, late }
        }
        2 => {
            let (a, b) = two(s);
            let p = pair_of(a, b).unwrap();
            let r = (pre.held(p, a), pre.held(p, b));
            let want = if r.0 == 0 || r.1 == 0 {
                (s.u128(pre.bal[who][a]), s.u128(pre.bal[who][b]))
            } else {
                (amount(s, r.0), amount(s, r.1))
            };
            let got = fit(want, r);
            let min = (near(s, got.0), near(s, got.1));
            Op::Add { who, a, b, want, min: (min.0.min(want.0), min.1.min(want.1)), late }
        }
        3 => {
            let (mut a, mut b) = two(s);
            let mine: Vec<_> = (0..P).filter(|p| pre.bal[who][N + p] > 0).collect();
            if !mine.is_empty() && !s.ratio(1, 10) {
                (a, b) = PAIRS[*s.pick(&mine)];
            }
            let p = pair_of(a, b).unwrap();
            let have = pre.bal[who][N + p];
            let x = match s.weighted(&[3, 4, 1]) {
                0 => have,
                1 => s.u128(have),
                _ => s.u128(have.saturating_add(10)),
            };
            let total = pre.pairs[p].total + pre.due(p);
            let min = (near(s, share(x, total, pre.held(p, a))), near(s, share(x, total, pre.held(p, b))));
            Op::Remove { who, a, b, x, min, to, late }
        }
        4 => {
            let p = s.idx(P);
            let asset = if s.bool() { PAIRS[p].0 } else { PAIRS[p].1 };
            let x = amount(s, pre.held(p, asset) / 10);
            Op::Donate { who, asset, p, x: x.min(pre.bal[who][asset]) }
        }
        5 => Op::FeeTo(s.ratio(3, 4).then(|| s.idx(USERS))),
        6 => Op::Point(*s.pick(&[0, 1, 5, 30, 255])),
        7 => {
            let (a, b) = two(s);
            Op::Rate(a, b, rate(s))
        }
        _ => {
            let (a, b) = if s.ratio(1, 8) { (s.idx(N + 3), s.idx(N + 3)) } else { two(s) };
            Op::Create(a, b, rate(s))
        }
    }
}

pub struct Step<'a> {
    pub pre: &'a Snap,
    pub post: &'a Snap,
    pub op: &'a Op,
    pub ok: bool,
}
pub fn drive(s: &mut Src, mix: Mix, each: &mut dyn FnMut(&mut Src, &Step) -> R) -> R {
    let scale = s.uniform(10, 100);
    let a = assets();
    let mut balances = vec![];
    for i in 0..USERS {
        for c in 0..N {
            let x = s.u128(1 << scale);
            balances.push((user(i), a[c], x));
        }
    }
    open(balances, || {
        for p in 0..P {
            if s.ratio(4, 5) {
                let (x, y) = PAIRS[p];
                let fee = if s.ratio(3, 4) { 30 } else { rate(s).min(9999) };
                General::create_pair(root(), a[x], a[y], fee).map_err(|e| format!("{e:?}"))?;
            }
        }
        let mut pre = Snap::read();
        let mut n = 0;
        s.steps(6, 40, |s| {
            n += 1;
            // the pairs are first given something to trade with
            let op = gen(s, &pre, if n <= 6 { &[0, 0, 1, 0, 0, 0, 0, 0, 0] } else { &mix });
            let root = storage_root();
            let res = pbt::guarded(|| exec(&op))?;
            s.note(|| format!("{op:?} -> {res:?}"));
            if res.is_ok() {
                s.label(op.name());
            } else {
                check!(storage_root() == root, "{op:?} was refused ({res:?}) and yet changed something");
            }
            let post = Snap::read();
            each(s, &Step { pre: &pre, post: &post, op: &op, ok: res.is_ok() })?;
            pre = post;
            Ok(())
        })
    })
}
fn follow(st: &Step) -> R {
    match want(st.pre, st.op) {
        Want::Refused(why) => check!(!st.ok, "{:?} must be refused ({why})", st.op),
        Want::Done(w) => {
            check!(st.ok, "{:?} was refused", st.op);
            if let Some(d) = diff(st.post, &w) {
                fail!("after {:?}: {d}", st.op)
            }
        }
        Want::Open => (),
    }
    Ok(())
}
pub fn swaps(s: &mut Src) -> R {
    drive(s, SWAPS, &mut |s, st| {
        if !st.op.is_swap() && !matches!(st.op, Op::Rate(..)) {
            return Ok(());
        }
        follow(st)?;
        if !st.ok || !st.op.is_swap() {
            return Ok(());
        }
        s.nontrivial();
        for p in 0..P {
            check!(st.post.k(p) >= st.pre.k(p), "{:?} took from pair {:?}: its product fell from {} to {}", st.op, PAIRS[p], st.pre.k(p), st.post.k(p));
            check_eq!(st.post.pairs[p], st.pre.pairs[p], "the book of {:?}", PAIRS[p]);
        }
        for c in 0..N + P {
            let sum = |x: &Snap| x.bal.iter().map(|b| big(b[c])).sum::<BigInt>();
            check_eq!(sum(st.post), sum(st.pre), "sum of {c}");
        }
        // who pays is told beforehand what, and the recipient gets it
        let (who, to, path, paid, got, min, max) = match st.op {
            Op::In { who, x, min, path, to, .. } => (*who, *to, path, *x, *st.pre.outs(*x, path).unwrap().last().unwrap(), *min, u128::MAX),
            Op::Out { who, x, max, path, to, .. } => (*who, *to, path, st.pre.ins(*x, path).unwrap()[0], *x, 0, *max),
            _ => unreachable!(),
        };
        check!(got >= min && paid <= max, "{:?}: paid {paid} for {got}", st.op);
        let (from, into) = (path[0], *path.last().unwrap());
        for i in 0..USERS {
            for c in 0..N {
                let less = if i == who && c == from { big(paid) } else { big(0) };
                let more = if i == to && c == into { big(got) } else { big(0) };
                check_eq!(big(st.post.bal[i][c]), big(st.pre.bal[i][c]) - less + more, "user {i}'s asset {c}");
            }
        }
        Ok(())
    })
}
/// what is asked for beforehand is what comes out
pub fn quotes(s: &mut Src) -> R {
    drive(s, SWAPS, &mut |s, st| {
        let a = assets();
        let p = path(s);
        let ids: Vec<_> = p.iter().map(|i| a[*i]).collect();
        let x = amount(s, if p.len() > 1 { pair_of(p[0], p[1]).map_or(100, |q| st.post.held(q, p[0])) } else { 100 });
        let outs = pbt::guarded(|| General::get_amount_out_by_path(x, &ids))?.ok();
        let ins = pbt::guarded(|| General::get_amount_in_by_path(x, &ids))?.ok();
        let model = st.post.outs(x, &p);
        check_eq!(outs, model, "given {x} along {p:?}");
        check_eq!(General::supply_out_amount(x, ids.clone()), model.as_ref().map_or(0, |v| *v.last().unwrap()), "told for {x} along {p:?}");
        let back = st.post.ins(x, &p);
        check_eq!(ins, back, "for {x} along {p:?}");
        check_eq!(General::desired_in_amount(x, ids), back.as_ref().map_or(0, |v| v[0]), "told for {x} along {p:?}");
        if let Some(v) = &model {
            s.nontrivial();
            // what is needed to get that much is no more than what gave it, and gives it
            let out = *v.last().unwrap();
            if let (2, Some(w)) = (p.len(), st.post.ins(out, &p)) {
                check!(w[0] <= x.saturating_add(1), "{out} needs {} though {x} gave it", w[0]);
                check!(st.post.outs(w[0], &p).map_or(false, |v| v[1] >= out), "{} does not give {out}", w[0]);
            }
        }
        Ok(())
    })
}
pub fn shares(s: &mut Src) -> R {
    drive(s, SHARES, &mut |s, st| {
        if st.op.is_swap() {
            return Ok(());
        }
        follow(st)?;
        if st.ok && matches!(st.op, Op::Add { .. } | Op::Remove { .. }) {
            s.nontrivial()
        }
        Ok(())
    })
}
/// the shares of a pair are its book, and are worth more with every call, but for what the protocol takes
pub fn worth(s: &mut Src) -> R {
    drive(s, SHARES, &mut |s, st| {
        for p in 0..P {
            let (x, y) = (&st.pre.pairs[p], &st.post.pairs[p]);
            check_eq!(y.issued, y.total, "issued shares of {:?} and the recorded supply", PAIRS[p]);
            check!(y.total == 0 || !st.post.k(p).is_zero(), "pair {:?} has shares and nothing to trade with", PAIRS[p]);
            if x.total == 0 || y.total == 0 {
                continue;
            }
            // after the protocol has taken its part
            let due = |s: &Snap| big(s.pairs[p].total) + big(s.due(p));
            let (before, after) = if st.pre.fee_to == st.post.fee_to && st.pre.point == st.post.point {
                (due(st.pre), due(st.post))
            } else {
                (big(x.total), big(y.total))
            };
            let _ = s;
            // what is taken out of one pair may be sent to the account of another, or of the same
            let given = matches!(st.op, Op::Remove { a, b, to, .. } if *to == USERS + p && pair_of(*a, *b) != Some(p));
            if matches!(st.op, Op::Remove { to, .. } if *to == USERS + p && !given) {
                continue;
            }
            if st.op.is_swap() || given || matches!(st.op, Op::Donate { .. }) {
                check_eq!(x.total, y.total, "shares of {:?}", PAIRS[p]);
                continue;
            }
            check!(
                st.post.k(p) * &before * &before >= st.pre.k(p) * &after * &after,
                "after {:?} a share of pair {:?} is worth less: {} of {} in {before}, then {} in {after}",
                st.op,
                PAIRS[p],
                st.pre.k(p),
                x.total,
                st.post.k(p)
            );
            if st.ok && (x.total, y.total) != (y.total, x.total) {
                s.nontrivial();
            }
        }
        Ok(())
    })
}
/// what is told of a pair
pub fn told(s: &mut Src) -> R {
    drive(s, SHARES, &mut |s, st| {
        let a = assets();
        let p = s.idx(P);
        let (x, y) = if s.bool() { PAIRS[p] } else { (PAIRS[p].1, PAIRS[p].0) };
        let n = st.post;
        let info = General::get_pair_by_asset_id(a[x], a[y]);
        check_eq!(info.is_some(), n.pairs[p].open, "told of {:?}", PAIRS[p]);
        if let Some(i) = info {
            check_eq!((i.asset_0, i.asset_1, i.account, i.lp_asset_id, i.status), (a[x], a[y], account(USERS + p), lp(p), 0), "told of {:?}", PAIRS[p]);
            check_eq!((i.total_liquidity, i.reserve_0, i.reserve_1), (n.pairs[p].total, n.held(p, x), n.held(p, y)), "told of {:?}", PAIRS[p]);
        }
        let r = (n.held(p, x), n.held(p, y));
        let total = n.pairs[p].total;
        if !n.pairs[p].open || total == 0 {
            return Ok(());
        }
        // what shares give, before the protocol's part
        let q = s.u128(total);
        check_eq!(General::calculate_remove_liquidity(a[x], a[y], q), Some((share(q, total, r.0), share(q, total, r.1))), "told of {q} shares");
        let want = (amount(s, r.0), amount(s, r.1));
        let got = fit(want, r);
        let lp = share(got.0, r.0, total).min(share(got.1, r.1, total));
        check_eq!(General::get_estimate_lptoken(a[x], a[y], want.0, want.1, 0, 0), lp, "told of {want:?}");
        s.nontrivial();
        Ok(())
    })
}
