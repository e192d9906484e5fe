//! Voting power: what is locked, for how long, and what it counts for.
use crate::rt::*;
use pbt::{check, check_eq, Src, R};

pub const USERS: usize = 4;
const N: CurrencyId = Token(INTR);

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Lock {
    pub amount: u128,
    pub end: u64,
    /// when it was last looked at, and what it counted for then
    pub at: u64,
    pub stake: u128,
}
impl Lock {
    /// a part of the amount for each block to the end, of the longest period there is
    pub fn power(&self, h: u64) -> u128 {
        self.amount / MaxPeriod::get() as u128 * self.end.saturating_sub(h) as u128
    }
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub lock: [Option<Lock>; USERS],
    pub limit: [Option<(u64, u64)>; USERS],
    pub blocked: [bool; USERS],
}
#[derive(Clone, Debug)]
pub enum Op {
    Create(usize, u128, u64),
    More(usize, u128),
    Longer(usize, u64),
    Withdraw(usize),
    Update(usize, usize),
    Limit(bool, usize, u64, u64),
    Block(bool, usize),
    Send(usize, usize, u128),
    Reserve(usize, u128),
    Wait(u64),
}
/// what must come of it: some if it must go through or be refused
pub enum Want {
    Must,
    Refused(&'static str),
    Either,
}
/// the most that may be locked by whom: surely, and at the outside
fn lockable(m: &Model, u: usize) -> (u128, u128) {
    let free = bal(N, &user(u));
    if m.blocked[u] {
        return (0, 0);
    }
    match m.limit[u] {
        None => (free, free),
        Some((a, b)) => {
            let t = b.saturating_sub(a) as u128;
            if t == 0 {
                return (0, 0);
            }
            let gone = (now().min(b).saturating_sub(a) as u128).min(t);
            let most = (big(free) * big(gone) / big(t)).to_u128().unwrap();
            (free / t * gone, most)
        }
    }
}
fn big(x: u128) -> BigInt {
    x.into()
}
fn deposit(m: &Model, u: usize, add: u128, end: Option<u64>) -> (Want, Lock) {
    let old = m.lock[u];
    let amount = old.map_or(0, |l| l.amount).saturating_add(add);
    let end = end.or(old.map(|l| l.end)).unwrap_or(0);
    let mut l = Lock { amount, end, at: now(), stake: 0 };
    l.stake = l.power(now());
    let (sure, most) = lockable(m, u);
    let w = if amount < MaxPeriod::get() as u128 {
        Want::Refused("too little to lock")
    } else if amount > most {
        Want::Refused("more than may be locked")
    } else if amount <= sure {
        Want::Must
    } else {
        Want::Either
    };
    (w, l)
}
pub fn round(h: u64) -> u64 {
    h / Span::get() * Span::get()
}
impl Model {
    /// what must come of a call, and what is so if it goes through
    pub fn want(&self, op: &Op) -> (Want, Model) {
        use Want::*;
        let mut m = self.clone();
        let t = now();
        let no = |w| (Refused(w), self.clone());
        let fits = |h: u64| if h <= t { Some("not in the future") } else if h > t + MaxPeriod::get() { Some("too far in the future") } else { None };
        match *op {
            Op::Create(u, x, h) => {
                let h = round(h);
                if x == 0 {
                    return no("nothing to lock");
                }
                if self.lock[u].is_some() {
                    return no("there is a lock");
                }
                if let Some(w) = fits(h) {
                    return no(w);
                }
                let (w, l) = deposit(self, u, x, Some(h));
                m.lock[u] = Some(l);
                (w, m)
            }
            Op::More(u, x) => {
                let Some(l) = self.lock[u] else { return no("there is no lock") };
                if x == 0 {
                    return no("nothing to lock");
                }
                if l.end <= t {
                    return no("the lock has ended");
                }
                let (w, l) = deposit(self, u, x, None);
                m.lock[u] = Some(l);
                (w, m)
            }
            Op::Longer(u, h) => {
                let h = round(h);
                let Some(l) = self.lock[u] else { return no("there is no lock") };
                if l.end <= t {
                    return no("the lock has ended");
                }
                if h <= l.end {
                    return no("not longer");
                }
                if let Some(w) = fits(h) {
                    return no(w);
                }
                let (w, l) = deposit(self, u, 0, Some(h));
                m.lock[u] = Some(l);
                (w, m)
            }
            Op::Withdraw(u) => {
                let Some(l) = self.lock[u] else { return (Either, m) };
                if t < l.end {
                    return no("the lock has not ended");
                }
                m.lock[u] = None;
                (Must, m)
            }
            Op::Update(_, u) => {
                if self.lock[u].is_none() {
                    return no("there is no lock");
                }
                let (w, l) = deposit(self, u, 0, None);
                m.lock[u] = Some(l);
                (w, m)
            }
            Op::Limit(as_root, u, a, b) => {
                if !as_root {
                    return no("only the root may");
                }
                m.limit[u] = Some((a, b));
                (Must, m)
            }
            Op::Block(as_root, u) => {
                if !as_root {
                    return no("only the root may");
                }
                m.blocked[u] = true;
                (Must, m)
            }
            Op::Send(u, _, x) | Op::Reserve(u, x) => {
                let free = bal(N, &user(u));
                let held = self.lock[u].map_or(0, |l| l.amount);
                if matches!(op, Op::Send(a, b, _) if a == b) {
                    (Either, m)
                } else if x > free {
                    no("there is not so much")
                } else if free - x < held {
                    no("it is locked")
                } else {
                    (Must, m)
                }
            }
            Op::Wait(_) => (Must, m),
        }
    }
    pub fn supply(&self, h: u64) -> u128 {
        self.lock.iter().flatten().map(|l| l.power(h)).sum()
    }
}
pub fn exec(op: &Op) -> Result<(), String> {
    let f = |r: Result<(), sp_runtime::DispatchError>| r.map_err(|e| format!("{e:?}"));
    let g = |r: frame_support::dispatch::DispatchResultWithPostInfo| r.map(|_| ()).map_err(|e| format!("{:?}", e.error));
    match *op {
        Op::Create(u, x, h) => f(tx(|| Escrow::create_lock(by(u), x, h))),
        Op::More(u, x) => f(tx(|| Escrow::increase_amount(by(u), x))),
        Op::Longer(u, h) => f(tx(|| Escrow::increase_unlock_height(by(u), h))),
        Op::Withdraw(u) => f(tx(|| Escrow::withdraw(by(u)))),
        Op::Update(a, u) => f(tx(|| Escrow::update_user_stake(by(a), user(u)))),
        Op::Limit(r, u, a, b) => g(Escrow::set_account_limit(origin(r), user(u), a, b)),
        Op::Block(r, u) => g(Escrow::set_account_block(origin(r), user(u))),
        Op::Send(u, v, x) => send(N, &user(u), &user(v), x),
        Op::Reserve(u, x) => {
            use orml_traits::MultiReservableCurrency;
            f(tx(|| Tokens::reserve(N, &user(u), x)))
        }
        Op::Wait(n) => {
            System::set_block_number(now() + n);
            Ok(())
        }
    }
}
pub fn height(s: &mut Src) -> u64 {
    let (t, p) = (now(), MaxPeriod::get());
    match s.weighted(&[6, 2, 1, 1]) {
        0 => t + s.below(p + Span::get() + 2),
        1 => (t + p + 2).saturating_sub(s.below(5)),
        2 => (t + 2).saturating_sub(s.below(4)),
        _ => s.below(t + 2 * p),
    }
}
pub fn amount(s: &mut Src, u: usize) -> u128 {
    let p = MaxPeriod::get() as u128;
    let free = bal(N, &user(u));
    match s.weighted(&[6, 2, 2, 1]) {
        0 => s.u128(free + 1),
        1 => p.saturating_sub(2) + s.u128(5),
        2 => (free + 1).saturating_sub(s.u128(3)),
        _ => s.u128(p * 20 + 1),
    }
}
pub fn gen(s: &mut Src, m: &Model) -> Op {
    let u = s.idx(USERS);
    let odd = |s: &mut Src| s.ratio(1, 5);
    match s.weighted(&[10, 5, 5, 5, 5, 2, 1, 4, 1, 12]) {
        0 => Op::Create(u, amount(s, u), height(s)),
        1 => {
            let x = match m.lock[u] {
                Some(l) if s.bool() => s.u128(bal(N, &user(u)).saturating_sub(l.amount) + 3),
                _ => amount(s, u),
            };
            Op::More(u, x)
        }
        2 => Op::Longer(u, height(s)),
        3 => Op::Withdraw(u),
        4 => Op::Update(s.idx(USERS), u),
        5 => {
            let a = (now() + 20).saturating_sub(s.below(60));
            Op::Limit(!odd(s), u, a, if odd(s) { a.saturating_sub(s.below(3)) } else { a + s.below(100) })
        }
        6 => Op::Block(!odd(s), u),
        7 => {
            let free = bal(N, &user(u));
            let x = match m.lock[u] {
                Some(l) if s.bool() => free.saturating_sub(l.amount).saturating_add(s.u128(3)).saturating_sub(1),
                _ => s.u128(free / 2 + 1),
            };
            Op::Send(u, s.idx(USERS), x)
        }
        8 => Op::Reserve(u, s.u128(bal(N, &user(u)) + 2)),
        _ => Op::Wait(match s.weighted(&[4, 3, 2, 1]) {
            0 => 1 + s.below(Span::get()),
            1 => {
                // to the end of a lock, or about
                let e = m.lock[u].map_or(0, |l| l.end);
                (e.saturating_sub(now()) + s.below(3)).saturating_sub(1)
            }
            2 => s.below(MaxPeriod::get() + 1),
            _ => s.below(3 * MaxPeriod::get() + 1),
        }),
    }
}
pub fn begin(s: &mut Src) {
    let span = *s.pick(&[10, 7, 1, 3]);
    Span::set(span);
    MaxPeriod::set(span * s.int(1, 12) as u64 + if s.ratio(1, 4) { s.below(span) } else { 0 });
    System::set_block_number(if s.bool() { 1 + s.below(3 * MaxPeriod::get()) } else { s.below(2) });
    for u in 0..USERS {
        let x = match s.below(3) {
            0 => s.u128(1 + 4 * MaxPeriod::get() as u128),
            1 => s.u128(1_000_000),
            _ => s.u128(10u128.pow(19)),
        };
        give(N, &user(u), x + MaxPeriod::get() as u128);
    }
}
type Each<'a> = &'a mut dyn FnMut(&mut Src, &Op, &Want, bool, &Model) -> R;
fn drive(s: &mut Src, each: Each) -> R {
    open(|| {
        begin(s);
        s.note(|| format!("span {}, longest {}, at {}", Span::get(), MaxPeriod::get(), now()));
        let mut m = Model::default();
        s.steps(6, 50, |s| {
            let op = gen(s, &m);
            let (want, next) = m.want(&op);
            let before = storage_root();
            let res = pbt::guarded(|| exec(&op))?;
            s.note(|| format!("at {}: {op:?} -> {res:?}", now()));
            if res.is_ok() {
                s.label(match op {
                    Op::Create(..) => "create",
                    Op::More(..) => "more",
                    Op::Longer(..) => "longer",
                    Op::Withdraw(..) => "withdraw",
                    Op::Update(..) => "update",
                    Op::Limit(..) => "limit",
                    Op::Block(..) => "block",
                    Op::Send(..) => "send",
                    Op::Reserve(..) => "reserve",
                    Op::Wait(..) => "wait",
                });
                m = next;
            } else {
                check!(before == storage_root(), "{op:?} was refused ({res:?}) and yet changed something");
            }
            each(s, &op, &want, res.is_ok(), &m)
        })
    })
}

/// C48: what is locked counts for what it must, one by one and all together, now and later
pub fn power(s: &mut Src) -> R {
    drive(s, &mut |s, _, _, _, m| {
        let t = now();
        let mut hs = vec![t, t + 1, t + s.below(2 * MaxPeriod::get() + 2), round(t) + Span::get()];
        hs.extend(m.lock.iter().flatten().map(|l| l.end.max(t)));
        for h in hs {
            for u in 0..USERS {
                let want = m.lock[u].map_or(0, |l| l.power(h));
                check_eq!(Escrow::balance_at(&user(u), Some(h)), want, "the power at {h} of user {u}, who has locked {:?}", m.lock[u]);
            }
            check_eq!(Escrow::total_supply(Some(h)), m.supply(h), "the power of all at {h}, seen at {t}, of {:?}", m.lock);
        }
        for u in 0..USERS {
            check_eq!(Escrow::balance_at(&user(u), None), m.lock[u].map_or(0, |l| l.power(t)), "the power of user {u} now");
        }
        check_eq!(Escrow::total_supply(None), m.supply(t), "the power of all now");
        if m.lock.iter().flatten().filter(|l| l.end > t).count() >= 2 {
            s.nontrivial();
        }
        Ok(())
    })
}
/// C48: what counts for rewards is the power when the lock was last looked at
pub fn stakes(s: &mut Src) -> R {
    drive(s, &mut |s, op, _, ok, m| {
        let mut sum = rat(0);
        for u in 0..USERS {
            let want = m.lock[u].map_or(0, |l| l.stake);
            let is = fx(EscrowRewards::stake(&(), &user(u)));
            check!(is == rat(want), "after {op:?} the stake of user {u} is {}, not {want}", show(&is));
            sum += is;
        }
        let total = fx(EscrowRewards::total_stake(()));
        check!(total == sum, "after {op:?} the total stake is {}, not {}", show(&total), show(&sum));
        if ok && matches!(op, Op::Update(..) | Op::Withdraw(..) | Op::More(..) | Op::Longer(..)) {
            s.nontrivial();
        }
        Ok(())
    })
}
/// C49: what may be locked, and when it may move again
pub fn locks(s: &mut Src) -> R {
    drive(s, &mut |s, op, want, ok, m| {
        match want {
            Want::Must => check!(ok, "{op:?} was refused at {}", now()),
            Want::Refused(why) => {
                check!(!ok, "{op:?} went through at {}: {why}", now());
                if matches!(*why, "it is locked" | "the lock has not ended" | "more than may be locked") {
                    s.label("kept");
                    s.nontrivial();
                }
            }
            Want::Either => (),
        }
        for u in 0..USERS {
            let l = Escrow::locked_balance(&user(u));
            let held = m.lock[u].map_or(0, |l| l.amount);
            check_eq!(l.amount, held, "what user {u} has locked");
            let a = Tokens::accounts(&user(u), N);
            check_eq!(a.frozen, held, "what is frozen of user {u}");
            let (sure, most) = lockable(m, u);
            let free = Escrow::free_stakable(&user(u));
            check!(sure.saturating_sub(held) <= free && free <= most.saturating_sub(held), "user {u} may lock {free} more, not {}", most.saturating_sub(held));
        }
        Ok(())
    })
}
