use mockrt::*;
use pbt::{check, check_eq, fail, law, Finding, Prop, Src, R};
use primitives::{VaultCurrencyPair, VaultId};
use reward::RewardsApi;
use sp_arithmetic::FixedI128;
use sp_runtime::BuildStorage;
use staking::StakingApi;
use std::collections::{BTreeMap, BTreeSet};

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Staking: staking::{Pallet, Call, Storage, Event<T>},
    }
);
mockrt::mock_system!(Test, u64, u32, frame_system::mocking::MockBlock<Test>);

const NATIVE: u32 = 7;
const WRAPPED: u32 = 5;
frame_support::parameter_types! { pub const GetNativeCurrencyId: u32 = NATIVE; }
impl staking::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type CurrencyId = u32;
    type GetNativeCurrencyId = GetNativeCurrencyId;
}

type V = VaultId<u64, u32>;
type PoolId = (Option<u32>, V);
fn vault(i: u64) -> V {
    VaultId { account_id: i, currencies: VaultCurrencyPair { collateral: 1, wrapped: WRAPPED } }
}
const VAULTS: u64 = 2;
const WHO: u64 = 4;
const CUR: [u32; 2] = [WRAPPED, NATIVE];

pub const PROP: Prop = Prop {
    id: "C15",
    rule: "a pool of at least two participants was slashed, and someone withdrew stake or reward afterwards",
    assumptions: &[
        "stakes and rewards are whole numbers, kept below 2^36 (the pallet's FixedI128 ends at 1.7e20)",
        "every call is run in a transaction, as in the runtime",
        "equality of shares is claimed up to the pallet's 18 decimals",
    ],
    laws: &[law!("history", 2_500, 60_000, history), law!("refund", 1_500, 30_000, refund)],
    findings: &[Finding {
        text: "a slash is divided by stakes as last settled: after one slash, a participant whose stake was touched since is charged less by the next one than an untouched one of equal stake (deposit 100+100, slash 100, withdraw 0 by A, slash 50: A keeps 33, B 16); rewards follow the stakes",
        probe: uneven_slash,
    }],
};

fn ext<T>(f: impl FnOnce() -> T) -> T {
    frame_system::set_quiet(true);
    let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    sp_io::TestExternalities::from(st).execute_with(|| {
        System::set_block_number(1);
        f()
    })
}

fn uneven_slash() -> bool {
    ext(|| {
        let v = vault(0);
        let p: PoolId = (None, v.clone());
        let _ = Staking::deposit_stake(&v, &0, FixedI128::from(100));
        let _ = Staking::deposit_stake(&v, &1, FixedI128::from(100));
        let _ = Staking::slash_stake(&v, FixedI128::from(100));
        let _ = <Staking as RewardsApi<PoolId, u64, u128>>::withdraw_stake(&p, &0, 0);
        let _ = Staking::slash_stake(&v, FixedI128::from(50));
        let (a, b) = (Staking::compute_stake(&v, &0), Staking::compute_stake(&v, &1));
        a != b
    })
}

/// one staking pool as documented: slashes and rewards are booked per unit of stake and settled lazily
#[derive(Default, Clone)]
struct Pool {
    raw: BTreeMap<u64, Rat>,
    slash_tally: BTreeMap<u64, Rat>,
    spt: Option<Rat>,
    cur: Option<Rat>,
    rpt: [Option<Rat>; 2],
    tally: BTreeMap<(usize, u64), Rat>,
    distributed: [u128; 2],
    claimed: [u128; 2],
    /// operations so far, for the rounding allowance
    ops: u64,
    peak: Option<Rat>,
    peak_rpt: Option<Rat>,
    /// all stake was slashed away with rewards open: they are gone
    forfeited: bool,
    /// it was slashed while its participants had been settled at different times: the listed finding
    uneven: bool,
}
impl Pool {
    fn z(o: &Option<Rat>) -> Rat {
        o.clone().unwrap_or_else(|| rat(0))
    }
    fn raw(&self, w: u64) -> Rat {
        Self::z(&self.raw.get(&w).cloned())
    }
    fn pending(&self, w: u64) -> Rat {
        self.raw(w) * Self::z(&self.spt) - Self::z(&self.slash_tally.get(&w).cloned())
    }
    fn stake_signed(&self, w: u64) -> Rat {
        self.raw(w) - self.pending(w)
    }
    fn stake(&self, w: u64) -> Rat {
        self.stake_signed(w).max(rat(0))
    }
    fn total_raw(&self) -> Rat {
        self.raw.values().fold(rat(0), |a, b| a + b)
    }
    fn settle(&mut self, w: u64) {
        let s = self.stake_signed(w);
        let spt = Self::z(&self.spt);
        self.slash_tally.insert(w, &s * &spt);
        self.raw.insert(w, s);
    }
    fn add(&mut self, w: u64, a: &Rat) {
        self.settle(w);
        let spt = Self::z(&self.spt);
        *self.raw.entry(w).or_insert(rat(0)) += a;
        *self.slash_tally.entry(w).or_insert(rat(0)) += a * &spt;
        self.cur = Some(Self::z(&self.cur) + a);
        for i in 0..2 {
            let r = Self::z(&self.rpt[i]);
            *self.tally.entry((i, w)).or_insert(rat(0)) += a * &r;
        }
        self.peak = Some(Self::z(&self.peak).max(Self::z(&self.cur)).max(self.total_raw()));
    }
    fn reward(&self, i: usize, w: u64) -> Rat {
        (self.stake(w) * Self::z(&self.rpt[i]) - Self::z(&self.tally.get(&(i, w)).cloned())).max(rat(0))
    }
    /// is every participant charged alike by a slash?
    fn even(&self) -> bool {
        let mut r = None;
        for (w, raw) in &self.raw {
            if raw.is_zero() {
                continue;
            }
            let q = self.stake_signed(*w) / raw;
            if *r.get_or_insert(q.clone()) != q {
                return false;
            }
        }
        true
    }
    fn overslashed(&self) -> bool {
        (0..WHO).any(|w| self.stake_signed(w) < rat(0))
    }
    fn eps_stake(&self) -> Rat {
        ulp() * rat(4 * (self.ops + 2)) * (Self::z(&self.peak) + rat(1))
    }
    fn eps_reward(&self) -> Rat {
        let r = self.peak_rpt.clone().unwrap_or_else(|| rat(0));
        self.eps_stake() * (r + rat(1)) * rat(2)
    }
    fn bump(&mut self) {
        self.ops += 1;
        let m = Self::z(&self.rpt[0]).max(Self::z(&self.rpt[1]));
        self.peak_rpt = Some(Self::z(&self.peak_rpt).max(m));
    }
}

fn amount(src: &mut Src) -> u128 {
    match src.weighted(&[5, 3, 2, 1]) {
        0 => src.int(1, 50) as u128,
        1 => src.int(1, 100_000) as u128,
        2 => src.u128_in(1, 1 << 36),
        _ => 0,
    }
}

fn near(a: &Rat, b: &Rat, eps: &Rat) -> bool {
    (a - b).abs() <= *eps
}

type S = Staking;
fn precise(n: u32, v: &V, w: u64) -> Result<Rat, String> {
    S::compute_precise_stake_at_index(n, v, &w).map(fx).map_err(|e| format!("stake: {e:?}"))
}
fn reward_of(n: u32, v: &V, w: u64, i: usize) -> Result<u128, String> {
    <S as RewardsApi<PoolId, u64, u128>>::compute_reward(&(Some(n), v.clone()), &w, CUR[i]).map_err(|e| format!("reward: {e:?}"))
}

type Shown = BTreeMap<(u64, u32, u64), (Rat, u128, u128)>;
fn view(nonces: &[u32]) -> Result<Shown, String> {
    let mut m = BTreeMap::new();
    for v in 0..VAULTS {
        for n in 0..=nonces[v as usize] {
            for w in 0..WHO {
                let id = vault(v);
                m.insert((v, n, w), (precise(n, &id, w)?, reward_of(n, &id, w, 0)?, reward_of(n, &id, w, 1)?));
            }
        }
    }
    Ok(m)
}

fn history(src: &mut Src) -> R {
    ext(|| {
        let mut nonce = vec![0u32; VAULTS as usize];
        let mut pools: BTreeMap<(u64, u32), Pool> = BTreeMap::new();
        for v in 0..VAULTS {
            pools.insert((v, 0), Pool::default());
        }
        let settle_first = src.bool();
        let mut slashed: BTreeSet<(u64, u32)> = BTreeSet::new();
        let mut before = view(&nonce)?;
        let mut stop = false;
        src.steps(5, 40, |src| {
            if stop {
                return Ok(());
            }
            let v = src.below(VAULTS);
            let id = vault(v);
            let w = src.below(WHO);
            let top = nonce[v as usize];
            let n = if top > 0 && src.ratio(1, 3) { src.below(top as u64 + 1) as u32 } else { top };
            let idx = if n == top && src.bool() { None } else { Some(n) };
            let p: PoolId = (idx, id.clone());
            let others = |now: &Shown, skip: &dyn Fn(&(u64, u32, u64)) -> bool, what: &str, before: &Shown| -> R {
                for (k, x) in now {
                    if !skip(k) && before.get(k).map_or(false, |b| b != x) {
                        fail!("{what} changed what {k:?} has: {:?} -> {x:?}", before[k]);
                    }
                }
                Ok(())
            };
            let op = src.weighted(&[6, 4, 2, 5, 4, 4, 1]);
            match op {
                0 => {
                    let a = amount(src);
                    let r = tx(|| <S as RewardsApi<PoolId, u64, u128>>::deposit_stake(&(None, id.clone()), &w, a));
                    src.note(|| format!("vault {v}: {w} deposits {a} -> {r:?}"));
                    check_eq!(r, Ok(()), "deposit");
                    let m = pools.get_mut(&(v, top)).unwrap();
                    m.add(w, &rat(a));
                    m.bump();
                    let now = view(&nonce)?;
                    others(&now, &|k| *k == (v, top, w), "a deposit", &before)?;
                }
                1 | 2 => {
                    let m = pools.get_mut(&(v, n)).unwrap();
                    let have = precise(n, &id, w)?;
                    let whole = floor_u128(&have);
                    let (want, took, r) = if op == 2 {
                        let r: Result<u128, _> = tx(|| S::withdraw_all_stake(&p, &w));
                        (true, have.clone(), r)
                    } else {
                        let a = match src.weighted(&[3, 2, 1, 1]) {
                            0 => amount(src).min(whole),
                            1 => whole,
                            2 => 0,
                            _ => whole + src.int(1, 9) as u128,
                        };
                        (a <= whole, rat(a), tx(|| <S as RewardsApi<PoolId, u64, u128>>::withdraw_stake(&p, &w, a)).map(|_| a))
                    };
                    src.note(|| format!("vault {v} pool {n}/{top}: {w} with {} withdraws {} -> {r:?}", show(&have), show(&took)));
                    check_eq!(r.is_ok(), want, "withdrawal of {} from pool {n} (current {top}) with a stake of {}: {r:?}", show(&took), show(&have));
                    if let Ok(got) = r {
                        check_eq!(got, floor_u128(&took), "what was withdrawn");
                        m.add(w, &(-took.clone()));
                        m.bump();
                        if slashed.contains(&(v, n)) {
                            src.nontrivial();
                        }
                        if m.total_raw().abs() <= m.eps_stake() {
                            m.cur = Some(m.total_raw());
                        }
                        let now = view(&nonce)?;
                        others(&now, &|k| *k == (v, n, w), "a withdrawal", &before)?;
                        let (x, y) = (&now[&(v, n, w)], &before[&(v, n, w)]);
                        check!(near(&x.0, &(&y.0 - &took), &m.eps_stake()), "stake {} after withdrawing {} from {}", show(&x.0), show(&took), show(&y.0));
                    }
                }
                3 => {
                    let i = src.idx(2);
                    let a = amount(src);
                    let r = tx(|| <S as RewardsApi<PoolId, u64, u128>>::distribute_reward(&(None, id.clone()), CUR[i], a));
                    src.note(|| format!("vault {v}: distribute {a} of {i} -> {r:?}"));
                    let m = pools.get_mut(&(v, top)).unwrap();
                    let t = Pool::z(&m.cur);
                    if !t.is_zero() && t <= m.eps_stake() {
                        // only rounding dust is left
                        stop = true;
                        return Ok(());
                    }
                    check_eq!(r, Ok(()), "distribution");
                    if !t.is_zero() {
                        m.rpt[i] = Some(Pool::z(&m.rpt[i]) + rat(a) / t);
                        m.distributed[i] += a;
                    }
                    m.bump();
                    if Pool::z(&m.peak_rpt) > rat(1_000_000_000u64) {
                        stop = true;
                        return Ok(());
                    }
                    let now = view(&nonce)?;
                    others(&now, &|k| (k.0, k.1) == (v, top), "a distribution", &before)?;
                    for (k, x) in &now {
                        let b = &before[k];
                        check!(x.0 == b.0 && x.1 >= b.1 && x.2 >= b.2, "a distribution took from {k:?}: {b:?} -> {x:?}");
                    }
                }
                4 => {
                    let i = src.idx(2);
                    let r: Result<u128, _> = tx(|| S::withdraw_reward(&p, &w, CUR[i]));
                    src.note(|| format!("vault {v} pool {n}/{top}: {w} claims {i} -> {r:?}"));
                    let shown = { let b = &before[&(v, n, w)]; if i == 0 { b.1 } else { b.2 } };
                    let m = pools.get_mut(&(v, n)).unwrap();
                    let got = r.map_err(|e| format!("claim: {e:?}"))?;
                    check!(got.abs_diff(shown) <= 1 + floor_u128(&m.eps_reward()), "claimed {got} where {shown} was shown");
                    if got > 0 && slashed.contains(&(v, n)) {
                        src.nontrivial();
                    }
                    m.claimed[i] += got;
                    m.settle(w);
                    let t = m.raw(w) * Pool::z(&m.rpt[i]);
                    m.tally.insert((i, w), t);
                    m.bump();
                    let now = view(&nonce)?;
                    others(&now, &|k| *k == (v, n, w), "a claim", &before)?;
                    let x = &now[&(v, n, w)];
                    let left = if i == 0 { x.1 } else { x.2 };
                    check!(left <= floor_u128(&m.eps_reward()), "{left} can be claimed again");
                }
                5 => {
                    let m = pools.get_mut(&(v, top)).unwrap();
                    if settle_first {
                        for x in 0..WHO {
                            let r = tx(|| <S as RewardsApi<PoolId, u64, u128>>::withdraw_stake(&(None, id.clone()), &x, 0));
                            check_eq!(r, Ok(()), "empty withdrawal");
                            m.settle(x);
                            m.bump();
                        }
                    }
                    let t = Pool::z(&m.cur);
                    let whole = if t > rat(0) { floor_u128(&t) } else { 0 };
                    let a = match src.weighted(&[4, 2, 1, 1]) {
                        0 => whole * src.int(0, 90) as u128 / 100,
                        1 => amount(src).min(whole * 9 / 10),
                        2 => whole,
                        _ => 0,
                    };
                    let even = m.even();
                    let r = tx(|| <S as StakingApi<V, u32, u128>>::slash_stake(&id, a));
                    src.note(|| format!("vault {v}: slash {a} of {} ({}) -> {r:?}", show(&t), if even { "even" } else { "uneven" }));
                    let raw = m.total_raw();
                    if raw <= m.eps_stake() && a > 0 {
                        stop = true;
                        return Ok(());
                    }
                    check_eq!(r, Ok(()), "slash of {a} of {}", show(&t));
                    if a == 0 {
                        return Ok(());
                    }
                    let left = &t - rat(a);
                    m.spt = Some(Pool::z(&m.spt) + rat(a) / &raw);
                    m.cur = Some(left.clone());
                    if left.is_zero() {
                        m.forfeited = true;
                    } else if left < rat(1) {
                        // a fraction of one unit is left, and carries all the rewards: beyond the pallet's decimals
                        stop = true;
                        return Ok(());
                    }
                    if !left.is_zero() {
                        for i in 0..2 {
                            let r = Pool::z(&m.rpt[i]);
                            m.rpt[i] = Some(&r + &r * rat(a) / &left);
                        }
                    }
                    m.bump();
                    m.uneven |= !even;
                    if Pool::z(&m.peak_rpt) > rat(1_000_000_000u64) || m.overslashed() {
                        // too steep for 18 decimals, or the listed finding
                        src.label(if m.overslashed() { "overslashed" } else { "steep" });
                        stop = true;
                        return Ok(());
                    }
                    if (0..WHO).filter(|w| m.stake(*w) > rat(0)).count() > 1 {
                        slashed.insert((v, top));
                    }
                    let now = view(&nonce)?;
                    others(&now, &|k| (k.0, k.1) == (v, top), "a slash", &before)?;
                    let e = m.eps_stake();
                    let er = m.eps_reward() + rat(1);
                    for x in 0..WHO {
                        let (q, b) = (&now[&(v, top, x)], &before[&(v, top, x)]);
                        check!(q.0 <= &b.0 + &e, "a slash raised the stake of {x}: {} -> {}", show(&b.0), show(&q.0));
                        if even {
                            let want = &b.0 * &left / &t;
                            check!(near(&q.0, &want, &e), "slashed {a} of {}: {x} went from {} to {}, its share leaves {}", show(&t), show(&b.0), show(&q.0), show(&want));
                            if !m.forfeited {
                                check!(near(&rat(q.1), &rat(b.1), &er) && near(&rat(q.2), &rat(b.2), &er), "a slash changed the open rewards of {x}: {b:?} -> {q:?}");
                            }
                        }
                    }
                    src.label(if even { "even slash" } else { "uneven slash" });
                }
                _ => {
                    if top >= 3 {
                        return Ok(());
                    }
                    let own = precise(top, &id, id.account_id)?;
                    let r: Result<u128, _> = tx(|| S::force_refund(&id));
                    src.note(|| format!("vault {v}: refund -> {r:?}"));
                    let m = pools.get_mut(&(v, top)).unwrap();
                    let t = Pool::z(&m.cur);
                    let keep = rat(floor_u128(&own));
                    let got = r.map_err(|e| format!("refund: {e:?}"))?;
                    check!(near(&rat(got), &(&t - &keep), &(m.eps_stake() + rat(1))), "refunded {got} of {} with {} the vault's", show(&t), show(&keep));
                    if keep.is_zero() {
                        m.settle(id.account_id);
                    } else {
                        m.add(id.account_id, &-keep.clone());
                    }
                    m.bump();
                    let mut fresh = Pool::default();
                    fresh.add(id.account_id, &keep);
                    nonce[v as usize] += 1;
                    pools.insert((v, top + 1), fresh);
                    check_eq!(<S as StakingApi<V, u32, u128>>::nonce(&id), top + 1, "nonce");
                    let now = view(&nonce)?;
                    others(&now, &|k| *k == (v, top, id.account_id), "a refund", &before)?;
                    for x in 0..WHO {
                        let want = if x == id.account_id { keep.clone() } else { rat(0) };
                        check_eq!(now[&(v, top + 1, x)].0, want, "stake of {x} in the new pool");
                    }
                    src.label("refund");
                }
            }
            before = view(&nonce)?;
            // everything against the books
            for ((v, n), m) in &pools {
                let e = m.eps_stake();
                let er = m.eps_reward() + rat(1);
                let mut sum = rat(0);
                let mut open = [0u128; 2];
                for w in 0..WHO {
                    let got = &before[&(*v, *n, w)];
                    check!(near(&got.0, &m.stake(w), &e), "stake of {w} in pool {n} of {v}: {} for {}", show(&got.0), show(&m.stake(w)));
                    sum += &got.0;
                    for i in 0..2 {
                        let r = if i == 0 { got.1 } else { got.2 };
                        open[i] += r;
                        check!(near(&rat(r), &m.reward(i, w), &er), "reward {i} of {w} in pool {n} of {v}: {r} for {}", show(&m.reward(i, w)));
                    }
                }
                check!(near(&sum, &Pool::z(&m.cur), &(rat(WHO) * &e)), "pool {n} of {v}: stakes add up to {}, the total is {}", show(&sum), show(&Pool::z(&m.cur)));
                if *n == nonce[*v as usize] {
                    let t: u128 = <S as RewardsApi<PoolId, u64, u128>>::get_total_stake(&(None, vault(*v))).map_err(|e| format!("total: {e:?}"))?;
                    check!(near(&rat(t), &Pool::z(&m.cur), &(&e + rat(1))), "total stake {t} for {}", show(&Pool::z(&m.cur)));
                }
                for i in 0..2 {
                    let slack = rat(WHO) * m.eps_reward();
                    check!(m.uneven || rat(m.claimed[i]) + rat(open[i]) <= rat(m.distributed[i]) + slack, "pool {n} of {v}: claimed {} and open {} of {}", m.claimed[i], open[i], m.distributed[i]);
                    let left = fx(S::total_rewards(CUR[i], (*n, vault(*v))));
                    check_eq!(left, rat(m.distributed[i]) - rat(m.claimed[i]), "rewards recorded as unclaimed");
                }
            }
            Ok(())
        })?;
        src.sample(|| format!("pools {:?}", pools.iter().map(|(k, m)| (k, show(&Pool::z(&m.cur)), m.distributed, m.claimed)).collect::<Vec<_>>()));
        Ok(())
    })
}

/// nominators get all of their stake, and no more, out of a pool that was closed by a refund
fn refund(src: &mut Src) -> R {
    ext(|| {
        let id = vault(0);
        let bare = |e| format!("{e:?}");
        let own = amount(src);
        let noms: Vec<u128> = (0..3).map(|_| amount(src)).collect();
        let dep = |w: u64, a: u128| tx(|| <S as RewardsApi<PoolId, u64, u128>>::deposit_stake(&(None, vault(0)), &w, a));
        dep(0, own).map_err(bare)?;
        for (i, a) in noms.iter().enumerate() {
            dep(i as u64 + 1, *a).map_err(bare)?;
        }
        let total = own + noms.iter().sum::<u128>();
        let cut = if total > 0 && src.bool() { total * src.int(0, 90) as u128 / 100 } else { 0 };
        tx(|| <S as StakingApi<V, u32, u128>>::slash_stake(&id, cut)).map_err(bare)?;
        let before: Vec<Rat> = (0..4).map(|w| precise(0, &id, w)).collect::<Result<_, _>>()?;
        let back: u128 = tx(|| S::force_refund(&id)).map_err(bare)?;
        // some nominate again, in the new pool, which may be slashed too
        let again: Vec<u128> = (0..3).map(|_| if src.bool() { amount(src) } else { 0 }).collect();
        for (i, a) in again.iter().enumerate() {
            if *a > 0 {
                dep(i as u64 + 1, *a).map_err(bare)?;
            }
        }
        let t2 = floor_u128(&before[0]) + again.iter().sum::<u128>();
        let cut2 = if t2 > 0 && src.bool() { t2 * src.int(0, 90) as u128 / 100 } else { 0 };
        tx(|| <S as StakingApi<V, u32, u128>>::slash_stake(&id, cut2)).map_err(bare)?;
        src.note(|| format!("own {own}, nominated {noms:?}, slashed {cut}; again {again:?}, slashed {cut2}"));
        if cut > 0 && again.iter().any(|a| *a > 0) {
            src.nontrivial();
        }
        src.sample(|| format!("{noms:?} nominated, {cut} of {total} slashed, {back} refunded, then {again:?}, slashed {cut2}"));
        let mut paid = 0;
        for w in 1..4u64 {
            let fresh = precise(1, &id, w)?;
            let have = precise(0, &id, w)?;
            check_eq!(have, before[w as usize], "stake of {w} in the closed pool");
            let whole = floor_u128(&have);
            let p: PoolId = (Some(0), id.clone());
            let over = tx(|| <S as RewardsApi<PoolId, u64, u128>>::withdraw_stake(&p, &w, whole + 1));
            check!(over.is_err(), "withdrew {} from a closed pool with a stake of {}", whole + 1, show(&have));
            let part = if whole > 0 { src.int(0, whole.min(1 << 40) as u64) as u128 } else { 0 };
            let r = tx(|| <S as RewardsApi<PoolId, u64, u128>>::withdraw_stake(&p, &w, part));
            check_eq!(r, Ok(()), "withdrawal of {part} of {whole} from the closed pool");
            let r: Result<u128, _> = tx(|| S::withdraw_all_stake(&p, &w));
            let rest = r.map_err(|e| format!("withdrawal of the rest of {} from the closed pool: {e:?}", show(&have)))?;
            check!(part + rest <= whole + 1 && part + rest + 1 >= whole, "withdrew {part} and {rest} of {whole}");
            paid += part + rest;
            check_eq!(precise(1, &id, w)?, fresh, "stake of {w} in the new pool, after withdrawing from the closed one");
        }
        check!(paid <= back + 3 && back <= paid + 6, "nominators got {paid}, {back} were set aside for them");
        Ok(())
    })
}
