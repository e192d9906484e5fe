//! Who makes the blocks: the fixed collators, the candidates with their bonds, and the pot.
use crate::rt::*;
use frame_support::traits::{BuildGenesisConfig, Currency, ReservableCurrency};
use pallet_authorship::EventHandler;
use pallet_session::SessionManager;
use pbt::{check, check_eq, Src, R};
use sp_runtime::traits::AccountIdConversion;
use std::collections::BTreeMap;

const USERS: usize = 8;
const N: CurrencyId = Token(INTR);

#[derive(Clone, Debug, Default, PartialEq)]
struct Model {
    fixed: Vec<usize>,
    candidates: Vec<(usize, u128)>,
    last: BTreeMap<usize, u64>,
    desired: u32,
    bond: u128,
}
fn power(u: usize) -> u128 {
    <Escrow as Currency<Acc>>::total_balance(&user(u))
}
fn pot() -> Acc {
    PotId::get().into_account_truncating()
}
fn index(a: &Acc) -> usize {
    (0..USERS).find(|u| user(*u) == *a).expect("a collator nobody asked for")
}
impl Model {
    fn bonded(&self, u: usize) -> u128 {
        self.candidates.iter().filter(|c| c.0 == u).map(|c| c.1).sum()
    }
    fn stale(&self, (u, _): (usize, u128), now: u64) -> bool {
        let last = self.last.get(&u).copied().unwrap_or(0);
        now.saturating_sub(last) >= KickThreshold::get() || power(u) < self.bond
    }
    fn drop(&mut self, u: usize) {
        self.candidates.retain(|c| c.0 != u);
        self.last.remove(&u);
    }
    fn same(&self) -> R {
        check_eq!(Collators::invulnerables().iter().map(index).collect::<Vec<_>>(), self.fixed, "the fixed collators");
        check_eq!(Collators::candidates().iter().map(|c| (index(&c.who), c.deposit)).collect::<Vec<_>>(), self.candidates, "the candidates and their bonds");
        check_eq!((Collators::desired_candidates(), Collators::candidacy_bond()), (self.desired, self.bond), "the wanted number, and the bond");
        for u in 0..USERS {
            check_eq!(<Escrow as ReservableCurrency<Acc>>::reserved_balance(&user(u)), self.bonded(u), "what is reserved of {u}");
            check_eq!(Collators::last_authored_block(user(u)), self.last.get(&u).copied().unwrap_or(0), "the last block of {u}");
        }
        Ok(())
    }
}
fn distinct(s: &mut Src, most: u64) -> Vec<usize> {
    let mut v = vec![];
    for _ in 0..s.below(most + 1) {
        let u = s.idx(USERS);
        if !v.contains(&u) {
            v.push(u);
        }
    }
    v
}

pub fn collators(s: &mut Src) -> R {
    open(|| {
        let max = *s.pick(&[6u32, 8, 5, 3, 2, 1]);
        MaxCandidates::set(max);
        MinCandidates::set(*s.pick(&[1u32, 0, 2]));
        let ed = *s.pick(&[5u128, 0, 1]);
        NativeEd::set(ed);
        KickThreshold::set(*s.pick(&[10u64, 3, 1, 30]));
        Span::set(1);
        MaxPeriod::set(100);
        let nameless: Vec<usize> = if s.ratio(1, 3) { vec![6] } else { vec![] };
        let mut keys: Vec<usize> = (0..USERS).filter(|u| *u != 7).collect();
        let put = |keys: &[usize], nameless: &[usize]| set_keys(keys.iter().map(|u| user(*u)).collect(), nameless.iter().map(|u| user(*u)).collect());
        put(&keys, &nameless);
        let mut m = Model { fixed: distinct(s, 2), desired: if s.ratio(3, 4) { max } else { s.below(max as u64 + 1) as u32 }, bond: s.u128_in(0, 3_000), ..Default::default() };
        collator_selection::GenesisConfig::<Test> { invulnerables: m.fixed.iter().map(|u| user(*u)).collect(), candidacy_bond: m.bond, desired_candidates: m.desired }.build();
        for u in 0..USERS {
            give(N, &user(u), 1_000_000);
            if s.ratio(9, 10) {
                let (amount, end) = (s.u128_in(1_000, 40_000), 1 + s.int(20, 100));
                tx(|| Escrow::create_lock(by(u), amount, end)).map_err(|e| format!("no lock: {e:?}"))?;
            }
        }
        s.note(|| format!("threshold {}, at least {}, at most {max}, least balance {ed}, {m:?}", KickThreshold::get(), MinCandidates::get()));
        m.same()?;
        let mut session = 0;
        let (mut kicked, mut kept) = (0, 0);
        s.steps(8, 60, |s| {
            let before = storage_root();
            let mut next = m.clone();
            let root = !s.ratio(1, 8);
            let origin = |as_root| origin(as_root);
            // what is called, whether it must go through, and what is so then
            let (what, ok, want) = match s.weighted(&[16, 4, 1, 2, 3, 6, 8, 5, 2, 1, 3]) {
                0 => {
                    let u = s.idx(USERS);
                    let spare = power(u).saturating_sub(m.bonded(u));
                    let want = (m.candidates.len() as u32) < m.desired.min(max)
                        && !m.fixed.contains(&u)
                        && !nameless.contains(&u)
                        && keys.contains(&u)
                        && m.bonded(u) == 0
                        && !m.candidates.iter().any(|c| c.0 == u)
                        && spare >= m.bond;
                    next.candidates.push((u, m.bond));
                    next.last.insert(u, now() + KickThreshold::get());
                    (format!("{u} (power {spare}) registers"), pbt::guarded(|| tx(|| Collators::register_as_candidate(by(u))).is_ok())?, want)
                }
                1 => {
                    let u = if !m.candidates.is_empty() && s.ratio(4, 5) { m.candidates[s.idx(m.candidates.len())].0 } else { s.idx(USERS) };
                    let want = m.candidates.len() as u32 > MinCandidates::get() && m.candidates.iter().any(|c| c.0 == u);
                    next.drop(u);
                    (format!("{u} leaves"), pbt::guarded(|| tx(|| Collators::leave_intent(by(u))).is_ok())?, want)
                }
                2 => {
                    let v = distinct(s, 4);
                    let want = root && v.len() <= 3 && v.iter().all(|u| keys.contains(u) && !nameless.contains(u));
                    next.fixed = v.clone();
                    let list = v.iter().map(|u| user(*u)).collect::<Vec<_>>();
                    (format!("fixed ones {v:?} (root {root})"), pbt::guarded(|| tx(|| Collators::set_invulnerables(origin(root), list)).is_ok())?, want)
                }
                3 => {
                    let n = if s.bool() { max + 1 } else { s.below(max as u64 + 1) as u32 };
                    next.desired = n;
                    (format!("{n} wanted (root {root})"), pbt::guarded(|| tx(|| Collators::set_desired_candidates(origin(root), n)).is_ok())?, root)
                }
                4 => {
                    let u = s.idx(USERS);
                    let b = match s.below(5) {
                        0 => power(u),
                        1 => power(u) + 1,
                        2 => s.u128_in(0, 10_000),
                        _ => s.u128_in(0, 1_000),
                    };
                    next.bond = b;
                    (format!("a bond of {b} (root {root})"), pbt::guarded(|| tx(|| Collators::set_candidacy_bond(origin(root), b)).is_ok())?, root)
                }
                5 => {
                    // a block by a collator, or by whoever
                    let u = if !m.candidates.is_empty() && s.ratio(3, 4) { m.candidates[s.idx(m.candidates.len())].0 } else { s.idx(USERS) };
                    let (held, had) = (bal(N, &pot()), bal(N, &user(u)));
                    let reward = held.saturating_sub(ed) / 2;
                    pbt::guarded(|| <Collators as EventHandler<Acc, u64>>::note_author(user(u)))?;
                    check_eq!((bal(N, &pot()), bal(N, &user(u))), (held - reward, had + reward), "the pot and the author's balance after a block, of {held} and {had}");
                    next.last.insert(u, now());
                    if reward > 0 {
                        s.label("paid");
                    }
                    (format!("a block by {u}, {reward} paid"), true, true)
                }
                6 => {
                    session += 1;
                    let t = now();
                    let mut spare = (m.candidates.len() as u32).saturating_sub(MinCandidates::get());
                    for c in m.candidates.clone() {
                        if m.stale(c, t) {
                            if spare > 0 {
                                spare -= 1;
                                next.drop(c.0);
                                kicked += 1;
                            } else {
                                kept += 1;
                            }
                        }
                    }
                    let got = pbt::guarded(|| <Collators as SessionManager<Acc>>::new_session(session))?;
                    let got: Vec<usize> = got.ok_or("no collators were named")?.iter().map(index).collect();
                    let want: Vec<usize> = next.fixed.iter().copied().chain(next.candidates.iter().map(|c| c.0)).collect();
                    check_eq!(got, want, "the collators of session {session} at {t}, of {m:?}");
                    let after = storage_root();
                    <Collators as SessionManager<Acc>>::start_session(session);
                    <Collators as SessionManager<Acc>>::end_session(session - 1);
                    check!(storage_root() == after, "the start of a session changed something");
                    (format!("session {session}: {got:?}"), true, true)
                }
                7 => {
                    let d = s.int(1, KickThreshold::get() + 2);
                    System::set_block_number(now() + d);
                    (format!("{d} blocks pass"), true, true)
                }
                8 => {
                    let x = *s.pick(&[0u128, 1, ed, ed + 1, 1000, 77_777]);
                    let done = send(N, &user(s.idx(USERS)), &pot(), x).is_ok();
                    (format!("{x} for the pot ({done})"), true, true)
                }
                9 => {
                    let u = s.idx(USERS);
                    match keys.iter().position(|k| *k == u) {
                        Some(i) => drop(keys.remove(i)),
                        None => keys.push(u),
                    }
                    put(&keys, &nameless);
                    (format!("session keys: {keys:?}"), true, true)
                }
                _ => {
                    // the power of a lock grows again, or the lock is left to end
                    let u = s.idx(USERS);
                    let (x, end) = (s.u128_in(100, 20_000), now() + s.int(1, 100));
                    let done = match s.below(3) {
                        0 => tx(|| Escrow::increase_amount(by(u), x)).is_ok(),
                        1 => tx(|| Escrow::increase_unlock_height(by(u), end)).is_ok(),
                        _ => {
                            let _ = tx(|| Escrow::withdraw(by(u)));
                            tx(|| Escrow::create_lock(by(u), x, end)).is_ok()
                        }
                    };
                    (format!("the lock of {u} changes ({done}), now {}", power(u)), true, true)
                }
            };
            s.note(|| format!("{} at {}", what, now()));
            check_eq!(ok, want, "{what}: of {m:?}");
            if ok {
                m = next;
            } else {
                check!(storage_root() == before, "a refused call changed something: {what}");
                s.label("refused");
            }
            m.same()?;
            check!(m.candidates.len() as u32 <= max, "more candidates than there may be");
            Ok(())
        })?;
        if kept > 0 {
            s.label("kept for want of others");
        }
        if kicked > 0 {
            s.label("kicked");
            s.nontrivial();
        }
        Ok(())
    })
}
