//! Referenda: proposed with a deposit, launched in turn, voted on with voting power, and carried out once if approved.
use crate::rt::*;
use democracy::{Approved, ReferendumInfo, Tally, Vote, VoteThreshold};
use frame_support::traits::{Bounded, Hooks, ReservableCurrency};
use pbt::{check, check_eq, Src, R};
use std::collections::BTreeMap;

const USERS: usize = 5;
const N: CurrencyId = Token(INTR);

#[derive(Clone, Debug)]
struct Prop {
    id: u32,
    call: usize,
    who: usize,
    deposit: u128,
    by: Vec<usize>,
}
impl Prop {
    fn backing(&self) -> u128 {
        self.deposit * self.by.len() as u128
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Ref {
    Open { end: u64, call: usize, kind: VoteThreshold, delay: u64 },
    Done { end: u64, approved: bool },
    Gone,
}
#[derive(Clone, Debug, Default)]
struct Model {
    calls: usize,
    count: u32,
    props: Vec<Prop>,
    refs: Vec<Ref>,
    votes: BTreeMap<(usize, u32), (bool, u128)>,
    next: u64,
    /// approved, and held for the one who carries it out
    held: Vec<usize>,
}
#[derive(Clone, Debug)]
enum Op {
    Propose(usize, bool, u128),
    Second(usize, u32),
    Vote(usize, u32, bool, u128),
    Unvote(usize, u32),
    /// by root, id, delay, in the short time
    Track(bool, u32, u64, bool),
    Hurry(bool, u32),
    Cancel(bool, u32),
    Clear(bool),
    Drop(Option<usize>, u32),
    Spend(bool, usize, u128),
    Start(VoteThreshold, u64),
    Lock(usize, u128),
    Block(u64),
}
/// a call of which there is a preimage; every third is small enough to be given whole
fn call(i: usize) -> Bounded<RuntimeCall> {
    let hash = H256::from_low_u64_be(i as u64 + 1);
    match i % 3 {
        0 => Bounded::Inline((i as u64).to_le_bytes().to_vec().try_into().unwrap()),
        1 => Bounded::Lookup { hash, len: 100 },
        _ => Bounded::Legacy { hash, dummy: Default::default() },
    }
}
fn power(u: usize) -> u128 {
    Escrow::balance_at(&user(u), None)
}
impl Model {
    fn deposits(&self, u: usize) -> u128 {
        self.props.iter().map(|p| p.deposit * p.by.iter().filter(|x| **x == u).count() as u128).sum()
    }
    fn free(&self, u: usize) -> u128 {
        power(u).saturating_sub(self.deposits(u))
    }
    fn open(&self, r: u32) -> bool {
        matches!(self.refs.get(r as usize), Some(Ref::Open { .. }))
    }
    fn tally(&self, r: u32) -> (u128, u128) {
        let of = |aye: bool| self.votes.iter().filter(|(k, v)| k.1 == r && v.0 == aye).map(|(_, v)| v.1).sum();
        (of(true), of(false))
    }
    /// some if the call must be refused
    fn apply(&mut self, op: &Op) -> Result<(), &'static str> {
        let t = now();
        match *op {
            Op::Propose(u, known, x) => {
                if x < MinimumDeposit::get() {
                    return Err("too small a deposit");
                }
                if self.props.len() >= MaxProposals::get() as usize {
                    return Err("too many proposals");
                }
                if !known && self.calls % 3 != 0 {
                    return Err("there is no preimage");
                }
                if x > self.free(u) {
                    return Err("cannot pay the deposit");
                }
                self.props.push(Prop { id: self.count, call: self.calls, who: u, deposit: x, by: vec![u] });
                self.calls += 1;
                self.count += 1;
            }
            Op::Second(u, id) => {
                let free = self.free(u);
                let Some(p) = self.props.iter_mut().find(|p| p.id == id) else { return Err("no such proposal") };
                if p.by.len() >= MaxDeposits::get() as usize {
                    return Err("too many deposits");
                }
                if p.deposit > free {
                    return Err("cannot pay the deposit");
                }
                p.by.push(u);
            }
            Op::Vote(u, r, aye, x) => {
                if !self.open(r) {
                    return Err("no such referendum");
                }
                if x > self.free(u) {
                    return Err("not so much power");
                }
                if !self.votes.contains_key(&(u, r)) && self.votes.keys().filter(|k| k.0 == u).count() >= MaxVotes::get() as usize {
                    return Err("too many votes");
                }
                self.votes.insert((u, r), (aye, x));
            }
            Op::Unvote(u, r) => {
                if self.votes.remove(&(u, r)).is_none() {
                    return Err("did not vote");
                }
            }
            Op::Track(root, id, delay, short) => {
                let Some(i) = self.props.iter().position(|p| p.id == id) else { return Err("no such proposal") };
                if !root {
                    return Err("only the root may");
                }
                let p = self.props.remove(i);
                let n = if short { FastTrackVotingPeriod::get() } else { VotingPeriod::get() };
                self.refs.push(Ref::Open { end: t + n, call: p.call, kind: VoteThreshold::SuperMajorityApprove, delay });
            }
            Op::Hurry(root, r) => {
                if !root {
                    return Err("only the root may");
                }
                let soon = t + FastTrackVotingPeriod::get();
                match self.refs.get_mut(r as usize) {
                    Some(Ref::Open { end, .. }) if *end > soon => *end = soon,
                    _ => return Err("no referendum that would end later"),
                }
            }
            Op::Cancel(root, r) => {
                if !root {
                    return Err("only the root may");
                }
                if let Some(x) = self.refs.get_mut(r as usize) {
                    *x = Ref::Gone;
                }
            }
            Op::Clear(root) => {
                if !root {
                    return Err("only the root may");
                }
                self.props.clear();
            }
            Op::Drop(who, id) => {
                let Some(i) = self.props.iter().position(|p| p.id == id) else { return Err("no such proposal") };
                if who.map_or(false, |u| u != self.props[i].who) {
                    return Err("not the proposer");
                }
                self.props.remove(i);
            }
            Op::Spend(root, _, x) => {
                if !root {
                    return Err("only the root may");
                }
                if x > bal(N, &TreasuryAccount::get()) {
                    return Err("there is not so much");
                }
            }
            Op::Start(kind, delay) => {
                self.refs.push(Ref::Open { end: t + VotingPeriod::get(), call: self.calls, kind, delay });
                self.calls += 1;
            }
            Op::Lock(..) | Op::Block(_) => (),
        }
        Ok(())
    }
}
fn passed(kind: VoteThreshold, ayes: u128, nays: u128, electorate: u128) -> bool {
    let big = |x: u128| BigInt::from(x);
    let turnout = ayes + nays;
    let (v, e) = (big(turnout).sqrt(), big(electorate.max(turnout)).sqrt());
    if turnout == 0 {
        return false;
    }
    match kind {
        VoteThreshold::SuperMajorityApprove => big(nays) * e < big(ayes) * v,
        VoteThreshold::SuperMajorityAgainst => big(nays) * v < big(ayes) * e,
        VoteThreshold::SimpleMajority => ayes > nays,
    }
}
fn kind(s: &mut Src) -> VoteThreshold {
    *s.pick(&[VoteThreshold::SuperMajorityApprove, VoteThreshold::SuperMajorityAgainst, VoteThreshold::SimpleMajority])
}
fn near(s: &mut Src, x: u128) -> u128 {
    match s.below(4) {
        0 => x.saturating_add(1).saturating_sub(s.u128(2)),
        1 => x / 2 + s.u128(x / 2),
        _ => s.u128(x),
    }
}
fn gen(s: &mut Src, m: &Model) -> Op {
    let u = s.idx(USERS);
    let odd = s.ratio(1, 8);
    let an = |s: &mut Src, n: usize| if s.ratio(1, 10) { s.below(n as u64 + 2) as u32 } else { (n as u64).saturating_sub(1 + s.below(4)) as u32 };
    let prop = |s: &mut Src| if m.props.is_empty() || s.ratio(1, 10) { s.below(m.count as u64 + 1) as u32 } else { m.props[s.idx(m.props.len())].id };
    let open: Vec<u32> = (0..m.refs.len() as u32).filter(|r| m.open(*r)).collect();
    let live = |s: &mut Src| if open.is_empty() || s.ratio(1, 8) { an(s, m.refs.len()) } else { *s.pick(&open) };
    match s.weighted(&[8, 5, 14, 3, 2, 2, 1, 1, 2, 1, 3, 2, 14]) {
        0 => {
            let x = if odd { near(s, MinimumDeposit::get()) } else { MinimumDeposit::get() + near(s, m.free(u) / 3) };
            Op::Propose(u, !s.ratio(1, 8), x)
        }
        1 => Op::Second(u, prop(s)),
        2 => {
            let x = if odd { m.free(u).saturating_add(1) } else { near(s, m.free(u)) };
            Op::Vote(u, live(s), !s.ratio(1, 3), x)
        }
        3 => {
            let mine: Vec<u32> = m.votes.keys().filter(|k| k.0 == u).map(|k| k.1).collect();
            Op::Unvote(u, if mine.is_empty() || odd { an(s, m.refs.len()) } else { *s.pick(&mine) })
        }
        4 => Op::Track(!odd, prop(s), s.below(6), s.bool()),
        5 => Op::Hurry(!odd, live(s)),
        6 => Op::Cancel(!odd, live(s)),
        7 => Op::Clear(!odd),
        8 => {
            let id = prop(s);
            let who = m.props.iter().find(|p| p.id == id).map_or(0, |p| p.who);
            Op::Drop(if s.ratio(1, 3) { None } else if odd { Some(u) } else { Some(who) }, id)
        }
        9 => Op::Spend(!odd, u, near(s, bal(N, &TreasuryAccount::get()))),
        10 => Op::Start(kind(s), s.below(6)),
        11 => Op::Lock(u, s.u128(1_000_000)),
        _ => Op::Block(match s.below(4) {
            0 => LaunchPeriod::get() + s.below(3) - 1,
            1 => s.below(4 * LaunchPeriod::get()),
            _ => s.below(LaunchPeriod::get() / 2 + 1),
        }),
    }
}
fn exec(op: &Op, m: &Model) -> Result<(), String> {
    let f = |r: Result<(), sp_runtime::DispatchError>| r.map_err(|e| format!("{e:?}"));
    match *op {
        Op::Propose(u, known, x) => {
            let c = call(m.calls);
            set_have(if known { vec![c.hash()] } else { vec![] });
            f(tx(|| Democracy::propose(by(u), c, x)))
        }
        Op::Second(u, id) => f(tx(|| Democracy::second(by(u), id))),
        Op::Vote(u, r, aye, balance) => f(tx(|| Democracy::vote(by(u), r, Vote { aye, balance }))),
        Op::Unvote(u, r) => f(tx(|| Democracy::remove_vote(by(u), r))),
        Op::Track(o, id, d, true) => f(tx(|| Democracy::fast_track(origin(o), id, d))),
        Op::Track(o, id, d, false) => f(tx(|| Democracy::table_proposal(origin(o), id, d))),
        Op::Hurry(o, r) => f(tx(|| Democracy::fast_track_referendum(origin(o), r))),
        Op::Cancel(o, r) => f(tx(|| Democracy::cancel_referendum(origin(o), r))),
        Op::Clear(o) => f(tx(|| Democracy::clear_public_proposals(origin(o)))),
        Op::Drop(who, id) => f(tx(|| Democracy::cancel_proposal(who.map_or(root(), by), id))),
        Op::Spend(o, u, x) => f(tx(|| Democracy::spend_from_treasury(origin(o), x, user(u)))),
        Op::Start(kind, delay) => {
            let c = call(m.calls);
            <Preimages as frame_support::traits::QueryPreimage>::hold(&c);
            Democracy::internal_start_referendum(c, kind, delay);
            Ok(())
        }
        Op::Lock(u, x) => {
            give(N, &user(u), x);
            let _ = tx(|| Escrow::increase_amount(by(u), x));
            Ok(())
        }
        Op::Block(_) => unreachable!(),
    }
}
/// a block begins, some time after the last
fn block(s: &mut Src, m: &mut Model, secs: u64) -> R {
    System::set_block_number(now() + 1);
    Timestamp::set_timestamp(Timestamp::now() + secs * 1000);
    let sec = Timestamp::now() / 1000;
    let before = Democracy::referendum_count();
    pbt::guarded(|| Democracy::on_initialize(now()))?;
    // up to two of those with the most behind them
    let mut started = 0;
    if sec >= m.next {
        while m.next <= sec {
            m.next += LaunchPeriod::get();
        }
        for _ in 0..2 {
            let Some(most) = m.props.iter().map(|p| p.backing()).max() else { break };
            let r = before + started;
            let Some(ReferendumInfo::Ongoing(st)) = Democracy::referendum_info(r) else {
                pbt::fail!("at {sec} s, with {:?} waiting, no referendum {r} was started", m.props);
            };
            let Some(i) = m.props.iter().position(|p| call(p.call) == st.proposal) else {
                pbt::fail!("referendum {r} is on what no one proposed");
            };
            let p = m.props.remove(i);
            check_eq!(p.backing(), most, "what is behind {p:?}, which was launched before {:?}", m.props);
            m.refs.push(Ref::Open { end: now() + VotingPeriod::get(), call: p.call, kind: VoteThreshold::SuperMajorityApprove, delay: EnactmentPeriod::get() });
            started += 1;
            s.label("launched");
        }
    }
    check_eq!(Democracy::referendum_count(), before + started, "the referenda started at {sec} s");
    let all: u128 = (0..USERS).map(power).sum();
    let mut due = vec![];
    for r in 0..m.refs.len() {
        let Ref::Open { end, call: c, kind, delay } = m.refs[r].clone() else { continue };
        if end != now() {
            continue;
        }
        let (ayes, nays) = m.tally(r as u32);
        let ok = passed(kind, ayes, nays, all);
        s.note(|| format!("referendum {r} ({kind:?}): {ayes} for, {nays} against, of {all}: {ok}"));
        m.refs[r] = Ref::Done { end, approved: ok };
        if ayes + nays > 0 {
            s.nontrivial();
            s.label(if ok { "approved" } else { "rejected" });
        }
        if ok {
            due.push((now() + delay.max(1), call(c).hash()));
            m.held.push(c);
        }
    }
    let tasks = agenda();
    check!(tasks.iter().all(|t| t.once && t.root), "scheduled otherwise than once as root: {tasks:?}");
    for (i, a) in tasks.iter().enumerate() {
        check!(tasks[..i].iter().all(|b| b.id != a.id), "two tasks of one name: {tasks:?}");
    }
    let mut is: Vec<_> = tasks.iter().map(|t| (t.at, t.call)).collect();
    is.sort();
    due.sort();
    check_eq!(is, due, "what is to be carried out");
    Ok(())
}
fn judge(m: &Model) -> R {
    for u in 0..USERS {
        check_eq!(<Escrow as ReservableCurrency<Acc>>::reserved_balance(&user(u)), m.deposits(u), "the deposits of user {u}: {:?}", m.props);
    }
    check_eq!(Democracy::public_prop_count(), m.count, "the proposals made so far");
    let mut is: Vec<(u32, H256, Acc)> = Democracy::public_props().into_iter().map(|(i, c, w)| (i, c.hash(), w)).collect();
    is.sort();
    let want: Vec<_> = m.props.iter().map(|p| (p.id, call(p.call).hash(), user(p.who))).collect();
    check_eq!(is, want, "the proposals waiting");
    for p in &m.props {
        check_eq!(Democracy::backing_for(p.id), Some(p.backing()), "what is behind {p:?}");
    }
    for (r, x) in m.refs.iter().enumerate() {
        let is = Democracy::referendum_info(r as u32);
        let (ayes, nays) = m.tally(r as u32);
        let want = match x {
            Ref::Open { end, call: c, kind, delay } => Some(ReferendumInfo::Ongoing(democracy::ReferendumStatus {
                end: *end,
                proposal: call(*c),
                threshold: *kind,
                delay: *delay,
                tally: Tally { ayes, nays, turnout: ayes + nays },
            })),
            Ref::Done { end, approved } => Some(ReferendumInfo::Finished { end: *end, approved: *approved }),
            Ref::Gone => None,
        };
        check_eq!(is, want, "referendum {r}");
    }
    // each preimage is held once while someone may still need it
    for i in 0..m.calls {
        let c = call(i);
        let open = m.refs.iter().any(|r| matches!(r, Ref::Open { call, .. } if *call == i));
        let want = (c.lookup_needed() && (open || m.props.iter().any(|p| p.call == i) || m.held.contains(&i))) as i64;
        let is = held().iter().find(|x| x.0 == c.hash()).map_or(0, |x| x.1);
        check_eq!(is, want, "how often call {i} is held");
    }
    Ok(())
}
pub fn histories(s: &mut Src) -> R {
    open(|| {
        Span::set(10);
        MaxPeriod::set(400);
        EnactmentPeriod::set(s.below(5));
        VotingPeriod::set(1 + s.below(6));
        FastTrackVotingPeriod::set(1 + s.below(4));
        LaunchPeriod::set(20 + s.below(80));
        MinimumDeposit::set(s.u128(20));
        System::set_block_number(10 + s.below(20));
        give(N, &TreasuryAccount::get(), 1_000_000);
        let size = 10u128.pow(3 + s.below(12) as u32);
        for u in 0..USERS {
            if s.ratio(5, 6) {
                let x = 400 + s.u128(size);
                give(N, &user(u), x);
                Escrow::create_lock(by(u), x, now() + 10 + s.below(390)).unwrap();
            }
        }
        let sec = Timestamp::now() / 1000;
        let mut m = Model { next: if s.bool() { sec + s.below(LaunchPeriod::get()) } else { sec - s.below(1000) }, ..Default::default() };
        democracy::NextLaunchTimestamp::<Test>::put(m.next);
        s.note(|| format!("periods: {} to vote, {} fast, {} to enact, {} s to launch; least deposit {}; powers {:?}", VotingPeriod::get(), FastTrackVotingPeriod::get(), EnactmentPeriod::get(), LaunchPeriod::get(), MinimumDeposit::get(), (0..USERS).map(power).collect::<Vec<_>>()));
        s.steps(8, 60, |s| {
            let op = gen(s, &m);
            if let Op::Block(secs) = op {
                s.note(|| format!("a block after {secs} s"));
                block(s, &mut m, secs)?;
            } else {
                let (pot, had) = (bal(N, &TreasuryAccount::get()), held());
                let before = storage_root();
                let mut next = m.clone();
                let want = next.apply(&op);
                let res = pbt::guarded(|| exec(&op, &m))?;
                s.note(|| format!("at {}: {op:?} -> {res:?}", now()));
                match want {
                    Err(why) => check!(res.is_err(), "{op:?} went through: {why}"),
                    Ok(()) => check!(res.is_ok(), "{op:?} was refused: {res:?}"),
                }
                if res.is_err() {
                    set_held(had);
                    check!(storage_root() == before, "{op:?} was refused and yet changed something");
                } else {
                    m = next;
                    s.label(match op {
                        Op::Propose(..) => "propose",
                        Op::Second(..) => "second",
                        Op::Vote(..) => "vote",
                        Op::Unvote(..) => "unvote",
                        Op::Track(..) => "track",
                        Op::Hurry(..) => "hurry",
                        Op::Cancel(..) => "cancel",
                        Op::Clear(..) => "clear",
                        Op::Drop(..) => "drop",
                        Op::Spend(..) => "spend",
                        _ => "other",
                    });
                }
                let spent = if let (Op::Spend(_, _, x), true) = (&op, res.is_ok()) { *x } else { 0 };
                check_eq!(bal(N, &TreasuryAccount::get()), pot - spent, "the treasury after {op:?}");
            }
            judge(&m)
        })
    })
}
/// the outcome of a vote, from its tally and the power there is
pub fn threshold(s: &mut Src) -> R {
    let k = kind(s);
    let top = 10u128.pow(s.below(30) as u32);
    let electorate = s.u128(top);
    let turnout = if s.ratio(1, 5) { s.u128(top) } else { near(s, electorate) };
    // near where it tips
    let at = |ayes: u128| passed(k, ayes, turnout - ayes, electorate);
    let ayes = if s.bool() || !at(turnout) {
        s.u128(turnout)
    } else {
        let (mut no, mut yes) = (0, turnout);
        while yes - no > 1 {
            let mid = no + (yes - no) / 2;
            if at(mid) {
                yes = mid
            } else {
                no = mid
            }
        }
        s.nontrivial();
        (yes + 1).saturating_sub(s.u128(3)).min(turnout)
    };
    let nays = turnout - ayes;
    let want = passed(k, ayes, nays, electorate);
    s.label(if want { "approved" } else { "rejected" });
    let is = pbt::guarded(|| k.approved(Tally { ayes, nays, turnout }, electorate))?;
    check_eq!(is, want, "{k:?} with {ayes} for and {nays} against of {electorate}");
    Ok(())
}
