//! Emission: what a block pays to those who have locked, and how the supply grows.
use crate::rt::*;
use frame_support::traits::Hooks;
use pbt::{check, check_eq, Src, R};

const USERS: usize = 4;
const N: CurrencyId = Token(INTR);
type Rewards = EscrowRewards;

fn stake_of(u: usize) -> Rat {
    fx(Rewards::stake(&(), &user(u)))
}
fn owed(u: usize) -> Result<u128, String> {
    use reward::RewardsApi;
    pbt::guarded(|| dry(|| <Rewards as RewardsApi<(), Acc, u128>>::withdraw_reward(&(), &user(u), N)))
        .map_err(|e| format!("{e:?}"))?
        .map_err(|e| format!("{e:?}"))
}
#[derive(Clone, Debug)]
enum Op {
    Stake(usize, u128),
    Leave(usize, u128),
    Withdraw(usize),
    Update(bool),
    PerWrapped(bool, u128),
    Wrapped(u128),
    Fund(u128),
    Blocks(u64),
}
/// what has been promised and paid
#[derive(Clone, Debug)]
struct Model {
    per_block: u128,
    per_wrapped: Option<u128>,
    /// what each has earned and not had, exactly
    due: [Rat; USERS],
    /// by how much that may be off: the last digits of each reward for a unit, and what withdrawing leaves
    off: [Rat; USERS],
    /// blocks since the last update
    blocks: u64,
    /// something earned before was still to be paid when the amount per block was set, so more was promised than there is
    twice: bool,
}
fn size(s: &mut Src) -> u128 {
    match s.below(3) {
        0 => s.u128(200),
        1 => s.u128(1_000_000_000),
        _ => s.u128(10u128.pow(18)),
    }
}
fn gen(s: &mut Src, m: &Model) -> Op {
    let u = s.idx(USERS);
    let odd = s.ratio(1, 6);
    match s.weighted(&[6, 3, 6, 3, 2, 2, 3, 12]) {
        0 => Op::Stake(u, size(s)),
        1 => {
            let x = floor_u128(&stake_of(u));
            Op::Leave(u, if odd { x + 1 } else { s.u128(x + 1) })
        }
        2 => Op::Withdraw(u),
        3 => Op::Update(!odd),
        4 => Op::PerWrapped(!odd, if s.bool() { s.u128(10) } else { size(s) }),
        5 => Op::Wrapped(if s.bool() { s.u128(m.per_block + 2) } else { size(s) }),
        6 => Op::Fund(size(s)),
        _ => Op::Blocks(1 + s.below(12)),
    }
}
fn exec(op: &Op) -> Result<(), String> {
    use reward::RewardsApi;
    let f = |r: Result<(), sp_runtime::DispatchError>| r.map_err(|e| format!("{e:?}"));
    let g = |r: frame_support::dispatch::DispatchResultWithPostInfo| r.map(|_| ()).map_err(|e| format!("{:?}", e.error));
    match *op {
        Op::Stake(u, x) => f(tx(|| <Rewards as RewardsApi<(), Acc, u128>>::deposit_stake(&(), &user(u), x))),
        Op::Leave(u, x) => f(tx(|| <Rewards as RewardsApi<(), Acc, u128>>::withdraw_stake(&(), &user(u), x))),
        Op::Withdraw(u) => g(EscrowAnnuity::withdraw_rewards(by(u))),
        Op::Update(r) => g(EscrowAnnuity::update_rewards(origin(r))),
        Op::PerWrapped(r, x) => g(EscrowAnnuity::set_reward_per_wrapped(origin(r), x)),
        Op::Wrapped(x) => {
            TotalWrapped::set(x);
            Ok(())
        }
        Op::Fund(x) => {
            give(N, &annuity_account(), x);
            Ok(())
        }
        Op::Blocks(_) => unreachable!(),
    }
}
pub fn annuity(s: &mut Src) -> R {
    open(|| {
        EmissionPeriod::set(*s.pick(&[100, 30, 7, 1000]));
        TotalWrapped::set(size(s));
        give(N, &annuity_account(), size(s));
        let zero = || [rat(0), rat(0), rat(0), rat(0)];
        let mut m = Model { per_block: 0, per_wrapped: None, due: zero(), off: zero(), blocks: 0, twice: false };
        s.steps(6, 50, |s| {
            let op = gen(s, &m);
            m.off.iter_mut().for_each(|x| *x += ulp() * rat(2));
            let pot = bal(N, &annuity_account());
            let have: Vec<u128> = (0..USERS).map(|u| bal(N, &user(u))).collect();
            if let Op::Blocks(n) = op {
                s.note(|| format!("{n} blocks"));
                for _ in 0..n {
                    System::set_block_number(now() + 1);
                    let r = m.per_wrapped.map_or(m.per_block, |w| m.per_block.min(w.saturating_mul(TotalWrapped::get())));
                    check_eq!(EscrowAnnuity::min_reward_per_block(), r, "what a block pays, of {m:?} with {} wrapped", TotalWrapped::get());
                    let t = fx(Rewards::total_stake(()));
                    let before = fx(Rewards::total_rewards(N));
                    pbt::guarded(|| EscrowAnnuity::on_initialize(now()))?;
                    let given = fx(Rewards::total_rewards(N)) - before;
                    let want = if t.is_zero() { 0 } else { r };
                    check!(given == rat(want), "a block gave {}, not {want}: {m:?}", show(&given));
                    if want > 0 {
                        s.label("paid");
                        for u in 0..USERS {
                            m.due[u] += stake_of(u) * rat(want) / &t;
                            m.off[u] += ulp() * (stake_of(u) + rat(2));
                        }
                    }
                    m.blocks += 1;
                }
                check_eq!(bal(N, &annuity_account()), pot, "a block moved funds");
            } else {
                let root_before = storage_root();
                let will = matches!(op, Op::Withdraw(_)).then(|| if let Op::Withdraw(u) = op { owed(u) } else { unreachable!() });
                let res = pbt::guarded(|| exec(&op))?;
                s.note(|| format!("{op:?} -> {res:?}"));
                if res.is_err() {
                    check!(root_before == storage_root(), "{op:?} was refused ({res:?}) and yet changed something");
                }
                let mut paid = vec![0; USERS];
                match op {
                    Op::Withdraw(u) => {
                        let will = will.unwrap();
                        match (&will, &res) {
                            (Ok(x), Ok(())) => {
                                let got = bal(N, &user(u)) - have[u];
                                check_eq!(got, *x, "what user {u} was paid");
                                m.off[u] += rat(1);
                                let d = &m.due[u] - rat(got);
                                check!(d <= m.off[u] && -d <= m.off[u], "user {u} was paid {got}, having earned {}", show(&m.due[u]));
                                m.due[u] -= rat(got);
                                paid[u] = got;
                                if got > 0 {
                                    s.label("withdrawn");
                                    s.nontrivial();
                                }
                            }
                            (Ok(x), Err(e)) => {
                                check!(*x > pot, "user {u} has earned {x}, the account has {pot}, and the withdrawal was refused: {e}");
                                if !m.twice && m.blocks <= EmissionPeriod::get() {
                                    pbt::fail!("user {u} has earned {x} and only {pot} is left {} blocks after the amount per block was set", m.blocks);
                                }
                                if m.twice {
                                    s.label("promised twice");
                                }
                            }
                            (Err(e), r) => check!(r.is_err(), "user {u} has nothing to withdraw ({e}) and was paid"),
                        }
                    }
                    Op::Update(r) => {
                        check_eq!(res.is_ok(), r, "updating the rewards as {}", if r { "root" } else { "a user" });
                        if r {
                            m.per_block = pot / EmissionPeriod::get() as u128;
                            m.blocks = 0;
                            m.twice = m.due.iter().any(|d| *d >= rat(1));
                        }
                    }
                    Op::PerWrapped(r, x) => {
                        check_eq!(res.is_ok(), r, "setting the reward as {}", if r { "root" } else { "a user" });
                        if r {
                            m.per_wrapped = Some(x);
                        }
                    }
                    _ => (),
                }
                let pot_now = bal(N, &annuity_account());
                let fund = if let Op::Fund(x) = op { x } else { 0 };
                check_eq!(pot_now, pot + fund - paid.iter().sum::<u128>(), "the account of rewards after {op:?}");
                for u in 0..USERS {
                    check_eq!(bal(N, &user(u)), have[u] + paid[u], "user {u} after {op:?}");
                }
            }
            check_eq!((EscrowAnnuity::reward_per_block(), EscrowAnnuity::reward_per_wrapped()), (m.per_block, m.per_wrapped), "the rewards after {op:?}");
            Ok(())
        })
    })
}

/// the supply grows by its part at the height it must, once a period, and what it grows by goes where it must
pub fn supply(s: &mut Src) -> R {
    InflationPeriod::set(1 + s.below(30));
    let initial = size(s) * 10;
    let part = |s: &mut Src| FixedU128::from_inner(match s.below(4) { 0 => 0, 1 => s.u128(1_000_000_000_000_000_000), 2 => s.u128(100_000_000_000_000_000), _ => s.u128(3_000_000_000_000_000_000) });
    let mut start = s.below(20);
    let mut infl = part(s);
    open_with(initial, start, infl, || {
        check_eq!((bal(N, &supply_account()), Supply::start_height(), Supply::inflation()), (initial, Some(start), infl), "at genesis");
        let mut last = 0;
        s.steps(4, 30, |s| {
            match s.weighted(&[10, 2, 2, 2]) {
                0 => {
                    let n = 1 + s.below(12);
                    s.note(|| format!("{n} blocks"));
                    for _ in 0..n {
                        System::set_block_number(now() + 1);
                        let (all, at) = (issued(N), bal(N, &supply_account()));
                        let due = now() == start;
                        let x = if due { floor_u128(&(fx(infl) * rat(all))) } else { 0 };
                        pbt::guarded(|| Supply::on_initialize(now()))?;
                        check_eq!((issued(N), bal(N, &supply_account())), (all + x, at + x), "the supply of {all} after block {} with an inflation of {infl:?} at {start}", now());
                        check_eq!(inflated(), if due { vec![(supply_account(), x)] } else { vec![] }, "who was told of the inflation at {}", now());
                        if due {
                            start = now() + InflationPeriod::get();
                            last = x;
                            s.label("inflated");
                            s.nontrivial();
                        }
                        check_eq!((Supply::start_height(), Supply::last_emission()), (Some(start), last), "the next height after {}", now());
                    }
                }
                1 => {
                    let r = !s.ratio(1, 4);
                    let (a, b) = ((now() + 12).saturating_sub(s.below(14)), part(s));
                    let res = pbt::guarded(|| Supply::set_start_height_and_inflation(origin(r), a, b))?;
                    s.note(|| format!("start {a}, inflation {b:?} (root {r}) -> {}", res.is_ok()));
                    check_eq!(res.is_ok(), r, "setting the inflation");
                    if r {
                        (start, infl) = (a, b);
                    }
                }
                2 => {
                    let x = s.u128(bal(N, &supply_account()));
                    send(N, &supply_account(), &user(0), x).unwrap();
                }
                _ => give(N, &user(1), size(s)),
            }
            check_eq!((Supply::start_height(), Supply::inflation(), Supply::last_emission()), (Some(start), infl, last), "what is set");
            // no growth without bounds
            if issued(N) > 10u128.pow(27) {
                infl = FixedU128::from_inner(0);
                Supply::set_start_height_and_inflation(root(), start, infl).unwrap();
            }
            Ok(())
        })
    })
}

/// what is earned and not yet withdrawn is promised once more when the reward per block is set again
fn promised_twice() -> bool {
    use reward::RewardsApi;
    open(|| {
        EmissionPeriod::set(10);
        give(N, &annuity_account(), 100);
        <Rewards as RewardsApi<(), Acc, u128>>::deposit_stake(&(), &user(0), 1).unwrap();
        let blocks = |n: u64| {
            for _ in 0..n {
                System::set_block_number(now() + 1);
                EscrowAnnuity::on_initialize(now());
            }
        };
        let set = || tx(|| EscrowAnnuity::update_rewards(root()).map(|_| ()).map_err(|e| e.error)).is_ok();
        if !set() {
            return false;
        }
        blocks(5);
        if !set() {
            return false;
        }
        blocks(10);
        matches!(owed(0), Ok(x) if x > bal(N, &annuity_account()))
    })
}
pub const FINDINGS: &[pbt::Finding] = &[pbt::Finding {
    text: "annuity update_reward_per_block counts rewards that were earned but not withdrawn as still to be emitted, and so promises them twice; the last to withdraw is refused (fund 100 for 10 blocks, one staker, update after 5 blocks, 10 blocks later 150 is owed of 100)",
    probe: promised_twice,
}];
