//! What is emitted, and who gets it.
use super::world::*;

/// an inflation: the published split, and the annuities' rates
pub fn inflation(s: &mut Src) -> R {
    open(|| {
        let all = rt::get_all_module_accounts();
        let mut names = all.clone();
        names.sort();
        names.dedup();
        check_eq!(names.len(), all.len(), "two modules share an account: {all:?}");
        let (supply, vaults, stakers, treasury) = (SupplyAccount::get(), VaultAnnuityAccount::get(), EscrowAnnuityAccount::get(), TreasuryAccount::get());
        for a in [&supply, &vaults, &stakers, &treasury, &FeeAccount::get(), &user(0)] {
            if s.bool() {
                give(NATIVE, a, size(s));
            }
        }
        let start = 2 + s.below(20) as u32;
        let rate = UnsignedFixedPoint::from_inner(match s.below(3) {
            0 => 2 * 10u128.pow(16),
            1 => s.u128(10u128.pow(15)),
            _ => s.u128(3 * 10u128.pow(18)),
        });
        rt::Supply::set_start_height_and_inflation(RuntimeOrigin::root(), start, rate).map_err(err)?;
        let heights = [start - 1, start, start + 1, start + YEAR - 1, start + YEAR, start + YEAR + 1, start + 2 * YEAR];
        for h in heights {
            let total = issuance(NATIVE);
            let before = [&supply, &vaults, &stakers, &treasury].map(|a| bal(NATIVE, a));
            let fee = bal(NATIVE, &FeeAccount::get());
            let per_block = (EscrowAnnuity::reward_per_block(), VaultAnnuity::reward_per_block());
            System::set_block_number(h);
            guarded(|| Supply::on_initialize(h))?;
            let got: Vec<i128> = [&supply, &vaults, &stakers, &treasury].iter().zip(before).map(|(a, b)| bal(NATIVE, a) as i128 - b as i128).collect();
            let due = (h - start.min(h)) % YEAR == 0 && h >= start;
            let amount = if due { floor_u128(&(fx(rate) * rat(total))) } else { 0 };
            s.note(|| format!("at {h}, with {total}: {amount} -> {got:?}"));
            check_eq!(issuance(NATIVE), total + amount, "supply at {h} (start {start}), of {total} at {}", show(&fx(rate)));
            check_eq!(got[0], 0, "what stays with the supply's account at {h}, of {amount}");
            check_eq!(got[1] + got[2] + got[3], amount as i128, "what the takers got at {h}: {got:?}");
            for (name, x, millionth) in [("the vaults", got[1], 400_000u32), ("the stakers", got[2], 67_000), ("the treasury", got[3], 533_000)] {
                let want = rat(amount) * ratio(millionth, 1_000_000u32);
                check!((rat(x) - &want).abs() <= rat(2), "{name} got {x} of {amount} at {h}, not {}", show(&want));
            }
            check_eq!(bal(NATIVE, &FeeAccount::get()), fee, "the fee pool at {h}");
            let want = if due { (bal(NATIVE, &stakers) / YEAR as u128, bal(NATIVE, &vaults) / YEAR as u128) } else { per_block };
            check_eq!((EscrowAnnuity::reward_per_block(), VaultAnnuity::reward_per_block()), want, "what a block pays to (stakers, vaults) after {h}");
            if due && got[1] > 0 && got[2] > 0 && got[3] > 0 {
                s.nontrivial();
            }
        }
        Ok(())
    })
}

const USERS: usize = 3;
#[derive(Clone, Debug)]
enum Op {
    Lock(usize, u128, u32),
    More(usize, u128),
    Longer(usize, u32),
    Unlock(usize),
    Refresh(usize),
    Capacity(usize, u128),
    Claim(usize),
    Pull(usize),
    Fund(bool, u128),
    Update(bool),
    PerWrapped(bool, u128),
    Wrapped(u128),
    Blocks(u32),
    Later(u32),
}
fn col(i: usize) -> CurrencyId {
    [NATIVE, RELAY, CurrencyId::ForeignAsset(1)][i]
}
fn gen(s: &mut Src) -> Op {
    let u = s.idx(USERS);
    match s.weighted(&[8, 2, 2, 2, 2, 6, 4, 4, 4, 4, 2, 3, 12, 2]) {
        0 => Op::Lock(u, least_lock() * (1 + s.u128(1_000_000)) + s.u128(1000), s.int(1, 96) as u32),
        1 => Op::More(u, size(s)),
        2 => Op::Longer(u, s.int(1, 96) as u32),
        3 => Op::Unlock(u),
        4 => Op::Refresh(u),
        5 => Op::Capacity(u, if s.ratio(1, 3) { 0 } else { size(s) }),
        6 => Op::Claim(u),
        7 => Op::Pull(u),
        8 => Op::Fund(s.bool(), size(s)),
        9 => Op::Update(s.bool()),
        10 => Op::PerWrapped(s.bool(), if s.bool() { s.u128(10) } else { size(s) }),
        11 => Op::Wrapped(s.u128(1_000_000_000)),
        12 => Op::Blocks(1 + s.below(8) as u32),
        _ => Op::Later(1 + s.below(WEEK as u64 * 3) as u32),
    }
}
fn exec(op: &Op) -> Result<u128, String> {
    let unit = |r: Result<(), sp_runtime::DispatchError>| r.map(|_| 0).map_err(err);
    match *op {
        Op::Lock(u, x, w) => {
            give(NATIVE, &user(u), x);
            unit(tx(|| Escrow::create_lock(by(u), x, now() + w * WEEK)))
        }
        Op::More(u, x) => {
            give(NATIVE, &user(u), x);
            unit(tx(|| Escrow::increase_amount(by(u), x)))
        }
        Op::Longer(u, w) => unit(tx(|| Escrow::increase_unlock_height(by(u), now() + w * WEEK))),
        Op::Unlock(u) => unit(tx(|| Escrow::withdraw(by(u)))),
        Op::Refresh(u) => unit(tx(|| Escrow::update_user_stake(by(0), user(u)))),
        Op::Capacity(u, x) => unit(tx(|| <VaultCapacity as RewardsApi<(), CurrencyId, u128>>::set_stake(&(), &col(u), x))),
        Op::Claim(u) => {
            let had = bal(NATIVE, &user(u));
            tx(|| EscrowAnnuity::withdraw_rewards(by(u))).map_err(err)?;
            Ok(bal(NATIVE, &user(u)) - had)
        }
        // what a vault's claim does to a currency's part
        Op::Pull(u) => tx(|| {
            let x = <VaultCapacity as RewardsApi<(), CurrencyId, u128>>::withdraw_reward(&(), &col(u), NATIVE)?;
            <Tokens as MultiCurrency<AccountId>>::transfer(NATIVE, &FeeAccount::get(), &user(u), x)?;
            Ok::<_, sp_runtime::DispatchError>(x)
        })
        .map_err(err),
        Op::Fund(v, x) => {
            give(NATIVE, &if v { VaultAnnuityAccount::get() } else { EscrowAnnuityAccount::get() }, x);
            Ok(0)
        }
        Op::Update(v) => if v { VaultAnnuity::update_rewards(RuntimeOrigin::root()) } else { EscrowAnnuity::update_rewards(RuntimeOrigin::root()) }.map(|_| 0).map_err(err),
        Op::PerWrapped(v, x) => if v { VaultAnnuity::set_reward_per_wrapped(RuntimeOrigin::root(), x) } else { EscrowAnnuity::set_reward_per_wrapped(RuntimeOrigin::root(), x) }
            .map(|_| 0)
            .map_err(err),
        Op::Wrapped(x) => {
            give(WRAPPED, &user(0), x);
            Ok(0)
        }
        Op::Blocks(_) | Op::Later(_) => unreachable!(),
    }
}
/// what a taker has earned and not had, and by how much that may be off
#[derive(Clone)]
struct Due {
    due: [Rat; USERS],
    off: [Rat; USERS],
    per_block: u128,
    per_wrapped: Option<u128>,
}
impl Due {
    fn new() -> Self {
        Due { due: [rat(0), rat(0), rat(0)], off: [rat(0), rat(0), rat(0)], per_block: 0, per_wrapped: None }
    }
    fn pays(&self) -> u128 {
        self.per_wrapped.map_or(self.per_block, |w| self.per_block.min(w.saturating_mul(issuance(WRAPPED))))
    }
    fn earn(&mut self, what: u128, stakes: &[Rat]) {
        let total: Rat = stakes.iter().cloned().sum();
        for (u, x) in stakes.iter().enumerate() {
            self.due[u] += x * rat(what) / &total;
            self.off[u] += ulp() * (x + rat(2));
        }
    }
    fn judge(&self, u: usize, x: u128, what: &str) -> R {
        let d = &self.due[u] - rat(x);
        check!(d >= -&self.off[u] && d <= &self.off[u] + rat(1), "{what} {u}: {x}, but {} was earned", show(&self.due[u]));
        Ok(())
    }
}
/// what the pool of the stakers, and that of the collaterals, hold
fn stakes() -> (Vec<Rat>, Vec<Rat>) {
    ((0..USERS).map(|u| fx(EscrowRewards::stake(&(), &user(u)))).collect(), (0..USERS).map(|u| fx(VaultCapacity::stake(&(), &col(u)))).collect())
}
pub fn emission(s: &mut Src) -> R {
    open(|| {
        let (fee, esc, vlt) = (FeeAccount::get(), EscrowAnnuityAccount::get(), VaultAnnuityAccount::get());
        let (mut staker, mut vault) = (Due::new(), Due::new());
        let (mut both, mut paid_out) = (false, false);
        // what the stakers were promised in all may be more than there is: what they have not fetched is promised again
        let mut promised = rat(0);
        let mut first = vec![];
        for v in [false, true] {
            if s.ratio(5, 6) {
                first.extend([Op::Update(v), Op::Fund(v, YEAR as u128 * 4 + size(s))]);
            }
        }
        s.steps(8, 60, |s| {
            let op = first.pop().unwrap_or_else(|| gen(s));
            for d in [&mut staker, &mut vault] {
                d.off.iter_mut().for_each(|x| *x += ulp() * rat(2));
            }
            match op {
                Op::Later(n) => {
                    s.note(|| format!("{n} blocks without rewards"));
                    System::set_block_number(now() + n);
                    return Ok(());
                }
                Op::Blocks(n) => {
                    for _ in 0..n {
                        let total = issuance(NATIVE);
                        let (f0, e0, v0) = (bal(NATIVE, &fee), bal(NATIVE, &esc), bal(NATIVE, &vlt));
                        let (se, sv) = stakes();
                        let (re, rv) = (staker.pays(), vault.pays());
                        check_eq!((EscrowAnnuity::min_reward_per_block(), VaultAnnuity::min_reward_per_block()), (re, rv), "what a block pays to (stakers, vaults)");
                        let given = (fx(EscrowRewards::total_rewards(NATIVE)), fx(VaultCapacity::total_rewards(NATIVE)));
                        block(now() + 1)?;
                        let given = (fx(EscrowRewards::total_rewards(NATIVE)) - given.0, fx(VaultCapacity::total_rewards(NATIVE)) - given.1);
                        let to_e = if se.iter().all(|x| x.is_zero()) { 0 } else { re };
                        let to_v = if sv.iter().all(|x| x.is_zero()) || v0 < rv { 0 } else { rv };
                        s.note(|| format!("block {}: {} to stakers, {} to vaults; {f0} -> {} in the fee pool", now(), show(&given.0), show(&given.1), bal(NATIVE, &fee)));
                        check!(given.0 == rat(to_e), "the stakers got {} in block {}, not {to_e}", show(&given.0), now());
                        check!(given.1 == rat(to_v), "the vaults got {} in block {}, not {to_v}", show(&given.1), now());
                        check_eq!(bal(NATIVE, &esc), e0, "the stakers' annuity over block {}", now());
                        check_eq!(
                            (v0 - bal(NATIVE, &vlt), bal(NATIVE, &fee) - f0),
                            (to_v, to_v),
                            "what left the vaults' annuity and came to the fee pool in block {}, when {to_v} was credited to vaults",
                            now()
                        );
                        check_eq!(issuance(NATIVE), total, "supply over block {}", now());
                        if to_e > 0 {
                            staker.earn(to_e, &se);
                            promised += rat(to_e);
                        }
                        if to_v > 0 {
                            vault.earn(to_v, &sv);
                        }
                        both |= to_e > 0 && to_v > 0;
                    }
                }
                _ => {
                    let before = (bal(NATIVE, &fee), bal(NATIVE, &esc), bal(NATIVE, &vlt));
                    let res = guarded(|| exec(&op))?;
                    s.note(|| format!("{op:?} -> {res:?}"));
                    let after = (bal(NATIVE, &fee), bal(NATIVE, &esc), bal(NATIVE, &vlt));
                    let mut want = before;
                    match (&op, &res) {
                        (Op::Claim(u), Ok(x)) => {
                            staker.judge(*u, *x, "paid to the staker")?;
                            (staker.due[*u], staker.off[*u]) = (rat(0), ulp());
                            promised -= rat(*x);
                            want.1 -= *x;
                            paid_out |= *x > 0;
                        }
                        (Op::Claim(_), Err(e)) => check!(promised > rat(bal(NATIVE, &esc)), "the staker's claim fails with enough in the annuity: {e}"),
                        (Op::Pull(u), Ok(x)) => {
                            vault.judge(*u, *x, "paid for the collateral")?;
                            (vault.due[*u], vault.off[*u]) = (rat(0), ulp());
                            want.0 -= *x;
                            paid_out |= *x > 0;
                        }
                        (Op::Pull(_), Err(e)) => fail!("the claim for a collateral fails: {e}"),
                        (Op::Fund(v, x), _) => *(if *v { &mut want.2 } else { &mut want.1 }) += *x,
                        (Op::Update(v), Ok(_)) => {
                            let (d, pot) = if *v { (&mut vault, after.2) } else { (&mut staker, after.1) };
                            d.per_block = pot / YEAR as u128;
                        }
                        (Op::PerWrapped(v, x), Ok(_)) => (if *v { &mut vault } else { &mut staker }).per_wrapped = Some(*x),
                        _ => (),
                    }
                    check_eq!(after, want, "(fee pool, stakers' annuity, vaults' annuity) after {op:?}");
                }
            }
            for u in 0..USERS {
                let e = <EscrowRewards as RewardsApi<(), AccountId, u128>>::compute_reward(&(), &user(u), NATIVE).map_err(err)?;
                staker.judge(u, e, "owed to the staker")?;
                let v = <VaultCapacity as RewardsApi<(), CurrencyId, u128>>::compute_reward(&(), &col(u), NATIVE).map_err(err)?;
                vault.judge(u, v, "owed for the collateral")?;
            }
            if both && paid_out {
                s.nontrivial();
            }
            Ok(())
        })
    })
}

/// a transaction's fee and tip go to the block's author
pub fn fees(s: &mut Src) -> R {
    use frame_support::traits::{Currency, OnUnbalanced};
    open(|| {
        give(NATIVE, &user(0), 10u128.pow(24));
        s.steps(1, 8, |s| {
            let author = if s.ratio(1, 5) { None } else { Some(user(1 + s.idx(2))) };
            rt::set_author(author.clone());
            let parts: Vec<u128> = (0..s.below(3)).map(|_| size(s)).collect();
            let total = issuance(NATIVE);
            let had: Vec<u128> = (0..3).map(|u| bal(NATIVE, &user(u))).collect();
            let x: Vec<_> = parts
                .iter()
                .map(|p| <NativeCurrency as Currency<AccountId>>::withdraw(&user(0), *p, frame_support::traits::WithdrawReasons::FEE, frame_support::traits::ExistenceRequirement::KeepAlive).map_err(err))
                .collect::<Result<_, _>>()?;
            <DealWithFees<Runtime, GetNativeCurrencyId> as OnUnbalanced<_>>::on_unbalanceds::<u128>(x.into_iter());
            let sum: u128 = parts.iter().sum();
            s.note(|| format!("{parts:?} with author {author:?}"));
            for u in 0..3 {
                let mut want = had[u];
                if u == 0 {
                    want -= sum;
                }
                if author == Some(user(u)) {
                    want += sum;
                }
                check_eq!(bal(NATIVE, &user(u)), want, "account {u} after fee and tip {parts:?} with author {author:?}");
            }
            check_eq!(issuance(NATIVE), if author.is_some() { total } else { total - sum }, "supply after fee and tip {parts:?} with author {author:?}");
            if author.is_some() && sum > 0 {
                s.nontrivial();
            }
            Ok(())
        })
    })
}
