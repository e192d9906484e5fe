//! What a node answers.
use super::world::*;
use rt::{EscrowApi, OracleApi, RewardApi, VaultRegistryApi};

type Due = Result<u128, String>;
fn amount(r: Result<BalanceWrapper<u128>, sp_runtime::DispatchError>) -> Due {
    r.map(|x| x.amount).map_err(err)
}

/// the yearly rate of a stake, as a year's rewards would give to it after the change
pub fn escrow_rate(s: &mut Src) -> R {
    open(|| {
        let n = 1 + s.idx(3);
        give(NATIVE, &EscrowAnnuityAccount::get(), size(s));
        EscrowAnnuity::update_rewards(RuntimeOrigin::root()).map_err(err)?;
        if s.ratio(1, 4) {
            let x = s.u128(1000);
            EscrowAnnuity::set_reward_per_wrapped(RuntimeOrigin::root(), x).map_err(err)?;
            give(WRAPPED, &user(0), s.u128(1_000_000));
        }
        for u in 0..n {
            give(NATIVE, &user(u), 10u128.pow(24));
            if s.ratio(3, 4) {
                let (x, w) = (least_lock() + size(s), s.int(1, 96) as u32);
                Escrow::create_lock(by(u), x, now() + w * WEEK + 1).map_err(err)?;
                s.note(|| format!("user {u} locks {x} for {w} weeks"));
            }
        }
        for _ in 0..s.below(5) {
            block(now() + 1)?;
        }
        System::set_block_number(now() + s.below(WEEK as u64 * 8) as u32);
        let u = s.idx(n);
        let (locked, end) = lock(u);
        let more = if s.bool() { Some(size(s)) } else { None };
        let until = if s.ratio(1, 3) { Some(end.max(now()) + s.int(1, 20) as u32 * WEEK) } else { None };
        let said = guarded(|| dry(|| RewardApi::estimate_escrow_reward_rate(user(u), more, until)))?;
        // the same by the calls there are, and what is then due of a year's rewards
        let real = dry(|| -> Result<Rat, String> {
            tx(|| EscrowAnnuity::withdraw_rewards(by(u))).map_err(err)?;
            if locked == 0 {
                tx(|| Escrow::create_lock(by(u), more.unwrap_or(0), until.unwrap_or(0))).map_err(err)?;
            } else {
                if let Some(x) = more.filter(|x| *x > 0) {
                    tx(|| Escrow::increase_amount(by(u), x)).map_err(err)?;
                }
                if let Some(h) = until {
                    tx(|| Escrow::increase_unlock_height(by(u), h)).map_err(err)?;
                }
                tx(|| Escrow::update_user_stake(by(u), user(u))).map_err(err)?;
            }
            let year = EscrowAnnuity::min_reward_per_block() * YEAR as u128;
            let mine = Escrow::balance_at(&user(u), None);
            let all: Rat = (0..n).map(|v| if v == u { rat(mine) } else { fx(EscrowRewards::stake(&(), &user(v))) }).sum();
            if all.is_zero() {
                return Ok(rat(0));
            }
            Ok(rat(year) * rat(mine) / all / rat(lock(u).0))
        });
        s.note(|| format!("user {u} with {locked} until {end}, {more:?} more, until {until:?}: {said:?}, {:?}", real.as_ref().map(show)));
        if let (Ok(said), Ok(real)) = (&said, &real) {
            let locked = rat(locked + more.unwrap_or(0));
            // the reward for a unit of stake has 18 digits, the payment is in whole planck
            let off = (rat(1) + ulp() * rat(4) * (rat(1) + &locked)) / &locked + ulp() * rat(2);
            check!((fx(*said) - real).abs() <= off, "the rate of a lock of {}: {} is said, a year would give {}", show(&locked), show(&fx(*said)), show(real));
            if !real.is_zero() {
                s.nontrivial();
            }
        } else if let (Err(e), Ok(real)) = (&said, &real) {
            check!(real.is_zero(), "no rate is given, {e:?}, but a year would give {}", show(real));
        }
        // what is due now, and the locks
        for v in 0..n {
            let due = amount(dry(|| RewardApi::compute_escrow_reward(user(v), NATIVE)))?;
            let had = bal(NATIVE, &user(v));
            let got = dry(|| tx(|| EscrowAnnuity::withdraw_rewards(by(v))).map(|_| bal(NATIVE, &user(v)) - had));
            check_eq!(got.map_err(err), Ok(due), "the reward of user {v}, paid and said");
            let at = if s.bool() { None } else { Some(now() + s.below(WEEK as u64 * 50) as u32) };
            check_eq!(EscrowApi::balance_at(user(v), at).amount, Escrow::balance_at(&user(v), at), "votes of user {v} at {at:?}");
            check_eq!(EscrowApi::total_supply(at).amount, Escrow::total_supply(at), "votes at {at:?}");
            let free = EscrowApi::free_stakable(user(v)).amount;
            let lock = lock(v).0;
            check_eq!(free, bal(NATIVE, &user(v)) - lock, "what user {v} may still lock");
        }
        Ok(())
    })
}

/// what a farm owes, and will
pub fn farming(s: &mut Src) -> R {
    open(|| {
        let mut pool = CurrencyId::join_lp_token(NATIVE, RELAY).unwrap();
        pool.sort();
        let prize = *s.pick(&[NATIVE, RELAY]);
        give(prize, &TreasuryAccount::get(), 10u128.pow(24));
        let n = 1 + s.idx(3);
        for u in 0..n {
            let x = size(s);
            give(pool, &user(u), x);
            if s.ratio(4, 5) {
                Farming::deposit(by(u), pool, 0).map_err(err)?;
            }
        }
        if s.ratio(5, 6) {
            let (periods, x) = (1 + s.below(1000) as u32, size(s));
            Farming::update_reward_schedule(RuntimeOrigin::root(), pool, prize, periods, x).map_err(err)?;
        }
        for _ in 0..s.below(30) {
            let h = now() + 1;
            System::set_block_number(h);
            guarded(|| Farming::on_initialize(h))?;
        }
        let left = Farming::reward_schedules(pool, prize);
        let left = left.per_period * left.period_count as u128;
        let stakes: Vec<Rat> = (0..n).map(|u| fx(FarmingRewards::stake(&pool, &user(u)))).collect();
        let all: Rat = stakes.iter().cloned().sum();
        for u in 0..n {
            let due = amount(dry(|| RewardApi::compute_farming_reward(user(u), pool, prize)))?;
            let had = bal(prize, &user(u));
            let got = dry(|| tx(|| Farming::claim(by(u), pool, prize)).map(|_| bal(prize, &user(u)) - had));
            check_eq!(got.map_err(err), Ok(due), "the farmed reward of user {u}, paid and said");
            let will = amount(guarded(|| dry(|| RewardApi::estimate_farming_reward(user(u), pool, prize)))?);
            s.note(|| format!("user {u}: {due} now, {will:?} of {left} left"));
            if all.is_zero() {
                check!(will.is_err() || will == Ok(0), "user {u} is to get {will:?} with no stake at all");
                continue;
            }
            let want = rat(left) * &stakes[u] / &all;
            let will = will?;
            check!((rat(will) - &want).abs() <= rat(2) + ulp() * rat(4) * &stakes[u], "user {u} is to get {will} of {left}, not {}", show(&want));
            if will > 0 {
                s.nontrivial();
            }
        }
        Ok(())
    })
}

/// a vault's collateral, capacity and rate
pub fn vault(s: &mut Src) -> R {
    use oracle::OracleKey::ExchangeRate;
    open(|| {
        // a unit of Bitcoin in each collateral
        let price: Vec<(CurrencyId, UnsignedFixedPoint)> =
            [NATIVE, RELAY].iter().map(|c| (*c, UnsignedFixedPoint::from_inner(10u128.pow(18) * s.u128_in(1, 1_000_000) + s.u128(10u128.pow(18))))).collect();
        Oracle::feed_values(RuntimeOrigin::signed(user(90)), price.iter().map(|(c, p)| (ExchangeRate(*c), *p)).collect()).map_err(err)?;
        <Oracle as Hooks<u32>>::on_initialize(now());
        let rate = |c: CurrencyId| price.iter().find(|x| x.0 == c).map(|x| fx(x.1)).unwrap();
        for (c, x) in &price {
            // the conversions a node offers
            let a = size(s);
            let to = amount(OracleApi::wrapped_to_collateral(BalanceWrapper { amount: a }, *c))?;
            check!((rat(to) - rat(a) * fx(*x)).abs() <= rat(1), "{a} wrapped is {to} of {c:?} at {}", show(&fx(*x)));
            let from = amount(OracleApi::collateral_to_wrapped(BalanceWrapper { amount: a }, *c))?;
            check!((rat(from) - rat(a) / fx(*x)).abs() <= rat(1), "{a} of {c:?} is {from} wrapped at {}", show(&fx(*x)));
        }
        let n = 1 + s.idx(3);
        let mut ids: Vec<VaultId> = vec![];
        let mut own: Vec<u128> = vec![];
        let mut nominated: Vec<u128> = vec![];
        let mut cut: Vec<Rat> = vec![];
        for u in 0..n {
            let c = *s.pick(&[NATIVE, RELAY]);
            let id = VaultId::new(user(u), c, WRAPPED);
            let x = 10_000 + size(s);
            give(c, &user(u), x);
            VaultRegistry::register_public_key(by(u), Default::default()).map_err(err)?;
            tx(|| VaultRegistry::register_vault(by(u), pair(c), x)).map_err(|e| err(e.error))?;
            own.push(x);
            nominated.push(0);
            cut.push(rat(0));
            if s.bool() {
                Nomination::opt_in_to_nomination(by(u), pair(c)).map_err(|e| err(e.error))?;
                let y = 1 + s.u128(x);
                give(c, &user(50), y);
                let limit = y.saturating_mul(2);
                Nomination::set_nomination_limit(by(u), pair(c), limit).map_err(|e| err(e))?;
                if tx(|| Nomination::deposit_collateral(RuntimeOrigin::signed(user(50)), id.clone(), y)).is_ok() {
                    nominated[u] = y;
                }
                if s.bool() {
                    let f = UnsignedFixedPoint::from_inner(s.u128(10u128.pow(18)));
                    Fee::set_commission(by(u), pair(c), f).map_err(|e| err(e.error))?;
                    cut[u] = fx(f);
                }
            }
            ids.push(id);
        }
        give(NATIVE, &VaultAnnuityAccount::get(), size(s));
        VaultAnnuity::update_rewards(RuntimeOrigin::root()).map_err(err)?;
        for _ in 0..s.below(4) {
            block(now() + 1)?;
        }
        // the part of the capacity of each
        let worth: Vec<Rat> = (0..n).map(|u| rat(own[u] + nominated[u]) / rate(ids[u].collateral_currency())).collect();
        for c in [NATIVE, RELAY] {
            let all: Rat = (0..n).filter(|u| ids[*u].collateral_currency() == c).map(|u| worth[u].clone()).sum::<Rat>() / ratio(260, 100);
            let is = fx(VaultCapacity::stake(&(), &c));
            check!(is <= all && is >= &all - rat(1) - rat(n as u128) / rate(c), "the capacity of {c:?} is {}, not {}", show(&is), show(&all));
        }
        for u in 0..n {
            let id = &ids[u];
            let c = id.collateral_currency();
            check_eq!(amount(VaultRegistryApi::get_vault_collateral(id.clone())), Ok(own[u]), "the collateral of vault {u} itself");
            check_eq!(amount(VaultRegistryApi::get_vault_total_collateral(id.clone())), Ok(own[u] + nominated[u]), "all collateral of vault {u}");
            check_eq!(VaultRegistryApi::get_vaults_by_account_id(user(u)).map_err(err), Ok(vec![id.clone()]), "the vaults of account {u}");
            // capacity: what the collateral backs at the secure threshold
            let can = amount(VaultRegistryApi::get_issuable_tokens_from_vault(id.clone()))?;
            let want = &worth[u] / ratio(260, 100);
            check!((rat(can) - &want).abs() <= rat(2), "vault {u} can issue {can}, not {}", show(&want));
            let list = VaultRegistryApi::get_vaults_with_issuable_tokens().map_err(err)?;
            check_eq!(list.iter().find(|x| x.0 == *id).map(|x| x.1.amount), if can > 0 { Some(can) } else { None }, "vault {u} in the list of those that can issue");
            check!(list.windows(2).all(|w| w[0].1.amount >= w[1].1.amount), "the list of those that can issue is not sorted: {list:?}");
            let a = s.u128(1_000_000_000);
            let need = amount(VaultRegistryApi::get_required_collateral_for_wrapped(BalanceWrapper { amount: a }, c))?;
            let want = rat(a) * rate(c) * ratio(260, 100);
            check!((rat(need) - &want).abs() <= rate(c) + rat(2), "{a} wrapped needs {need} of {c:?}, not {}", show(&want));
            check_eq!(amount(VaultRegistryApi::get_required_collateral_for_vault(id.clone())), Ok(0), "a vault without tokens needs no collateral");
            check!(VaultRegistryApi::get_collateralization_from_vault(id.clone(), s.bool()).is_err(), "a vault without tokens has a collateralization");
            // what is due
            let due = amount(RewardApi::compute_vault_reward(id.clone(), NATIVE))?;
            let had = bal(NATIVE, &user(u));
            let got = dry(|| tx(|| Fee::withdraw_rewards(by(u), id.clone(), None)).map(|_| bal(NATIVE, &user(u)) - had));
            check_eq!(got.map_err(|e| err(e.error)), Ok(due), "the reward of vault {u}, paid and said");
            // a year's rewards to the operator, against the operator's own collateral
            let said = guarded(|| dry(|| RewardApi::estimate_vault_reward_rate(id.clone())))?;
            if fx(VaultCapacity::total_stake(&())).is_zero() || fx(VaultRewards::total_stake(&c)).is_zero() {
                check!(said.as_ref().map_or(true, |x| fx(*x).is_zero()), "a rate of {said:?} with no capacity at all");
                continue;
            }
            let said = said.map_err(err)?;
            let year = VaultAnnuity::min_reward_per_block() * YEAR as u128;
            let part = rat(year) * fx(VaultCapacity::stake(&(), &c)) / fx(VaultCapacity::total_stake(&())) * fx(VaultRewards::stake(&c, id)) / fx(VaultRewards::total_stake(&c));
            let mine = &part * &cut[u] + &part * (rat(1) - &cut[u]) * rat(own[u]) / rat(own[u] + nominated[u]);
            let value = &mine / rate(NATIVE) * rate(c);
            let want = &value / rat(own[u]);
            // the parts are rounded to whole planck, the conversion goes over whole units of the wrapped currency
            let (cap, in_pool) = (fx(VaultCapacity::stake(&(), &c)), fx(VaultRewards::stake(&c, id)));
            let planck = rat(4) + ulp() * rat(4) * (cap + in_pool + rat(own[u] + nominated[u]));
            let conv = if c == NATIVE { rat(1) } else { rate(c) };
            let off = ((&planck / rate(NATIVE) * rate(c)) + &conv * rat(2)) / rat(own[u]) + ulp() * rat(4);
            s.note(|| format!("vault {u} of {} + {} {c:?}: rate {}, {}", own[u], nominated[u], show(&fx(said)), show(&want)));
            check!((fx(said) - &want).abs() <= off, "the rate of vault {u}: {} is said, a year would give {} (off by at most {})", show(&fx(said)), show(&want), show(&off));
            if nominated[u] > 0 && !want.is_zero() {
                s.nontrivial();
            }
        }
        Ok(())
    })
}
