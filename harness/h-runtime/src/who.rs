//! Calls that only those who govern may make.
use super::world::*;
use loans::{InterestRateModel, Market, MarketState};
use primitives::{CurrencyId::*, Rate, Ratio};

type Call = Box<dyn Fn(RuntimeOrigin) -> Result<(), String>>;
fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<(), String> {
    r.map(drop).map_err(err)
}
fn fixed(s: &mut Src, lo: u64, hi: u64) -> UnsignedFixedPoint {
    UnsignedFixedPoint::from_inner(s.uniform(lo, hi) as u128 * 10u128.pow(14))
}
fn market(s: &mut Src, lent: u32) -> Market<u128> {
    Market {
        collateral_factor: Ratio::from_percent(50),
        liquidation_threshold: Ratio::from_percent(55),
        reserve_factor: Ratio::from_percent(s.uniform(1, 90) as u32),
        close_factor: Ratio::from_percent(50),
        liquidate_incentive: Rate::from_inner(11 * 10u128.pow(17)),
        liquidate_incentive_reserved_factor: Ratio::from_percent(3),
        rate_model: InterestRateModel::new_jump_model(Rate::from_inner(2 * 10u128.pow(16)), Rate::from_inner(10u128.pow(17)), Rate::from_inner(32 * 10u128.pow(16)), Ratio::from_percent(80)),
        state: MarketState::Pending,
        supply_cap: u128::MAX / 4,
        borrow_cap: u128::MAX / 4,
        lend_token_id: LendToken(lent),
    }
}
fn percent(s: &mut Src) -> Ratio {
    Ratio::from_percent(s.uniform(1, 99) as u32)
}
const F: fn(u32) -> CurrencyId = ForeignAsset;
fn name(s: &mut Src) -> Vec<u8> {
    vec![b'a' + s.below(20) as u8; s.idx(20)]
}

/// any of them, such as would be accepted, mostly
fn call(s: &mut Src) -> (&'static str, String, Call) {
    let x = size(s);
    let u = user(s.idx(4));
    let on = s.bool();
    let blocks = 1 + s.below(100_000) as u32;
    let c = *s.pick(&[NATIVE, RELAY]);
    let fee = fixed(s, 0, 9_999);
    let over = fixed(s, 10_001, 60_000);
    let pool = *s.pick(&[0u32, 1]);
    let now_s = Timestamp::now() as u128 / 1000;
    // the arguments first, then the call with them
    macro_rules! made {
        ($m:ident, $who:path, $f:ident, [$($n:ident = $v:expr,)*], [$h:ident $($t:ident)*], $a:expr, $($r:expr,)*) => {
            made!($m, $who, $f, [$($n = $v,)* $h = $a,], [$($t)*], $($r,)*)
        };
        ($m:ident, $who:path, $f:ident, [$($n:ident = $v:expr,)*], [$($t:ident)*],) => {{
            use $who as P;
            $(let $n = $v;)*
            let what = format!("{}::{}{:?}", stringify!($who), stringify!($f), ($(&$n,)*));
            (concat!(stringify!($who), "::", stringify!($f)), what, Box::new(move |o| e(tx(|| $m!(P::$f(o $(, $n.clone())*))))) as Call)
        }};
    }
    macro_rules! same {
        ($e:expr) => {
            $e
        };
    }
    macro_rules! error {
        ($e:expr) => {
            $e.map_err(|e| e.error)
        };
    }
    macro_rules! call {
        ($who:path, $f:ident $(, $a:expr)*) => { made!(same, $who, $f, [], [a b c d e f g h i j k l], $($a,)*) };
    }
    macro_rules! post {
        ($who:path, $f:ident $(, $a:expr)*) => { made!(error, $who, $f, [], [a b c d e f g h i j k l], $($a,)*) };
    }
    match s.below(53) {
        0 => call!(rt::Fee, set_issue_fee, fee),
        1 => call!(rt::Fee, set_issue_griefing_collateral, fee),
        2 => call!(rt::Fee, set_redeem_fee, fee),
        3 => call!(rt::Fee, set_premium_redeem_fee, fee),
        4 => call!(rt::Fee, set_punishment_fee, fee),
        5 => call!(rt::Fee, set_replace_griefing_collateral, fee),
        6 => call!(rt::VaultRegistry, set_minimum_collateral, c, x),
        7 => call!(rt::VaultRegistry, set_system_collateral_ceiling, pair(c), x),
        8 => call!(rt::VaultRegistry, set_secure_collateral_threshold, pair(c), over),
        9 => call!(rt::VaultRegistry, set_premium_redeem_threshold, pair(c), over),
        10 => call!(rt::VaultRegistry, set_liquidation_collateral_threshold, pair(c), over),
        11 => {
            let n = name(s);
            (
                "rt::Oracle::insert_authorized_oracle",
                format!("Oracle::insert_authorized_oracle {u:?}"),
                Box::new(move |o| e(tx(|| rt::Oracle::insert_authorized_oracle(o, u.clone(), n.clone().try_into().unwrap())))),
            )
        }
        12 => call!(rt::Oracle, remove_authorized_oracle, user(90)),
        13 => call!(rt::Issue, set_issue_period, blocks),
        14 => call!(rt::Redeem, set_redeem_period, blocks),
        15 => call!(rt::Replace, set_replace_period, blocks),
        16 => call!(rt::Nomination, set_nomination_enabled, on),
        17 => call!(rt::Escrow, set_account_limit, u, now(), now() + blocks),
        18 => call!(rt::Escrow, set_account_block, u),
        19 => call!(rt::EscrowAnnuity, update_rewards),
        20 => call!(rt::EscrowAnnuity, set_reward_per_wrapped, x),
        21 => call!(rt::VaultAnnuity, update_rewards),
        22 => call!(rt::VaultAnnuity, set_reward_per_wrapped, x),
        23 => call!(rt::Supply, set_start_height_and_inflation, now() + blocks, fee),
        24 => call!(rt::Farming, update_reward_schedule, lp(), NATIVE, 1 + s.below(100) as u32, x),
        25 => call!(rt::Farming, remove_reward_schedule, lp(), NATIVE),
        26 => call!(rt::Security, activate_counter, on),
        27 | 28 => {
            let pending = s.bool();
            let (n, uri) = (name(s), name(s));
            let sum = s.arr::<32>();
            (
                "rt::ClientsInfo",
                format!("ClientsInfo::set_{}_client_release", if pending { "pending" } else { "current" }),
                Box::new(move |o| {
                    let r = clients_info::ClientRelease { uri: uri.clone().try_into().unwrap(), checksum: sum.into() };
                    let n = n.clone().try_into().unwrap();
                    e(tx(|| if pending { rt::ClientsInfo::set_pending_client_release(o, n, r) } else { rt::ClientsInfo::set_current_client_release(o, n, r) }))
                }),
            )
        }
        29 => call!(rt::DexGeneral, set_fee_receiver, on.then(|| u.clone())),
        30 => call!(rt::DexGeneral, set_fee_point, blocks as u8),
        31 => call!(rt::DexGeneral, set_exchange_fee, NATIVE, RELAY, x % 10_000),
        32 => call!(rt::DexGeneral, create_pair, F(s.below(4) as u32), F(4), x % 10_000),
        33 => call!(rt::DexGeneral, bootstrap_create, F(5), F(s.below(4) as u32), 10, 10, 1000, 1000, now() + blocks, vec![NATIVE], vec![]),
        34 => call!(rt::DexGeneral, bootstrap_update, F(6), F(7), 10, 10, 1000, 1000, now() + blocks, vec![NATIVE], vec![]),
        35 => call!(rt::DexGeneral, bootstrap_withdraw_reward, F(6), F(7), u),
        36 => call!(rt::DexStable, create_base_pool, vec![NATIVE, RELAY], vec![12, 12], 1 + x % 1000, x % 1_000_000, x % 1_000_000, u, name(s)),
        37 => call!(rt::DexStable, create_meta_pool, vec![RELAY, StableLpToken(0)], vec![12, 18], 1 + x % 1000, x % 1_000_000, x % 1_000_000, u, name(s)),
        38 => call!(rt::DexStable, update_fee_receiver, pool, u),
        39 => call!(rt::DexStable, set_swap_fee, pool, x % 1_000_000),
        40 => call!(rt::DexStable, set_admin_fee, pool, x % 1_000_000),
        41 => call!(rt::DexStable, ramp_a, pool, 20 + x % 100, now_s + 100_000),
        42 => call!(rt::DexStable, stop_ramp_a, 1u32),
        43 => post!(rt::Loans, add_market, F(blocks % 5), market(s, 10 + blocks % 7)),
        44 => post!(rt::Loans, activate_market, *s.pick(&[F(8), RELAY])),
        45 => post!(rt::Loans, update_rate_model, RELAY, market(s, 0).rate_model),
        46 => post!(rt::Loans, update_market, RELAY, None, None, Some(percent(s)), Some(percent(s)), Some(percent(s)), None, Some(x + 1), Some(x)),
        47 => post!(rt::Loans, force_update_market, RELAY, market(s, 1)),
        48 => post!(rt::Loans, update_market_reward_speed, RELAY, Some(x), on.then(|| x)),
        49 => post!(rt::Loans, add_reserves, u, RELAY, x % 1_000_000 + 1),
        50 => post!(rt::Loans, reduce_reserves, u, RELAY, x % 1_000 + 1),
        51 => post!(rt::Loans, reduce_incentive_reserves, u, RELAY, x % 1_000_000 + 1),
        _ => call!(rt::Timestamp, set, Timestamp::now() + 6000 + x as u64 % 1000),
    }
}
pub fn lp() -> CurrencyId {
    let mut p = CurrencyId::join_lp_token(NATIVE, RELAY).unwrap();
    p.sort();
    p
}
pub fn prepare(s: &mut Src) -> Result<(), String> {
    let root = RuntimeOrigin::root;
    Timestamp::set_timestamp(10_000_000_000);
    for u in 0..4 {
        for c in [NATIVE, RELAY, F(6), F(7)] {
            give(c, &user(u), 10u128.pow(22));
        }
    }
    give(NATIVE, &TreasuryAccount::get(), 10u128.pow(24));
    for a in [EscrowAnnuityAccount::get(), VaultAnnuityAccount::get()] {
        give(NATIVE, &a, size(s) + 10u128.pow(9));
    }
    let far = now() + 1_000_000;
    e(tx(|| rt::DexGeneral::create_pair(root(), NATIVE, RELAY, 30)))?;
    e(tx(|| rt::DexGeneral::bootstrap_create(root(), F(6), F(7), 10, 10, 1000, 1000, now() + 1, vec![NATIVE], vec![])))?;
    e(tx(|| rt::DexGeneral::bootstrap_charge_reward(by(0), F(6), F(7), vec![(NATIVE, 100)])))?;
    System::set_block_number(now() + 3);
    for p in 0..2 {
        e(tx(|| rt::DexStable::create_base_pool(root(), vec![F(6), F(7)], vec![12, 12], 50, 4_000_000, 1_000_000, user(0), vec![b'x'])))?;
        e(tx(|| rt::DexStable::add_liquidity(by(0), p, vec![10u128.pow(15); 2], 0, user(0), far)))?;
    }
    e(tx(|| rt::DexStable::ramp_a(root(), 1, 60, Timestamp::now() as u128 / 1000 + 100_000)))?;
    e(tx(|| rt::Farming::update_reward_schedule(root(), lp(), NATIVE, 100, 10u128.pow(12))))?;
    for (c, l) in [(RELAY, 1), (F(8), 2)] {
        let m = market(s, l);
        e(tx(|| rt::Loans::add_market(root(), c, m).map_err(|e| e.error)))?;
    }
    e(tx(|| rt::Loans::activate_market(root(), RELAY).map_err(|e| e.error)))?;
    e(tx(|| rt::Loans::mint(by(1), RELAY, 10u128.pow(15)).map_err(|e| e.error)))?;
    let incentives = rt::Loans::incentive_reward_account_id();
    give(RELAY, &incentives, 10u128.pow(14));
    e(tx(|| rt::Loans::mint(RuntimeOrigin::signed(incentives), RELAY, 10u128.pow(13)).map_err(|e| e.error)))?;
    e(tx(|| rt::Loans::add_reserves(root(), user(2), RELAY, 10u128.pow(13)).map_err(|e| e.error)))
}
/// a call of those who govern is refused to everyone else, and leaves nothing
pub fn governed(s: &mut Src) -> R {
    open(|| {
        prepare(s).map_err(|e| format!("the scene: {e}"))?;
        s.steps(3, 30, |s| {
            let (short, what, run) = call(s);
            let who = user(*s.pick(&[0, 1, 2, 3, 90]));
            s.note(|| what.clone());
            let before = mockrt::storage_root();
            for o in [RuntimeOrigin::signed(who.clone()), RuntimeOrigin::signed(TreasuryAccount::get()), RuntimeOrigin::none()] {
                let inherent = what.starts_with("rt::Timestamp");
                if inherent && matches!(o.clone().into(), Ok(frame_system::RawOrigin::None)) {
                    continue;
                }
                let t = format!("{o:?}");
                let r = guarded(|| run(o))?;
                check!(r.is_err(), "{what} was accepted from {t}");
                check_eq!(mockrt::storage_root(), before, "{what} was refused to {t}, and left something");
            }
            if what.starts_with("rt::Timestamp") {
                return Ok(());
            }
            let r = guarded(|| run(RuntimeOrigin::root()))?;
            s.note(|| format!("{r:?}"));
            if r.is_ok() {
                s.nontrivial();
                s.label(short);
            }
            if s.ratio(1, 4) {
                System::set_block_number(now() + 1);
            }
            Ok(())
        })
    })
}
