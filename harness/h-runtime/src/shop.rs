//! What a node answers about pools, markets, requests and vaults with tokens.
use super::world::*;
use codec::Encode;
use primitives::CurrencyId::*;
use rt::{BtcRelayApi, DexGeneralApi, DexStableApi, IssueApi, LoansApi, RedeemApi, ReplaceApi, VaultRegistryApi};
use sp_core::H256;

const F: fn(u32) -> CurrencyId = ForeignAsset;
fn far() -> u32 {
    now() + 1_000_000
}
/// what a call, were it made, brings an account of a currency (or takes)
fn brings<E: From<sp_runtime::DispatchError>>(c: CurrencyId, who: usize, f: impl FnOnce() -> Result<(), E>) -> Option<i128> {
    let had = bal(c, &user(who)) as i128;
    dry(|| tx(f).is_ok().then(|| bal(c, &user(who)) as i128 - had))
}
/// pairs and stable pools: a node's answers against the calls
pub fn pools(s: &mut Src) -> R {
    open(|| {
        super::who::prepare(s).map_err(|e| format!("the scene: {e}"))?;
        let lp = super::who::lp();
        let (x, y) = (10_000 + size(s), 10_000 + size(s));
        tx(|| DexGeneral::add_liquidity(by(0), NATIVE, RELAY, x, y, 0, 0, far())).map_err(err)?;
        tx(|| DexStable::swap(by(1), 1, 0, 1, 1 + size(s) % 10u128.pow(14), 0, user(1), far())).map_err(err)?;
        Timestamp::set_timestamp(Timestamp::now() + s.below(100_000_000));
        s.steps(2, 8, |s| {
            let (a, b) = if s.bool() { (NATIVE, RELAY) } else { (RELAY, NATIVE) };
            let (ra, rb) = if a == NATIVE { (x, y) } else { (y, x) };
            match s.below(10) {
                0 => {
                    let p = DexGeneralApi::get_pair_by_asset_id(a, b).ok_or("no pair")?;
                    check_eq!((p.asset_0, p.asset_1, p.reserve_0, p.reserve_1), (a, b, ra, rb), "currencies and reserves of the pair");
                    check_eq!((p.lp_asset_id, p.total_liquidity, p.status), (lp, issuance(lp), 0), "token, shares and state of the pair");
                    check_eq!((bal(a, &p.account), bal(b, &p.account)), (ra, rb), "what the pair's account has");
                    let p = DexGeneralApi::get_pair_by_asset_id(F(6), F(7)).ok_or("no bootstrap")?;
                    check_eq!(p.status, 1, "the state of a pair that begins");
                    check!(DexGeneralApi::get_pair_by_asset_id(a, F(6)).is_none(), "a pair that is not");
                }
                1 => {
                    let n = 1 + size(s);
                    let said = guarded(|| DexGeneralApi::get_amount_out_price(n, vec![a, b]))?;
                    if n <= bal(a, &user(2)) {
                        let got = brings(b, 2, || DexGeneral::swap_exact_assets_for_assets(by(2), n, 0, vec![a, b], user(2), far()));
                        check_eq!(said as i128, got.unwrap_or(0), "for {n} of {a:?}, said and got");
                        if said > 0 {
                            s.nontrivial();
                        }
                    }
                }
                2 => {
                    let n = 1 + s.u128(rb);
                    let said = guarded(|| DexGeneralApi::get_amount_in_price(n, vec![a, b]))?;
                    if said <= bal(a, &user(2)) {
                        let got = brings(a, 2, || DexGeneral::swap_assets_for_exact_assets(by(2), n, u128::MAX, vec![a, b], user(2), far()));
                        check_eq!(said as i128, -got.unwrap_or(0), "{n} of {b:?} cost, said and paid");
                    }
                }
                3 => {
                    let (m, n) = (1 + size(s), 1 + size(s));
                    let (lm, ln) = (s.u128(m) / 2, s.u128(n) / 2);
                    let said = guarded(|| DexGeneralApi::get_estimate_lptoken(a, b, m, n, lm, ln))?;
                    let got = brings(lp, 2, || DexGeneral::add_liquidity(by(2), a, b, m, n, lm, ln, far()));
                    // the first of all keeps a part for nobody; here there is one already
                    if let Some(g) = got {
                        check_eq!(said as i128, g, "shares for {m} and {n} (least {lm} and {ln}), said and got");
                    }
                }
                4 => {
                    let n = 1 + s.u128(bal(lp, &user(0)) - 1);
                    let said = guarded(|| DexGeneralApi::calculate_remove_liquidity(a, b, n))?;
                    let go = || DexGeneral::remove_liquidity(by(0), a, b, n, 0, 0, user(0), far());
                    if let (Some(g), Some(h)) = (brings(a, 0, go), brings(b, 0, go)) {
                        check_eq!(said.map(|(p, q)| (p as i128, q as i128)), Some((g, h)), "for {n} shares, said and got");
                    }
                }
                5 => {
                    let p = s.below(3) as u32;
                    let curs = [F(6), F(7)];
                    let is = p < 2;
                    let bals: Vec<u128> = if is { DexStable::pools(p).map(|q| q.get_balances().to_vec()).unwrap_or_default() } else { vec![] };
                    check_eq!(DexStableApi::get_currencies(p), if is { curs.to_vec() } else { vec![] }, "currencies of pool {p}");
                    check_eq!(DexStableApi::get_number_of_currencies(p), if is { 2 } else { 0 }, "number of currencies of pool {p}");
                    for i in 0..3 {
                        check_eq!(DexStableApi::get_currency(p, i), curs.get(i as usize).copied().filter(|_| is), "currency {i} of pool {p}");
                    }
                    check_eq!(DexStableApi::get_lp_currency(p), is.then(|| StableLpToken(p)), "token of pool {p}");
                    check_eq!(DexStableApi::get_currency_precision_multipliers(p), if is { vec![1_000_000; 2] } else { vec![] }, "multipliers of pool {p}");
                    check_eq!(DexStableApi::get_currency_balances(p), bals, "balances of pool {p}");
                    let admin = DexStableApi::get_admin_balances(p);
                    if is {
                        let account = DexStable::pools(p).unwrap().get_account();
                        let want: Vec<u128> = (0..2).map(|i| bal(curs[i], &account) - bals[i]).collect();
                        check_eq!(admin, want, "what pool {p} keeps of its fees");
                    } else {
                        check!(admin.is_empty(), "admin balances of no pool: {admin:?}");
                    }
                }
                6 => {
                    // the second pool's factor moves from 50 to 60 in the time it was given
                    let (from, to) = (10_000_000u128, 10_000_000u128 + 100_000);
                    let at = Timestamp::now() as u128 / 1000;
                    let moved = |p: u32| if p == 0 { rat(50) } else if at >= to { rat(60) } else { rat(50) + ratio(10 * (at - from), to - from) };
                    for p in 0..2u32 {
                        let want = moved(p);
                        check_eq!(DexStableApi::get_a(p), floor_u128(&want), "the factor of pool {p} at {at}");
                        check_eq!(DexStableApi::get_a_precise(p), floor_u128(&(want * rat(100))), "the factor of pool {p} at {at}, with its hundredths");
                    }
                    for p in 0..2u32 {
                        // what a whole share is worth: with equal amounts, the amounts
                        let v = DexStableApi::get_virtual_price(p);
                        let all: u128 = DexStableApi::get_currency_balances(p).iter().sum::<u128>() * 1_000_000;
                        check!((rat(v) / rat(10u128.pow(18)) - rat(all) / rat(issuance(StableLpToken(p)))).abs() < ratio(1, 100), "a share of pool {p} is worth {v}, of {all} in all");
                    }
                }
                7 => {
                    let (p, i) = (s.below(2) as u32, s.below(2) as u32);
                    let n = 1 + size(s) % 10u128.pow(14);
                    let said = guarded(|| DexStableApi::calculate_swap(p, i, 1 - i, n))?;
                    let got = brings(F(7 - i), 2, || DexStable::swap(by(2), p, i, 1 - i, n, 0, user(2), far())).unwrap_or(0);
                    check!((said as i128..=said as i128 + 3).contains(&got), "for {n} of {i} in pool {p}, said {said}, got {got}");
                    s.nontrivial();
                }
                8 => {
                    let p = s.below(2) as u32;
                    let n = 1 + s.u128(bal(StableLpToken(p), &user(0)) / 2);
                    let i = s.below(2) as u32;
                    let said = guarded(|| DexStableApi::calculate_remove_liquidity_one_currency(p, n, i))?;
                    let got = brings(F(6 + i), 0, || DexStable::remove_liquidity_one_currency(by(0), p, n, i, 0, user(0), far())).unwrap_or(0);
                    check_eq!(said as i128, got, "for {n} shares of pool {p} in {i}, said and got");
                    let said = guarded(|| DexStableApi::calculate_remove_liquidity(p, n))?;
                    let got: Vec<u128> = (0..2).map(|i| brings(F(6 + i), 0, || DexStable::remove_liquidity(by(0), p, n, vec![0, 0], user(0), far())).unwrap_or(0) as u128).collect();
                    check_eq!(said, got, "for {n} shares of pool {p}, said and got");
                }
                _ => {
                    let p = s.below(2) as u32;
                    let xs = vec![1_000_000 + size(s) % 10u128.pow(13), 1_000_000 + size(s) % 10u128.pow(13)];
                    for add in [true, false] {
                        let said = guarded(|| dry(|| DexStableApi::calculate_currency_amount(p, xs.clone(), add)))? as i128;
                        let did = if add {
                            brings(StableLpToken(p), 0, || DexStable::add_liquidity(by(0), p, xs.clone(), 0, user(0), far()))
                        } else {
                            brings(StableLpToken(p), 0, || DexStable::remove_liquidity_imbalance(by(0), p, xs.clone(), u128::MAX, user(0), far())).map(|x| -x)
                        };
                        // without regard for fees, which are 0.04 % of what is not in proportion
                        let Some(did) = did else { continue };
                        let (lo, hi) = if add { (did, did + did / 1000 + 2) } else { (did - did / 1000 - 2, did) };
                        check!((lo..=hi).contains(&said), "{xs:?} in pool {p} (added: {add}): said {said}, did {did}");
                    }
                }
            }
            Ok(())
        })
    })
}
/// markets: what is owned and owed, by the set parts of it
pub fn markets(s: &mut Src) -> R {
    use oracle::OracleKey::ExchangeRate;
    open(|| {
        super::who::prepare(s).map_err(|e| format!("the scene: {e}"))?;
        tx(|| Loans::activate_market(RuntimeOrigin::root(), F(8)).map_err(|e| e.error)).map_err(err)?;
        Timestamp::set_timestamp(Timestamp::now() + 1);
        let price = |s: &mut Src| UnsignedFixedPoint::from_inner(10u128.pow(15) * s.u128_in(1, 1_000_000));
        let (p, q) = (price(s), price(s));
        Oracle::feed_values(RuntimeOrigin::signed(user(90)), vec![(ExchangeRate(RELAY), p), (ExchangeRate(F(8)), q)]).map_err(err)?;
        <Oracle as Hooks<u32>>::on_initialize(now());
        let (put, owe) = (1_000_000 + size(s) % 10u128.pow(16), 1 + size(s));
        give(F(8), &user(1), put);
        tx(|| Loans::mint(by(1), F(8), put).map_err(|e| e.error)).map_err(err)?;
        tx(|| Loans::deposit_all_collateral(by(1), F(8)).map_err(|e| e.error)).map_err(err)?;
        let value = rat(put) / fx(q);
        let borrowed = owe <= 10u128.pow(15) && tx(|| Loans::borrow(by(1), RELAY, owe).map_err(|e| e.error)).is_ok();
        let owed = if borrowed { rat(owe) / fx(p) } else { rat(0) };
        let mut price = q;
        if borrowed && s.bool() {
            // what was enough is no longer
            price = UnsignedFixedPoint::from_inner(q.into_inner().saturating_mul(s.u128_in(1, 4)));
            Oracle::feed_values(RuntimeOrigin::signed(user(90)), vec![(ExchangeRate(RELAY), p), (ExchangeRate(F(8)), price)]).map_err(err)?;
            <Oracle as Hooks<u32>>::on_initialize(now());
        }
        let value = value * fx(q) / fx(price);
        let later = if s.bool() { s.below(10_000_000_000) } else { 0 };
        let then = Timestamp::now() / 1000;
        Timestamp::set_timestamp(Timestamp::now() + later);
        let later = Timestamp::now() / 1000 - then;
        let (rate, supply, worth, used, all, kept, index) = guarded(|| dry(|| LoansApi::get_market_status(RELAY)))?.map_err(err)?;
        let cash = rat(10u128.pow(15)) + rat(2 * 10u128.pow(13)) - if borrowed { rat(owe) } else { rat(0) };
        let lent = if borrowed { rat(owe) } else { rat(0) };
        // the rate is that of the present use, of which the suppliers get what is not kept
        let share = &lent / (&cash + &lent - rat(10u128.pow(13)));
        check!((ratio(used.deconstruct() as u128, 1_000_000) - &share).abs() <= ratio(2, 1_000_000), "a part of {used:?} is lent, {}", show(&share));
        let u = ratio(used.deconstruct() as u128, 1_000_000);
        let jump = if u <= ratio(8, 10) { ratio(2, 100) + u.clone() * ratio(8, 80) } else { ratio(10, 100) + (u.clone() - ratio(8, 10)) * ratio(22, 20) };
        check!((fx(rate) - &jump).abs() <= ratio(1, 100_000), "borrowing costs {} at a use of {used:?}", show(&fx(rate)));
        check!(fx(supply) <= fx(rate) * u, "suppliers get {} of {}", show(&fx(supply)), show(&fx(rate)));
        // compounded every second
        let x = fx(rate) * ratio(later as u128, 31_536_000);
        let grown = (1..=8).rev().fold(rat(1), |sum, i| rat(1) + &x * sum / rat(i));
        check!((fx(index) - &grown).abs() <= ratio(1, 1_000_000_000), "after {later} s at {rate:?} the index is {index:?}, not {}", show(&grown));
        check!((rat(all) - &lent * fx(index)).abs() <= rat(1), "{all} is lent, not {}", show(&(lent * fx(index))));
        check!(kept >= 10u128.pow(13), "{kept} is kept");
        let _ = worth;
        // what the account can still borrow, or lacks, by each part of its collateral: as of the
        // last time the interest was added to what is owed, which was with its loan
        let tenth = |r: Result<(primitives::Liquidity, primitives::Shortfall), sp_runtime::DispatchError>| r.map(|(a, b)| (fx(a), fx(b))).map_err(err);
        let spare = tenth(guarded(|| dry(|| LoansApi::get_account_liquidity(user(1))))?)?;
        let until = tenth(guarded(|| dry(|| LoansApi::get_liquidation_threshold_liquidity(user(1))))?)?;
        for (what, (more, less), part) in [("borrow", spare, ratio(50, 100)), ("be liquidated", until, ratio(55, 100))] {
            let want = &value * part - &owed;
            check!(more.is_zero() || less.is_zero(), "both more and less than needed to {what}");
            // (a part of the collateral is rounded up to its smallest unit)
            check!((&more - &less - &want).abs() <= rat(3) + rat(1) / fx(price), "to {what}: {} more, {} less, not {}", show(&more), show(&less), show(&want));
            if !less.is_zero() {
                s.label("shortfall");
            }
        }
        if borrowed {
            s.nontrivial();
        }
        check!(LoansApi::get_market_status(F(3)).is_err(), "a market that is not has a status");
        check_eq!(LoansApi::get_account_liquidity(user(3)).map_err(err).map(|(a, b)| (fx(a), fx(b))), Ok((rat(0), rat(0))), "of an account with nothing");
        Ok(())
    })
}
/// stored as the pallet stores it
fn store(pallet: &str, map: &str, id: H256, value: Vec<u8>) {
    let mut k = [sp_io::hashing::twox_128(pallet.as_bytes()), sp_io::hashing::twox_128(map.as_bytes())].concat();
    k.extend(sp_io::hashing::blake2_128(&id.encode()));
    k.extend(id.encode());
    sp_io::storage::set(&k, &value);
}
/// the requests of an account, and of the vaults of an account
pub fn requests(s: &mut Src) -> R {
    use frame_support::traits::PalletInfoAccess;
    use primitives::{issue::*, redeem::*, replace::*};
    open(|| {
        let mut all: Vec<(u8, H256, usize, usize)> = vec![];
        s.steps(0, 12, |s| {
            let id = H256(s.arr());
            let (a, b) = (s.idx(3), s.idx(3));
            let v = |s: &mut Src, i: usize| VaultId::new(user(i), *s.pick(&[NATIVE, RELAY]), WRAPPED);
            let (old, new) = (v(s, a), v(s, b));
            let n = size(s);
            let kind = s.below(3) as u8;
            let (at, period, h) = (1u32, 2u32, 3u32);
            match kind {
                0 => store(
                    <Issue as PalletInfoAccess>::name(),
                    "IssueRequests",
                    id,
                    IssueRequest {
                        vault: new,
                        opentime: at,
                        period,
                        griefing_collateral: n,
                        griefing_currency: NATIVE,
                        amount: n,
                        fee: n,
                        requester: user(a),
                        btc_address: Default::default(),
                        btc_public_key: Default::default(),
                        btc_height: h,
                        status: [IssueRequestStatus::Pending, IssueRequestStatus::Completed, IssueRequestStatus::Cancelled][s.idx(3)].clone(),
                    }
                    .encode(),
                ),
                1 => store(
                    <Redeem as PalletInfoAccess>::name(),
                    "RedeemRequests",
                    id,
                    RedeemRequest {
                        vault: new,
                        opentime: at,
                        period,
                        fee: n,
                        transfer_fee_btc: n,
                        amount_btc: n,
                        premium: n,
                        redeemer: user(a),
                        btc_address: Default::default(),
                        btc_height: h,
                        status: [RedeemRequestStatus::Pending, RedeemRequestStatus::Completed, RedeemRequestStatus::Retried][s.idx(3)].clone(),
                    }
                    .encode(),
                ),
                _ => store(
                    <Replace as PalletInfoAccess>::name(),
                    "ReplaceRequests",
                    id,
                    ReplaceRequest {
                        old_vault: old,
                        new_vault: new,
                        amount: n,
                        griefing_collateral: n,
                        collateral: n,
                        accept_time: at,
                        period,
                        btc_address: Default::default(),
                        btc_height: h,
                        status: [ReplaceRequestStatus::Pending, ReplaceRequestStatus::Completed, ReplaceRequestStatus::Cancelled][s.idx(3)].clone(),
                    }
                    .encode(),
                ),
            }
            all.push((kind, id, a, b));
            Ok(())
        })?;
        for u in 0..4 {
            for (what, got, kind, first) in [
                ("issues", IssueApi::get_issue_requests(user(u)), 0, true),
                ("issues with its vaults", IssueApi::get_vault_issue_requests(user(u)), 0, false),
                ("redeems", RedeemApi::get_redeem_requests(user(u)), 1, true),
                ("redeems from its vaults", RedeemApi::get_vault_redeem_requests(user(u)), 1, false),
                ("replaces of its vaults", ReplaceApi::get_old_vault_replace_requests(user(u)), 2, true),
                ("replaces by its vaults", ReplaceApi::get_new_vault_replace_requests(user(u)), 2, false),
            ] {
                let mut got = got;
                got.sort();
                let mut want: Vec<H256> = all.iter().filter(|x| x.0 == kind && u == if first { x.2 } else { x.3 }).map(|x| x.1).collect();
                want.sort();
                if !want.is_empty() {
                    s.nontrivial();
                }
                check_eq!(got, want, "account {u}: {what}");
            }
        }
        check!(BtcRelayApi::verify_block_header_inclusion(Default::default()).is_err(), "a block that is not there is included");
        Ok(())
    })
}
/// vaults that back tokens: what can be redeemed, and how well it is backed
pub fn backed(s: &mut Src) -> R {
    use oracle::OracleKey::ExchangeRate;
    open(|| {
        let price: Vec<(CurrencyId, UnsignedFixedPoint)> = [NATIVE, RELAY].iter().map(|c| (*c, UnsignedFixedPoint::from_inner(10u128.pow(18) * s.u128_in(1, 1_000_000)))).collect();
        let feed = |p: &[(CurrencyId, UnsignedFixedPoint)]| -> R {
            Oracle::feed_values(RuntimeOrigin::signed(user(90)), p.iter().map(|(c, p)| (ExchangeRate(*c), *p)).chain([(oracle::OracleKey::FeeEstimation, UnsignedFixedPoint::from_inner(3 * 10u128.pow(18)))]).collect()).map_err(err)?;
            <Oracle as Hooks<u32>>::on_initialize(now());
            Ok(())
        };
        feed(&price)?;
        tx(|| rt::Fee::set_premium_redeem_fee(RuntimeOrigin::root(), UnsignedFixedPoint::from_inner(5 * 10u128.pow(16))).map_err(|e| e.error)).map_err(err)?;
        tx(|| rt::Fee::set_redeem_fee(RuntimeOrigin::root(), UnsignedFixedPoint::from_inner(5 * 10u128.pow(15))).map_err(|e| e.error)).map_err(err)?;
        let rate = |c: CurrencyId| price.iter().find(|x| x.0 == c).map(|x| fx(x.1)).unwrap();
        let n = 1 + s.idx(3);
        let mut held: Vec<(VaultId, u128, u128, u128)> = vec![];
        for u in 0..n {
            let c = *s.pick(&[NATIVE, RELAY]);
            let id = VaultId::new(user(u), c, WRAPPED);
            // enough for some ten thousand satoshi
            let x = floor_u128(&(rate(c) * rat(10_000 + s.u128(1_000_000_000))));
            give(c, &user(u), x);
            VaultRegistry::register_public_key(by(u), Default::default()).map_err(err)?;
            tx(|| VaultRegistry::register_vault(by(u), pair(c), x)).map_err(|e| err(e.error))?;
            let can = VaultRegistry::get_issuable_tokens_from_vault(&id).map_err(err)?.amount();
            let (a, b) = (s.u128(can), s.u128(can));
            let (made, open) = (a.min(b), a.max(b) - a.min(b));
            let all = currency::Amount::<Runtime>::new(made + open, WRAPPED);
            let some = currency::Amount::<Runtime>::new(made, WRAPPED);
            tx(|| VaultRegistry::try_increase_to_be_issued_tokens(&id, &all)).map_err(err)?;
            tx(|| VaultRegistry::issue_tokens(&id, &some)).map_err(err)?;
            held.push((id, x, made, open));
        }
        s.note(|| format!("{held:?}"));
        // the price of the collateral rises by some factor in each
        let most = if s.bool() { 200 } else { 20 };
        let f = 100 + s.u128(most);
        let moved: Vec<(CurrencyId, UnsignedFixedPoint)> = price.iter().map(|(c, p)| (*c, UnsignedFixedPoint::from_inner(p.into_inner() / 100 * f))).collect();
        feed(&moved)?;
        let rate = |c: CurrencyId| moved.iter().find(|x| x.0 == c).map(|x| fx(x.1)).unwrap();
        let list = VaultRegistryApi::get_vaults_with_redeemable_tokens().map_err(err)?;
        check!(list.windows(2).all(|w| w[0].1.amount >= w[1].1.amount), "the list of those with tokens is not sorted: {list:?}");
        let banned: Vec<VaultId> = held.iter().map(|h| h.0.clone()).filter(|_| s.ratio(1, 5)).collect();
        for id in &banned {
            VaultRegistry::ban_vault(id).map_err(err)?;
        }
        let low = RedeemApi::get_premium_redeem_vaults().map_err(err).unwrap_or_default();
        check!(low.windows(2).all(|w| w[0].1.amount >= w[1].1.amount), "the list of those below the premium threshold is not sorted: {low:?}");
        for (id, x, made, open) in &held {
            let c = id.collateral_currency();
            let said = list.iter().find(|v| v.0 == *id).map(|v| v.1.amount);
            check_eq!(said, (*made > 0).then_some(*made), "what {id:?} can redeem");
            for only in [true, false] {
                let tokens = if only { *made } else { made + open };
                let other = 1 + size(s);
                for (y, got) in [
                    (*x, guarded(|| VaultRegistryApi::get_collateralization_from_vault(id.clone(), only))?),
                    (other, guarded(|| VaultRegistryApi::get_collateralization_from_vault_and_collateral(id.clone(), BalanceWrapper { amount: other }, only))?),
                ] {
                    if tokens == 0 {
                        check!(got.is_err(), "{id:?} without tokens is backed {got:?}");
                        continue;
                    }
                    let got = fx(got.map_err(err)?);
                    let want = rat(y) / rate(c) / rat(tokens);
                    check!((&got - &want).abs() <= rat(1) / rat(tokens) + ulp() * rat(2), "{y} of {c:?} backs {tokens} by {}, not {}", show(&got), show(&want));
                    s.nontrivial();
                }
            }
            // for a vault with tokens, what the threshold asks for all of them
            let need = amount(VaultRegistryApi::get_required_collateral_for_vault(id.clone()))?;
            let want = rat(made + open) * rate(c) * ratio(260, 100);
            check!((rat(need) - &want).abs() <= rate(c) + rat(3), "{id:?} needs {need}, not {}", show(&want));
            // below the premium threshold: with less than twice its tokens' worth; what it has to
            // redeem to be back at the threshold for new tokens
            let edge = rat(made + open) * rate(c) * rat(2) - rat(*x);
            let said = low.iter().find(|v| v.0 == *id).map(|v| v.1.amount);
            if said.is_some() {
                s.label("premium");
            }
            if edge.abs() > rate(c) + rat(3) {
                check_eq!(said.is_some(), edge > rat(0) && !banned.contains(id), "whether {id:?}, short of {} to the premium threshold, is in its list", show(&edge));
            }
            if let Some(said) = said {
                let lacks = &want - rat(*x);
                let inclusion = rt::Redeem::get_current_inclusion_fee(WRAPPED).map_err(err)?.amount();
                let want = (lacks / (ratio(260, 100) - ratio(5, 100)) / rate(c) + rat(inclusion)) / ratio(995, 1000);
                check!((rat(said) - &want).abs() <= rat(5) + rat(45) / rate(c), "{id:?} can redeem {said} for a premium, not {}", show(&want));
            }
        }
        Ok(())
    })
}
fn amount(r: Result<BalanceWrapper<u128>, sp_runtime::DispatchError>) -> Result<u128, String> {
    r.map(|x| x.amount).map_err(err)
}
