//! Markets: only sound ones, each with a lend token of its own.
use crate::rt::*;
use crate::run::market;
use crate::world::*;
use pbt::{check_eq, Src, R};
use std::collections::BTreeMap;

const POOLS: [CurrencyId; 4] = [Token(DOT), Token(KSM), Token(IBTC), LendToken(2)];
fn sound(k: &Market<u128>) -> bool {
    let one = Permill::one();
    k.rate_model.check_model()
        && k.collateral_factor < one
        && k.liquidation_threshold < one
        && k.liquidation_threshold >= k.collateral_factor
        && k.reserve_factor > Permill::zero()
        && k.reserve_factor < one
        && k.liquidate_incentive_reserved_factor < one
        && k.supply_cap > 0
}
use sp_runtime::traits::Zero as _;
fn any(s: &mut Src) -> Permill {
    match s.below(6) {
        0 => Permill::one(),
        1 => Permill::zero(),
        2 => Permill::from_parts(999_999),
        _ => Permill::from_parts(s.uniform(0, 1_000_000) as u32),
    }
}
fn candidate(s: &mut Src) -> Market<u128> {
    let m = s.idx(4);
    let mut k = market(s, m, 1_000_000);
    for _ in 0..s.below(2) {
        match s.below(9) {
            0 => k.collateral_factor = any(s),
            1 => k.liquidation_threshold = any(s),
            2 => k.reserve_factor = any(s),
            3 => k.close_factor = any(s),
            4 => k.liquidate_incentive_reserved_factor = any(s),
            5 => k.supply_cap = s.below(2) as u128,
            6 => k.state = *s.pick(&[MarketState::Active, MarketState::Supervision]),
            7 => k.rate_model = InterestRateModel::new_curve_model(fxu(s.u128(ONE / 5))),
            _ => k.rate_model = InterestRateModel::new_jump_model(fxu(s.u128(ONE / 5)), fxu(s.u128(2 * ONE)), fxu(s.u128(6 * ONE)), any(s)),
        }
    }
    k
}
pub fn markets(s: &mut Src) -> R {
    open(ONE / 50, ONE, vec![], || {
        let mut want: BTreeMap<CurrencyId, Market<u128>> = BTreeMap::new();
        let mut lent: BTreeMap<CurrencyId, CurrencyId> = BTreeMap::new();
        s.steps(4, 30, |s| {
            let a = *s.pick(&POOLS);
            let root = s.ratio(9, 10);
            let o = if root { RuntimeOrigin::root() } else { by(0) };
            let had = want.get(&a).cloned();
            let (what, ok, done): (_, bool, bool) = match s.below(6) {
                0 | 1 => {
                    let k = candidate(s);
                    let id = k.lend_token_id;
                    let ok = root && had.is_none() && k.state == MarketState::Pending && sound(&k) && !lent.contains_key(&id) && !want.contains_key(&id);
                    let r = tx(|| Loans::add_market(o, a, k.clone()).map_err(|e| e.error)).is_ok();
                    if ok {
                        want.insert(a, k.clone());
                        lent.insert(id, a);
                    }
                    (format!("add_market {a:?} {k:?}"), ok, r)
                }
                2 => {
                    let ok = root && had.as_ref().map_or(false, |k| k.state != MarketState::Active);
                    let r = tx(|| Loans::activate_market(o, a).map_err(|e| e.error)).is_ok();
                    if ok {
                        want.get_mut(&a).unwrap().state = MarketState::Active;
                    }
                    (format!("activate_market {a:?}"), ok, r)
                }
                3 => {
                    let k = candidate(s).rate_model;
                    let ok = root && had.is_some() && k.check_model();
                    let r = tx(|| Loans::update_rate_model(o, a, k).map_err(|e| e.error)).is_ok();
                    if ok {
                        want.get_mut(&a).unwrap().rate_model = k;
                    }
                    (format!("update_rate_model {a:?} {k:?}"), ok, r)
                }
                4 => {
                    let k = candidate(s);
                    let mut new = had.clone().unwrap_or_else(|| k.clone());
                    let pick = s.below(256);
                    let bit = |n: u64| pick >> n & 1 == 1;
                    macro_rules! opt {
                        ($n:expr, $f:ident) => {
                            if bit($n) {
                                new.$f = k.$f.clone();
                                Some(k.$f.clone())
                            } else {
                                None
                            }
                        };
                    }
                    let (cf, lt, rf, close) = (opt!(0, collateral_factor), opt!(1, liquidation_threshold), opt!(2, reserve_factor), opt!(3, close_factor));
                    let (res, inc, cap, bcap) = (opt!(4, liquidate_incentive_reserved_factor), opt!(5, liquidate_incentive), opt!(6, supply_cap), opt!(7, borrow_cap));
                    let ok = root && had.is_some() && sound(&new);
                    let r = tx(|| Loans::update_market(o, a, cf, lt, rf, close, res, inc, cap, bcap).map_err(|e| e.error)).is_ok();
                    if ok {
                        want.insert(a, new.clone());
                    }
                    (format!("update_market {a:?} to {new:?}"), ok, r)
                }
                _ => {
                    let k = candidate(s);
                    // replacing a market as a whole keeps it sound only if what replaces it is: the rate model is checked
                    let id = k.lend_token_id;
                    let ok = root && had.is_some() && k.rate_model.check_model() && lent.get(&id).map_or(true, |x| *x == a);
                    if ok && !sound(&k) {
                        return Ok(());
                    }
                    let r = tx(|| Loans::force_update_market(o, a, k.clone()).map_err(|e| e.error)).is_ok();
                    if ok {
                        want.insert(a, k.clone());
                        lent.insert(id, a);
                    }
                    (format!("force_update_market {a:?} {k:?}"), ok, r)
                }
            };
            s.note(|| format!("{what} -> {done}"));
            check_eq!(done, ok, "accepted: {what}");
            if done {
                s.nontrivial();
            }
            for a in POOLS {
                check_eq!(loans::Markets::<Test>::get(a), want.get(&a).cloned(), "market of {a:?} after {what}");
            }
            for id in 1..6 {
                let id = LendToken(id);
                check_eq!(loans::UnderlyingAssetId::<Test>::get(id), lent.get(&id).copied(), "currency of {id:?}");
            }
            // a new market starts with nothing borrowed and the lowest exchange rate
            for a in want.keys() {
                check_eq!(Loans::borrow_index(*a).into_inner(), ONE, "borrow index");
                check_eq!(Loans::exchange_rate(*a).into_inner(), ONE / 50, "exchange rate");
            }
            Ok(())
        })
    })
}
