//! Fees paid in another currency: swapped first, then taken, corrected, and handed on.
use crate::{pairs::*, rt::*};
use frame_support::dispatch::{DispatchInfo, Dispatchable, GetDispatchInfo, Pays};
use frame_support::weights::Weight;
use multi_transaction_payment::Call as PayCall;
use dex_general::WeightInfo;
use pallet_transaction_payment::OnChargeTransaction;
use pbt::{check, check_eq, fail, Src, R};
use sp_runtime::{transaction_validity::{InvalidTransaction, TransactionValidityError}, DispatchError};

type Taken = <Payment as OnChargeTransaction<Test>>::LiquidityInfo;

fn inner(s: &mut Src, pre: &Snap) -> RuntimeCall {
    let a = assets();
    let ids = |p: &[usize]| p.iter().map(|i| a[*i]).collect::<Vec<_>>();
    let weight = |s: &mut Src| Weight::from_parts(*s.pick(&[0u64, 1, 1000, 1 << 40, u64::MAX]), s.below(5));
    match s.weighted(&[5, 3, 1, 1]) {
        0 => RuntimeCall::Costs(costs::Call::cost {
            expected: weight(s),
            actual: s.bool().then(|| weight(s)),
            fail: s.ratio(1, 3),
            free: s.ratio(1, 3),
            operational: s.ratio(1, 4),
        }),
        1 => {
            let p = path(s);
            let x = amount(s, pre.bal[0][p[0].min(N - 1)] / 4);
            RuntimeCall::General(dex_general::Call::swap_exact_assets_for_assets { amount_in: x, amount_out_min: 0, path: ids(&p), recipient: user(s.idx(USERS)), deadline: 1_000 })
        }
        2 => RuntimeCall::General(dex_general::Call::set_fee_point { fee_point: s.below(200) as u8 }),
        _ => {
            let call = inner(s, pre);
            RuntimeCall::Payment(PayCall::with_fee_swap_path { path: ids(&path(s)), amount_in_max: s.u128(u128::MAX), call: Box::new(call) })
        }
    }
}
pub fn fees(s: &mut Src) -> R {
    let native = s.idx(N);
    NativeId::set(assets()[native]);
    drive(s, SWAPS, &mut |s, st| {
        if !s.ratio(1, 2) {
            return Ok(());
        }
        swaps_off(s.ratio(1, 6));
        let r = dry(|| one(s, st.post, native));
        swaps_off(false);
        r
    })
}
fn one(s: &mut Src, pre: &Snap, native: usize) -> R {
    let a = assets();
    let who = s.idx(USERS);
    let call = inner(s, pre);
    let mut path = path(s);
    if !s.ratio(1, 8) {
        let n = path.len();
        path[n - 1] = native;
        if n > 1 && path[n - 2] == native {
            path[n - 2] = (native + 1 + s.idx(N - 1)) % N;
        }
    }
    // a call within is not asked for its path, but one alone is
    let by_swap = matches!(call, RuntimeCall::Payment(_)) || !s.ratio(1, 6);
    let n = path.len();
    let around = if by_swap && n > 1 { pair_of(path[n - 2], path[n - 1]).map_or(1000, |p| pre.held(p, path[n - 1]) / 8) } else { pre.bal[who][native] };
    let fee = if s.ratio(1, 20) { 0 } else { amount(s, around) };
    let tip = if s.bool() { 0 } else { s.u128(fee) };
    let need = pre.ins(fee, &path);
    let max = if s.bool() { u128::MAX } else { near(s, need.as_ref().map_or(0, |v| v[0])) };
    let ids = path.iter().map(|i| a[*i]).collect::<Vec<_>>();
    let full = if by_swap { RuntimeCall::Payment(PayCall::with_fee_swap_path { path: ids, amount_in_max: max, call: Box::new(call.clone()) }) } else { call.clone() };
    let what = format!("a fee of {fee} (tip {tip}) in {native} by {who}, through {:?}, at most {max}", by_swap.then_some(&path));

    // what the call is said to cost
    let (info, bare): (DispatchInfo, DispatchInfo) = (full.get_dispatch_info(), call.get_dispatch_info());
    let extra = if by_swap { <() as WeightInfo>::swap_assets_for_exact_assets(n as u32) } else { Weight::zero() };
    check_eq!((info.weight, info.class), (extra.saturating_add(bare.weight), bare.class), "the weight told of {what}");

    // the fee is taken
    let issuance = issued(a[native]);
    let root = storage_root();
    let mut why = None;
    let taken: Option<Taken> = pbt::guarded(|| {
        tx(|| {
            <Payment as OnChargeTransaction<Test>>::withdraw_fee(&user(who), &full, &info, fee, tip).map_err(|e| {
                why = Some(e);
                DispatchError::Unavailable
            })
        })
        .ok()
    })?;
    s.note(|| format!("{what}: {}", if taken.is_some() { "taken" } else { "refused" }));
    let want: Result<Snap, &str> = if fee == 0 {
        Ok(pre.clone())
    } else if !by_swap {
        Ok(pre.clone())
    } else if path.last() != Some(&native) {
        Err("the path does not end in the native currency")
    } else if path.iter().any(|i| *i >= N) {
        Err("a currency that cannot be in a pair")
    } else {
        match &need {
            None => Err("there is no such swap"),
            Some(v) if v[0] > max => Err("it takes more than offered"),
            Some(_) if revisits(&path) => Ok(Snap::read()),
            Some(v) => pre.clone().swap(who, v, &path, who).ok_or("not enough"),
        }
    };
    let mut open = by_swap && fee > 0 && revisits(&path);
    let want = want.and_then(|mut w| {
        if open {
            return Ok(w);
        }
        w.bal[who][native] = w.bal[who][native].checked_sub(fee).ok_or("not enough for the fee")?;
        Ok(w)
    });
    let taken = match (taken, &want) {
        (None, Ok(_)) if open => {
            open = false;
            None
        }
        (None, Ok(_)) => fail!("{what} was refused: {why:?}"),
        (Some(_), Err(w)) => fail!("{what} was taken though {w}"),
        (None, Err(_)) => None,
        (Some(t), Ok(_)) => Some(t),
    };
    let Some(taken) = taken else {
        check!(storage_root() == root, "{what} was refused and yet changed something");
        check_eq!(why, Some(TransactionValidityError::Invalid(InvalidTransaction::Payment)), "the reason given for {what}");
        s.label("refused");
        return Ok(());
    };
    let after = Snap::read();
    let want = want.unwrap();
    if !open {
        if let Some(d) = diff(&after, &want) {
            fail!("after {what}: {d}");
        }
    } else {
        // through a pair twice: what is paid is within the limit, and the fee comes of it
        let paid = if path[0] == native { (pre.bal[who][native] + 0).saturating_sub(after.bal[who][native]) } else { pre.bal[who][path[0]] - after.bal[who][path[0]] };
        check!(paid <= if path[0] == native { max.saturating_add(fee) } else { max }, "{what}: {paid} were paid");
        if path[0] != native {
            check_eq!(after.bal[who][native], pre.bal[who][native], "the native balance after {what}");
        }
    }
    check_eq!(issued(a[native]), issuance, "the native currency in existence while {what} is held");
    if fee > 0 {
        s.label(if by_swap { "by a swap" } else { "native" });
        if by_swap {
            s.nontrivial();
        }
    }

    // the call does what it does alone
    let held = storage_root();
    let alone = dry(|| (tx(|| call.clone().dispatch(by(who))), storage_root()));
    let within = pbt::guarded(|| dry(|| (tx(|| full.clone().dispatch(by(who))), storage_root())))?;
    check_eq!(within.1, alone.1, "what {call:?} left behind {what}");
    let res = tx(|| full.clone().dispatch(by(who)));
    if alone.0.is_ok() {
        s.label("call done");
    } else {
        check_eq!(storage_root(), held, "what {call:?} left, failing, behind {what}");
    }
    let parts = |r: &frame_support::dispatch::DispatchResultWithPostInfo| match r {
        Ok(p) => (None, *p),
        Err(e) => (Some(e.error), e.post_info),
    };
    let ((e, post), (e0, post0)) = (parts(&res), parts(&alone.0));
    check_eq!(e, e0, "what came of {call:?}");
    check_eq!(post.pays_fee == Pays::Yes, post0.pays_fee == Pays::Yes, "whether {call:?} is paid for");
    check_eq!(post.actual_weight, post0.actual_weight.map(|w| w.saturating_add(extra)), "the weight used by {call:?}");

    // the fee is corrected, and handed on
    let before = Snap::read();
    let (was, held) = (bal(a[native], &collector()), issued(a[native]));
    let corrected = match s.below(4) {
        0 => fee,
        1 => tip,
        _ => tip + s.u128(fee - tip),
    };
    collected();
    pbt::guarded(|| <Payment as OnChargeTransaction<Test>>::correct_and_deposit_fee(&user(who), &info, &post, corrected, tip, taken))?.map_err(|e| format!("the fee was not handed on: {e:?}"))?;
    let mut want = before.clone();
    want.bal[who][native] += fee - corrected;
    if let Some(d) = diff(&Snap::read(), &want) {
        fail!("{what}, corrected to {corrected}: {d}");
    }
    check_eq!(bal(a[native], &collector()) - was, if fee == 0 { 0 } else { corrected }, "what the collector got of {what}, corrected to {corrected}");
    check_eq!(collected(), if fee == 0 { vec![] } else { vec![corrected - tip, tip] }, "the fee and the tip handed on of {what}, corrected to {corrected}");
    check_eq!(issued(a[native]), held, "the native currency in existence after {what}");
    Ok(())
}
