//! The properties of the vault protocol.
use crate::model::*;
use crate::rt::*;
use crate::run::*;
use crate::world::*;
use pbt::{check, check_eq, fail, law, Finding, Prop, Src, R};
use sp_core::H256;
use std::collections::BTreeSet;

type Each<'a> = dyn FnMut(&mut Src, &Chain, &Step, &Judged) -> R + 'a;

/// a history; `each` looks at every call. A call whose outcome is left open ends it, and so does a panic
pub fn drive(s: &mut Src, mix: Mix, each: &mut Each) -> R {
    let run = setup(s);
    open(&run.conf, || {
        begin(&run)?;
        let mut orphans = BTreeSet::new();
        let mut pre = Snap::read(&run.ids);
        let mut stop = false;
        s.steps(8, 70, |s| {
            if stop {
                return Ok(());
            }
            let op = gen(s, &Chain { conf: &run.conf, ids: &run.ids, orphans: &orphans }, &pre, &mix);
            let (res, post, judged) = step(&run, &mut orphans, &pre, &op);
            s.note(|| format!("{op:?} -> {res:?}"));
            if res.is_ok() {
                s.label(op.name());
            }
            let ch = Chain { conf: &run.conf, ids: &run.ids, orphans: &orphans };
            match &judged {
                Judged::Open => {
                    stop = true;
                    return Ok(());
                }
                Judged::Off(w) if w.contains("panicked") => stop = true,
                _ => (),
            }
            each(s, &ch, &Step { pre: &pre, post: &post, op: &op, ok: res.is_ok() }, &judged)?;
            pre = post;
            Ok(())
        })
    })
}
/// the calls of a part of the protocol do what the reference does
fn follows(s: &mut Src, part: &[&str], mix: Mix) -> R {
    let mut off = false;
    drive(s, mix, &mut |s, _, st, judged| {
        if off {
            return Ok(());
        }
        let mine = part.contains(&st.op.part());
        if st.ok && mine && st.op.part() != "world" {
            s.nontrivial();
        }
        match judged {
            Judged::Off(why) if std::env::var("TALLY").is_ok() => {
                eprintln!("TALLY {why}");
                off = true;
            }
            Judged::Off(why) if mine => fail!("{why}"),
            Judged::Off(_) => off = true,
            _ => (),
        }
        Ok(())
    })
}
fn issue(s: &mut Src) -> R {
    follows(s, &["issue"], [10, 2, 1, 2, 1, 4])
}
fn redeem(s: &mut Src) -> R {
    follows(s, &["redeem"], [6, 12, 2, 2, 1, 6])
}
fn replace(s: &mut Src) -> R {
    follows(s, &["replace"], [4, 1, 12, 2, 1, 4])
}
fn registry(s: &mut Src) -> R {
    follows(s, &["registry", "world"], [5, 5, 2, 10, 3, 6])
}
fn nomination(s: &mut Src) -> R {
    follows(s, &["nomination"], [3, 2, 1, 2, 12, 3])
}

const EVEN: Mix = [6, 6, 4, 4, 4, 6];

fn backing(s: &mut Src) -> R {
    drive(s, EVEN, &mut |s, ch, st, _| {
        if st.ok && st.pre.wrapped != st.post.wrapped {
            s.nontrivial();
        }
        let x = st.post;
        let what = st.op.name();
        let total: u128 = x.vaults.values().map(|v| v.issued).sum::<u128>() + x.sys.values().map(|l| l.issued).sum::<u128>();
        check_eq!(x.wrapped, total, "wrapped issuance against the tokens of the vaults, after {what}");
        let mut held: u128 = 0;
        for a in accounts() {
            held += x.free[&(a, W)] + x.held[&(a, W)];
            let locked: u128 = x.redeems.values().filter(|r| r.who == a && r.status == 0).map(|r| r.burned() + r.fee).sum();
            check!(x.held[&(a, W)] >= locked, "{} has {} tokens reserved but asked to redeem {locked}, after {what}", name(a), x.held[&(a, W)]);
        }
        check_eq!(x.wrapped, held, "wrapped issuance against the balances, after {what}");
        let mut lost_tbi = [0u128; 3];
        let mut lost_tbr = [0u128; 3];
        for (i, v) in &x.vaults {
            let mut tbi: u128 = 0;
            for (id, r) in x.issues.iter().filter(|(_, r)| r.status == 0 && r.vault == *i) {
                *(if ch.orphans.contains(id) { &mut lost_tbi[v.col] } else { &mut tbi }) += r.amount + r.fee;
            }
            for (id, r) in x.replaces.iter().filter(|(_, r)| r.status == 0 && r.new == *i) {
                *(if ch.orphans.contains(id) { &mut lost_tbi[v.col] } else { &mut tbi }) += r.amount;
            }
            let tbr: u128 = x.redeems.values().filter(|r| r.status == 0 && r.vault == *i).map(|r| r.burned()).sum::<u128>()
                + x.replaces.values().filter(|r| r.status == 0 && r.old == *i).map(|r| r.amount).sum::<u128>();
            check_eq!(v.tbr, tbr, "tokens to be redeemed of vault {i} against its open requests, after {what}");
            if v.live() {
                check_eq!(v.tbi, tbi, "tokens to be issued of vault {i} against its open requests, after {what}");
                check!(v.issued >= v.tbr, "vault {i} has {} tokens to redeem but issued {}, after {what}", v.tbr, v.issued);
            } else {
                check_eq!((v.issued, v.tbi), (0, 0), "tokens left with the liquidated vault {i}, after {what}");
                lost_tbi[v.col] += tbi;
                lost_tbr[v.col] += tbr;
            }
        }
        for c in 0..3 {
            check_eq!(x.sys[&c].tbi, lost_tbi[c], "tokens to be issued of the liquidation vault of {:?}, after {what}", COLS[c]);
            check_eq!(x.sys[&c].tbr, lost_tbr[c], "tokens to be redeemed of the liquidation vault of {:?}, after {what}", COLS[c]);
            check!(x.sys[&c].issued >= x.sys[&c].tbr, "the liquidation vault of {:?} has more to redeem than issued, after {what}", COLS[c]);
        }
        Ok(())
    })
}

fn custody(s: &mut Src) -> R {
    // withdrawing all of a stake leaves its fraction behind
    let mut dust: u128 = 0;
    drive(s, EVEN, &mut |s, ch, st, _| {
        if let (true, Op::Withdraw { amount: None, .. }) = (st.ok, st.op) {
            dust += 1;
        }
        let x = st.post;
        let what = st.op.name();
        if st.ok && st.pre.tuvc != x.tuvc {
            s.nontrivial();
        }
        for c in 0..3 {
            let all = |x: &Snap| accounts().iter().map(|a| x.free[&(*a, c)] + x.held[&(*a, c)]).sum::<u128>();
            check_eq!(all(st.pre), all(x), "{:?} in existence, after {what}", COLS[c]);
        }
        for a in PEOPLE {
            for c in 0..3 {
                let mut claims: u128 = 0;
                for v in x.vaults.values().filter(|v| v.acct == a) {
                    if v.col == c {
                        claims += v.total + v.liq + v.stale_total.values().sum::<u128>();
                    }
                    if c == N {
                        claims += v.rep_coll + v.act_rep_coll;
                    }
                }
                claims += x.issues.values().filter(|r| r.status == 0 && r.who == a && r.gcur == c).map(|r| r.grief).sum::<u128>();
                let held = x.held[&(a, c)];
                check!(held >= claims && held <= claims + dust, "{held} {:?} of {a} is reserved, {claims} of it for something, after {what}", COLS[c]);
            }
            let claims: u128 = x.redeems.values().filter(|r| r.status == 0 && r.who == a).map(|r| r.burned() + r.fee).sum::<u128>()
                + x.issues.values().filter(|r| r.status == 0 && r.who == a && r.gcur == W).map(|r| r.grief).sum::<u128>();
            check_eq!(x.held[&(a, W)], claims, "reserved tokens of {a} against what they are reserved for, after {what}");
        }
        for (i, v) in &x.vaults {
            let active: u128 = x.replaces.values().filter(|r| r.status == 0 && r.old == *i).map(|r| r.grief).sum();
            check_eq!(v.act_rep_coll, active, "griefing collateral of the replacements of vault {i}, after {what}");
            let parts: u128 = v.parts.iter().filter(|(k, _)| k.0 == v.nonce).map(|(_, p)| *p).sum();
            check!(parts <= v.total + 1, "the stakes in vault {i} add up to {parts} of {}, after {what}", v.total);
            check!(v.total <= parts + 8, "the stakes in vault {i} add up to only {parts} of {}, after {what}", v.total);
        }
        for c in 0..3 {
            let l = liquidation_account();
            check_eq!(x.held[&(l, c)], x.sys[&c].coll, "collateral of the liquidation vault of {:?}, after {what}", COLS[c]);
            let t: u128 = x.vaults.values().filter(|v| v.col == c).map(|v| v.total + v.liq).sum::<u128>() + x.sys[&c].coll;
            check!(x.tuvc[&c] >= t && x.tuvc[&c] <= t + dust, "total collateral of {:?} is {} and adds up to {t}, after {what}", COLS[c], x.tuvc[&c]);
            if x.tuvc[&c] > st.pre.tuvc[&c] {
                check!(x.tuvc[&c] <= x.ceiling[&c], "{what} raised the collateral of {:?} beyond its ceiling", COLS[c]);
            }
        }
        for (i, v) in &x.vaults {
            let secure = x.secure(ch, *i);
            let w = if v.status == 0 { muldiv(v.total, ONE, secure) } else { 0 };
            check_eq!(v.weight, w, "reward stake of vault {i} against its collateral, after {what}");
        }
        Ok(())
    })
}

fn rate_of(x: &Snap, c: usize) -> Rat {
    ratio(x.rate[&c], ONE)
}
fn fixed(f: u128) -> Rat {
    ratio(f, ONE)
}
/// collateral that so many tokens need at a threshold
fn needs(x: &Snap, c: usize, tokens: u128, thr: u128) -> Rat {
    rat(tokens) * rate_of(x, c) * fixed(thr)
}
fn solvency(s: &mut Src) -> R {
    drive(s, [6, 5, 4, 6, 5, 6], &mut |s, ch, st, _| {
        let (x, pre) = (st.post, st.pre);
        let what = st.op.name();
        let liq = |c: usize| ch.conf.thresholds[c].3.into_inner();
        if !st.ok {
            if let Op::Report { v } = st.op {
                if let Some(y) = pre.vaults.get(v).filter(|y| y.live()) {
                    check!(
                        rat(y.total) >= needs(pre, y.col, y.issued, liq(y.col)),
                        "a vault with {} of collateral for {} tokens at {} was not liquidated",
                        y.total,
                        y.issued,
                        show(&rate_of(pre, y.col))
                    );
                }
            }
            return Ok(());
        }
        // whatever adds to what a vault owes, or takes from its collateral at will, leaves it secure
        let willing = matches!(
            st.op,
            Op::RequestIssue { .. }
                | Op::ExecuteIssue { .. }
                | Op::MintReimbursed { .. }
                | Op::AcceptReplace { .. }
                | Op::ExecuteReplace { .. }
                | Op::CancelReplace { .. }
                | Op::Withdraw { .. }
                | Op::OptOut { .. }
                | Op::Register { .. }
        );
        for (i, y) in x.vaults.iter().filter(|(_, y)| y.live()) {
            let Some(p) = pre.vaults.get(i) else { continue };
            let owes = y.issued + y.tbi;
            if willing && (owes > p.issued + p.tbi || y.total < p.total) {
                s.nontrivial();
                let thr = x.secure(ch, *i);
                check!(
                    needs(x, y.col, owes, thr) <= rat(y.total) + fixed(thr) + rat(2),
                    "{what} left vault {i} with {} of collateral for {owes} tokens at {}, below its threshold {}",
                    y.total,
                    show(&rate_of(x, y.col)),
                    show(&fixed(thr))
                );
            }
        }
        match st.op {
            // (of all of a stake: it is judged as if nothing were left)
            Op::Withdraw { v, amount: Some(_), .. } => {
                let (y, p) = (&x.vaults[v], &pre.vaults[v]);
                check!(y.total == p.total || y.total == 0 || y.total >= x.min[&y.col], "a withdrawal left {}, less than the minimum", y.total);
            }
            Op::Report { v } => {
                s.nontrivial();
                let (y, p) = (&x.vaults[v], &pre.vaults[v]);
                let c = p.col;
                check!(
                    rat(p.total) < needs(pre, c, p.issued, liq(c)) + rate_of(pre, c),
                    "a vault with {} of collateral for {} tokens at {} was liquidated",
                    p.total,
                    p.issued,
                    show(&rate_of(pre, c))
                );
                let (a, b) = (&pre.sys[&c], &x.sys[&c]);
                check_eq!(b.issued - a.issued, p.issued, "issued tokens taken over");
                check_eq!(b.tbi - a.tbi, p.tbi, "tokens to be issued taken over");
                check_eq!(b.tbr - a.tbr, p.tbr, "tokens to be redeemed taken over");
                let taken = (b.coll - a.coll) + (y.liq - p.liq);
                let worth = needs(pre, c, p.issued + p.tbi, liq(c));
                check!(rat(taken) <= worth, "{taken} was taken for tokens worth {}", show(&worth));
                let due = worth.clone().min(rat(p.total)) * ratio(p.issued + p.tbi - p.tbr, p.issued + p.tbi);
                check!(rat(b.coll - a.coll) >= due.clone() - fixed(liq(c)) - rat(3), "only {} of {} came to the liquidation vault", b.coll - a.coll, show(&due));
            }
            Op::LiquidationRedeem { who, col, amount } => {
                s.nontrivial();
                let (a, b) = (&pre.sys[col], &x.sys[col]);
                let before = a.issued + a.tbi - a.tbr;
                let got = a.coll - b.coll;
                check_eq!(x.free[&(*who, *col)] - pre.free[&(*who, *col)], got, "collateral paid out");
                let share = rat(a.coll) * ratio(*amount, before);
                check!(rat(got) <= share && rat(got) > share.clone() - rat(1), "{got} was paid of {}, for {amount} of {before} tokens", a.coll);
            }
            Op::CancelRedeem { id, reimburse, .. } => {
                s.nontrivial();
                let r = &pre.redeems[id];
                let (y, p) = (&x.vaults[&r.vault], &pre.vaults[&r.vault]);
                let got = x.free[&(r.who, p.col)] - pre.free[&(r.who, p.col)];
                if p.live() {
                    let f = fixed(ch.conf.punishment_fee.into_inner());
                    let worth = rat(r.burned()) * rate_of(pre, p.col);
                    let due = if *reimburse { worth.clone() + worth * f } else { worth * f };
                    check!(rat(got) >= due.clone().min(rat(p.total)) - rat(2), "the redeemer got {got} of {}", show(&due));
                    check!(rat(got) <= due.clone() + rat(2), "the redeemer got {got}, not {}", show(&due));
                    check_eq!(p.total - y.total, got, "taken from the vault");
                    check!(x.banned(r.vault), "the vault that failed is not banned");
                }
            }
            _ => (),
        }
        Ok(())
    })
}

fn id_at(ch: &Chain, id: &Id) -> usize {
    ch.ids.iter().position(|x| x == id).unwrap()
}
fn queries(s: &mut Src) -> R {
    drive(s, EVEN, &mut |s, ch, st, _| {
        if !s.ratio(1, 5) {
            return Ok(());
        }
        let x = st.post;
        let sig = RuntimeOrigin::signed;
        let rich = 21u64;
        let listed = VaultRegistry::get_vaults_with_issuable_tokens().map_err(|e| format!("get_vaults_with_issuable_tokens: {e:?}"))?;
        check!(listed.windows(2).all(|w| w[0].1.amount() >= w[1].1.amount()), "issuable vaults out of order");
        let redeemable = VaultRegistry::get_vaults_with_redeemable_tokens().map_err(|e| format!("get_vaults_with_redeemable_tokens: {e:?}"))?;
        check!(redeemable.windows(2).all(|w| w[0].1.amount() >= w[1].1.amount()), "redeemable vaults out of order");
        let premium = Redeem::get_premium_redeem_vaults().unwrap_or_default();
        check!(premium.windows(2).all(|w| w[0].1.amount() >= w[1].1.amount()), "premium vaults out of order");
        for (i, v) in &x.vaults {
            let id = &ch.ids[*i];
            // issuable
            let in_list = listed.iter().find(|l| l.0 == *id).map_or(0, |l| l.1.amount());
            let able = VaultRegistry::get_issuable_tokens_from_vault(id).map(|a| a.amount());
            check_eq!(able.unwrap_or(0), in_list, "issuable tokens of vault {i} against the list");
            check_eq!(able.is_ok(), v.live(), "issuable tokens of vault {i} known");
            let try_issue = |n: u128| {
                dry(|| {
                    // enough to lock
                    for c in COLS {
                        <Tokens as orml_traits::MultiCurrency<u64>>::deposit(c, &rich, 1 << 100).unwrap();
                    }
                    Issue::request_issue(sig(rich), n, id.clone(), NATIVE).map(|_| ())
                })
            };
            if in_list >= ch.conf.issue_dust {
                s.nontrivial();
                s.label("issuable asked for");
                let r = try_issue(in_list);
                check!(r.is_ok(), "vault {i} is said to issue {in_list} but did not: {r:?}");
            }
            check!(try_issue((in_list + 1).max(ch.conf.issue_dust)).is_err(), "vault {i} is said to issue only {in_list} but issued more");
            // redeemable
            let in_list = redeemable.iter().find(|l| l.0 == *id).map_or(0, |l| l.1.amount());
            let want = if x.banned(*i) { 0 } else { v.issued.saturating_sub(v.tbr) };
            check_eq!(in_list, want, "redeemable tokens of vault {i}");
            let try_redeem = |burned: u128| {
                dry(|| {
                    // as its own operator: no fee
                    <Tokens as orml_traits::MultiCurrency<u64>>::deposit(WRAPPED, &v.acct, burned).unwrap();
                    Redeem::request_redeem(sig(v.acct), burned, address(7), id.clone()).map(|_| ())
                })
            };
            if in_list >= ch.conf.redeem_dust + x.inclusion(ch) {
                s.nontrivial();
                s.label("redeemable asked for");
                let r = try_redeem(in_list);
                check!(r.is_ok(), "vault {i} is said to redeem {in_list} but did not: {r:?}");
            }
            check!(try_redeem((in_list + 1).max(ch.conf.redeem_dust + x.inclusion(ch))).is_err(), "vault {i} is said to redeem only {in_list} but redeems more");
            // collateralization
            for only in [true, false] {
                let n = if only { v.issued } else { v.issued + v.tbi };
                let got = VaultRegistry::get_collateralization_from_vault(id.clone(), only);
                if !v.live() || n == 0 {
                    check!(got.is_err(), "vault {i} has a collateralization without tokens");
                } else {
                    let got = fx(got.map_err(|e| format!("collateralization of vault {i}: {e:?}"))?);
                    let want = rat(v.total) / rate_of(x, v.col) / rat(n);
                    check!(got <= want && got >= want.clone() - ratio(2, n) - ulp(), "collateralization of vault {i} is {}, not {}", show(&got), show(&want));
                }
            }
            if v.live() {
                let got = VaultRegistry::get_required_collateral_for_vault(id.clone()).map_err(|e| format!("required collateral: {e:?}"))?.amount();
                let thr = x.secure(ch, *i);
                let want = needs(x, v.col, v.issued + v.tbi, thr);
                check!((rat(got) - want.clone()).abs() <= fixed(thr) + rate_of(x, v.col) + rat(1), "vault {i} is said to need {got}, not {}", show(&want));
            } else {
                check!(VaultRegistry::get_required_collateral_for_vault(id.clone()).is_err(), "a liquidated vault needs collateral");
            }
            // premium
            let in_list = premium.iter().find(|l| l.0 == *id).map(|l| l.1.amount());
            let below = v.live() && !x.banned(*i) && x.below_premium(ch, *i);
            if let Some(n) = in_list {
                check!(below, "vault {i} pays no premium but is listed");
                check!(n > 0, "a premium for nothing");
                s.label("premium vault listed");
            } else if below && ch.conf.premium_fee.into_inner() > 0 && ch.conf.redeem_fee.into_inner() < ONE {
                let most = x.max_premium(ch, *i).unwrap_or(0);
                let worth = x.conv(muldiv(most, ONE, ch.conf.premium_fee.into_inner()), v.col, W) + x.inclusion(ch);
                check!(worth == 0, "vault {i} pays a premium of up to {most} but is not listed");
            }
        }
        // collateral for new tokens
        let c = s.idx(3);
        let n = s.u128(1_000_000_000);
        let t = ch.conf.thresholds[c].1.into_inner();
        let got = VaultRegistry::get_required_collateral_for_wrapped(&currency::Amount::new(n, WRAPPED), COLS[c]).map_err(|e| format!("required collateral: {e:?}"))?.amount();
        let want = needs(x, c, n, t);
        check!((rat(got) - want.clone()).abs() <= fixed(t) + rate_of(x, c) + rat(1), "{n} tokens are said to need {got}, not {}", show(&want));
        // what belongs to an account
        for a in PEOPLE {
            let set = |v: Vec<H256>| -> BTreeSet<H256> { v.into_iter().collect() };
            let vs: BTreeSet<usize> = VaultRegistry::get_vaults_by_account_id(a).map_err(|e| format!("{e:?}"))?.iter().map(|v| id_at(ch, v)).collect();
            let mine: BTreeSet<usize> = x.vaults.iter().filter(|(_, v)| v.acct == a).map(|(k, _)| *k).collect();
            check_eq!(vs, mine, "vaults of {a}");
            let of = |v: usize| ch.ids[v].account_id == a;
            check_eq!(set(Issue::get_issue_requests_for_account(a)), x.issues.iter().filter(|r| r.1.who == a).map(|r| *r.0).collect(), "issues of {a}");
            check_eq!(set(Issue::get_issue_requests_for_vault(a)), x.issues.iter().filter(|r| of(r.1.vault)).map(|r| *r.0).collect(), "issues with {a}");
            check_eq!(set(Redeem::get_redeem_requests_for_account(a)), x.redeems.iter().filter(|r| r.1.who == a).map(|r| *r.0).collect(), "redeems of {a}");
            check_eq!(set(Redeem::get_redeem_requests_for_vault(a)), x.redeems.iter().filter(|r| of(r.1.vault)).map(|r| *r.0).collect(), "redeems with {a}");
            check_eq!(set(Replace::get_replace_requests_for_old_vault(a)), x.replaces.iter().filter(|r| of(r.1.old)).map(|r| *r.0).collect(), "replaced vaults of {a}");
            check_eq!(set(Replace::get_replace_requests_for_new_vault(a)), x.replaces.iter().filter(|r| of(r.1.new)).map(|r| *r.0).collect(), "replacing vaults of {a}");
        }
        Ok(())
    })
}

const AMOUNTS: &str = "collateral below 1e10, rates between 0.01 and 100, thresholds between 1 and 2.4";
const BASE: [&str; 2] = [AMOUNTS, "the relay and the oracle are driven directly; payments are not looked up in it (C17-C20 decide that)"];

/// an open issue (or replace) of a vault that is liquidated and recovered
fn orphaned(replace: bool) -> bool {
    let conf = plain();
    let run = Run { conf, ids: vec![VaultId::new(1, COLS[0], WRAPPED), VaultId::new(2, COLS[0], WRAPPED)], rates: vec![ONE; 3], per_byte: 0 };
    open(&run.conf, || {
        let go = |op: Op| exec(&run.ids, &Snap::read(&run.ids), &op).is_ok();
        let last = || {
            let x = Snap::read(&run.ids);
            x.issues.iter().find(|r| r.1.status == 0).map(|r| *r.0).or_else(|| x.replaces.iter().find(|r| r.1.status == 0).map(|r| *r.0)).unwrap_or_default()
        };
        if begin(&run).is_err() {
            return false;
        }
        let mut ok = go(Op::Register { v: 0, coll: 10_000 }) && go(Op::Register { v: 1, coll: 100_000 });
        ok &= go(Op::RequestIssue { who: 11, v: 0, amount: 1000, gcur: N });
        ok &= go(Op::ExecuteIssue { by: 11, id: last(), paid: 1000 });
        if replace {
            ok &= go(Op::RequestIssue { who: 11, v: 1, amount: 1000, gcur: N });
            ok &= go(Op::ExecuteIssue { by: 11, id: last(), paid: 1000 });
            ok &= go(Op::RequestReplace { v: 1, amount: 1000 }) && go(Op::AcceptReplace { old: 1, new: 0, amount: 1000, coll: 0 });
        } else {
            ok &= go(Op::RequestIssue { who: 11, v: 0, amount: 1000, gcur: N });
        }
        ok &= go(Op::Feed { col: 0, rate: 10 * ONE }) && go(Op::Report { v: 0 }) && go(Op::Feed { col: 0, rate: ONE });
        ok &= go(Op::Recover { v: 0 });
        if !ok {
            return false;
        }
        let id = last();
        let done = if replace { go(Op::ExecuteReplace { by: 2, id, off: 0, wrong: false }) } else { go(Op::ExecuteIssue { by: 11, id, paid: 1000 }) };
        !done
    })
}
fn orphaned_issue() -> bool {
    orphaned(false)
}
fn orphaned_replace() -> bool {
    orphaned(true)
}

const fn of(id: &'static str, rule: &'static str, laws: &'static [pbt::Law], findings: &'static [Finding]) -> Prop {
    Prop { id, rule, assumptions: &BASE, laws, findings }
}
pub const PROPS: &[Prop] = &[
    of(
        "C21",
        "a request to issue, or its execution or cancellation, succeeded and was compared with the reference",
        &[law!("issue", 3_000, 60_000, issue)],
        &[Finding {
            text: "an issue still open when its vault is liquidated can be neither executed nor cancelled once the vault is recovered: its tokens to be issued stay with the liquidation vault, while execute_issue and cancel_issue take them from the vault",
            probe: orphaned_issue,
        }],
    ),
    of("C22", "a redeem call succeeded and was compared with the reference", &[law!("redeem", 3_000, 60_000, redeem)], &[]),
    of(
        "C23",
        "a replace call succeeded and was compared with the reference",
        &[law!("replace", 3_000, 60_000, replace)],
        &[Finding {
            text: "a replace still open when the replacing vault is liquidated can be neither executed nor cancelled once that vault is recovered: its tokens to be issued stay with the liquidation vault, while execute_replace and cancel_replace take them from the vault",
            probe: orphaned_replace,
        }],
    ),
    of("C24", "a call of the vault registry succeeded and was compared with the reference", &[law!("registry", 3_000, 60_000, registry)], &[]),
    of("C25", "a nomination call succeeded and was compared with the reference", &[law!("nomination", 3_000, 60_000, nomination)], &[]),
    of("C26", "a call changed the issuance of the wrapped token", &[law!("backing", 3_000, 60_000, backing)], &[]),
    of("C27", "a call changed the collateral in the system", &[law!("custody", 3_000, 60_000, custody)], &[]),
    of("C28", "a vault took on tokens or gave up collateral, or was liquidated, or paid for tokens", &[law!("solvency", 3_000, 60_000, solvency)], &[]),
    of("C29", "a vault was asked for exactly what the queries say it can issue or redeem", &[law!("queries", 1_500, 30_000, queries)], &[]),
    of("C30", "fees came in while some vault's collateral counted", &[law!("rewards", 3_000, 60_000, crate::rewards::rewards)], &[]),
    of(
        "C31",
        "a key had two fresh reports or more; or an amount was converted",
        &[law!("prices", 6_000, 200_000, crate::money::prices), law!("conversions", 6_000, 300_000, crate::money::conversions)],
        &[],
    ),
    of(
        "C32",
        "both amounts were of the same currency and positive; something was moved; a fee was set",
        &[law!("amounts", 40_000, 2_000_000, crate::money::amounts), law!("moves", 6_000, 200_000, crate::money::moves), law!("fees", 6_000, 200_000, crate::money::fees)],
        &[],
    ),
    of("C64", "requests were upgraded", &[law!("upgrade", 3_000, 60_000, crate::mig::upgrade)], &[]),
];
