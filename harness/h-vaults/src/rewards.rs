//! Fees to the vaults: whoever's collateral works gets its part, to the last planck but rounding.
use crate::model::*;
use crate::rt::*;
use crate::run::*;
use crate::world::*;
use pbt::{check, check_eq, Src, R};
use std::collections::{BTreeMap, BTreeSet};

const FEE_CURS: [CurrencyId; 2] = [WRAPPED, NATIVE];

#[derive(Default)]
struct Book {
    /// (vault, pool, account) -> earned by the stake, and paid for it
    part: BTreeMap<(usize, u64, u64), (Rat, u128)>,
    /// the operator's commission
    cut: BTreeMap<usize, (Rat, u128)>,
    /// came in, or found no one to take it
    collected: u128,
    paid: u128,
    /// pulls through the pools so far, each may round
    rounds: u128,
}
fn rounding(b: &Book) -> Rat {
    rat(4 + 3 * b.rounds)
}

fn claim(id: &Id, who: u64, n: Option<u64>) -> Result<(), String> {
    tx(|| Fee::withdraw_rewards(RuntimeOrigin::signed(who), id.clone(), n)).map(drop).map_err(|e| format!("{e:?}"))
}
fn free(who: u64, c: CurrencyId) -> u128 {
    Tokens::accounts(&who, c).free
}

pub fn rewards(s: &mut Src) -> R {
    let mut run = setup(s);
    let zero = FixedU128::from_inner(0);
    run.conf.issue_fee = zero;
    run.conf.redeem_fee = zero;
    run.conf.nomination = true;
    open(&run.conf, || {
        begin(&run)?;
        let mut orphans = BTreeSet::new();
        let mut pre = Snap::read(&run.ids);
        let mut books = [Book::default(), Book::default()];
        // pools whose stakes were slashed unevenly (see C15)
        let mut loose: BTreeSet<(usize, u64)> = BTreeSet::new();
        let mut comm: BTreeMap<usize, u128> = BTreeMap::new();
        let mut stop = false;
        s.steps(8, 60, |s| {
            if stop {
                return Ok(());
            }
            let some: Vec<usize> = pre.vaults.keys().copied().collect();
            let kind = if some.is_empty() { 0 } else { s.weighted(&[9, 6, 5, 1, 1]) };
            match kind {
                0 => {
                    let ch = Chain { conf: &run.conf, ids: &run.ids, orphans: &orphans };
                    let op = gen(s, &ch, &pre, &[2, 0, 0, 7, 10, 3]);
                    let had = [free(fee_pool(), FEE_CURS[0]), free(fee_pool(), FEE_CURS[1])];
                    let (res, post, judged) = step(&run, &mut orphans, &pre, &op);
                    s.note(|| format!("{op:?} -> {res:?}"));
                    if matches!(&judged, Judged::Open) || matches!(&judged, Judged::Off(w) if w.contains("panicked")) {
                        stop = true;
                        return Ok(());
                    }
                    if res.is_ok() {
                        s.label(op.name());
                        let v = match &op {
                            Op::Register { v, .. } | Op::AcceptIssues { v, .. } | Op::Custom { v, .. } | Op::Report { v } | Op::Recover { v } => Some(*v),
                            Op::Deposit { v, .. } | Op::Withdraw { v, .. } | Op::OptOut { v } => Some(*v),
                            _ => None,
                        };
                        for (k, c) in FEE_CURS.iter().enumerate() {
                            let now = free(fee_pool(), *c);
                            check!(now <= had[k], "{} brought fees", op.name());
                            let b = &mut books[k];
                            b.rounds += v.is_some() as u128;
                            let out = had[k] - now;
                            b.paid += out;
                            if out > 0 {
                                let Some(v) = v else { pbt::fail!("{} took {out} from the fees", op.name()) };
                                b.cut.entry(v).or_insert((rat(0), 0)).1 += out;
                                s.label("commission paid along");
                            }
                        }
                        for (v, p) in &pre.vaults {
                            let q = &post.vaults[v];
                            let many = p.parts.keys().filter(|k| k.0 == p.nonce).count() > 1;
                            if many && q.nonce == p.nonce && q.total < p.total && !matches!(op, Op::Withdraw { .. }) {
                                loose.insert((*v, p.nonce));
                            }
                        }
                    }
                    pre = post;
                }
                // fees come in
                1 => {
                    let k = s.idx(2);
                    let c = FEE_CURS[k];
                    let x = s.u128_in(1, 100_000_000);
                    <Tokens as orml_traits::MultiCurrency<u64>>::deposit(c, &fee_pool(), x).unwrap();
                    let r = tx(|| Fee::distribute_rewards(&currency::Amount::new(x, c)));
                    check!(r.is_ok(), "fees were turned down: {r:?}");
                    let b = &mut books[k];
                    b.collected += x;
                    let all: u128 = pre.capacity.values().sum();
                    s.note(|| format!("{x} of {c:?} come in, capacities {:?}", pre.capacity));
                    if all > 0 {
                        s.nontrivial();
                        s.label("fees shared out");
                        for (v, y) in &pre.vaults {
                            let w: u128 = pre.vaults.values().filter(|z| z.col == y.col).map(|z| z.weight).sum();
                            if y.weight == 0 {
                                continue;
                            }
                            let mine = ratio(x, all) * rat(pre.capacity[&y.col]) * ratio(y.weight, w);
                            let rate = ratio(comm.get(v).copied().unwrap_or(0), ONE);
                            b.cut.entry(*v).or_insert((rat(0), 0)).0 += mine.clone() * rate.clone();
                            let rest = mine * (rat(1) - rate);
                            for ((n, p), stake) in y.parts.iter().filter(|k| k.0 .0 == y.nonce) {
                                b.part.entry((*v, *n, *p)).or_insert((rat(0), 0)).0 += rest.clone() * ratio(*stake, y.total);
                            }
                        }
                    }
                    pre = Snap::read(&run.ids);
                }
                // someone claims
                2 | 3 => {
                    let v = *s.pick(&some);
                    let y = &pre.vaults[&v];
                    let who = if kind == 3 { y.acct } else { *s.pick(&PEOPLE) };
                    let n = if s.bool() { None } else { Some(s.int(0, y.nonce)) };
                    let id = &run.ids[v];
                    let before = [free(who, FEE_CURS[0]), free(who, FEE_CURS[1])];
                    let op_before = [free(y.acct, FEE_CURS[0]), free(y.acct, FEE_CURS[1])];
                    let pool_before = [free(fee_pool(), FEE_CURS[0]), free(fee_pool(), FEE_CURS[1])];
                    let mut said = vec![];
                    for c in FEE_CURS {
                        let a = Fee::compute_vault_rewards(id, &who, c).map_err(|e| format!("compute_vault_rewards: {e:?}"))?.amount();
                        said.push(a);
                    }
                    let r = claim(id, who, n);
                    s.note(|| format!("{who} claims from vault {v} at {n:?} -> {r:?}"));
                    check!(r.is_ok(), "{who} may not claim from vault {v}: {r:?}");
                    s.label("claimed");
                    for (k, c) in FEE_CURS.iter().enumerate() {
                        let b = &mut books[k];
                        b.rounds += 1;
                        let got = free(who, *c) - before[k];
                        let out = pool_before[k] - free(fee_pool(), *c);
                        let cut = if who == y.acct { 0 } else { free(y.acct, *c) - op_before[k] };
                        check_eq!(out, got + cut, "paid out of the fees in {c:?}");
                        b.paid += out;
                        b.cut.entry(v).or_insert((rat(0), 0)).1 += cut;
                        let m = n.unwrap_or(y.nonce);
                        if m == y.nonce {
                            check_eq!(got, said[k], "{c:?} for {who} from vault {v} against compute_vault_rewards");
                        }
                        b.part.entry((v, m, who)).or_insert((rat(0), 0)).1 += got;
                        let slack = rounding(b);
                        if who != y.acct && !loose.contains(&(v, m)) {
                            let (due, paid) = &b.part[&(v, m, who)];
                            check!(rat(*paid) <= due.clone() + rat(1), "{who} got {paid} {c:?} from vault {v}, pool {m}, not {}", show(due));
                            check!(rat(*paid) + slack.clone() >= due.clone(), "{who} got only {paid} {c:?} from vault {v}, pool {m}, of {}", show(due));
                        }
                    }
                    // the operator: commission and stakes of all pools together
                    if who == y.acct && !loose.iter().any(|l| l.0 == v) {
                        for (k, c) in FEE_CURS.iter().enumerate() {
                            let (due, paid) = operator(&books[k], v, who);
                            check!(rat(paid) <= due.clone() + rat(2), "the operator {who} got {paid} {c:?} from vault {v}, not {}", show(&due));
                        }
                    }
                    pre = Snap::read(&run.ids);
                }
                // commission
                _ => {
                    let v = *s.pick(&some);
                    let y = &pre.vaults[&v];
                    // what came in so far is settled at the old rate
                    let had = [free(fee_pool(), FEE_CURS[0]), free(fee_pool(), FEE_CURS[1])];
                    let r = claim(&run.ids[v], y.acct, None);
                    check!(r.is_ok(), "the operator may not claim: {r:?}");
                    for (k, c) in FEE_CURS.iter().enumerate() {
                        let out = had[k] - free(fee_pool(), *c);
                        let b = &mut books[k];
                        b.rounds += 1;
                        b.paid += out;
                        b.cut.entry(v).or_insert((rat(0), 0)).1 += out;
                    }
                    let f = match s.below(4) {
                        0 => 0,
                        1 => ONE + s.below(2) as u128,
                        _ => s.u128(ONE),
                    };
                    let r = Fee::set_commission(RuntimeOrigin::signed(y.acct), run.ids[v].currencies.clone(), FixedU128::from_inner(f));
                    s.note(|| format!("commission of vault {v}: {f} -> {r:?}"));
                    check_eq!(r.is_ok(), y.opted && f <= ONE, "commission {f} set by vault {v}, opted in: {}", y.opted);
                    if r.is_ok() {
                        s.label("commission set");
                        comm.insert(v, f);
                    }
                    pre = Snap::read(&run.ids);
                }
            }
            Ok(())
        })?;
        if stop {
            return Ok(());
        }
        // everyone claims everything
        for (v, y) in &pre.vaults {
            for n in 0..=y.nonce {
                for who in PEOPLE {
                    let had: Vec<u128> = FEE_CURS.iter().map(|c| free(fee_pool(), *c)).collect();
                    let at: Vec<u128> = FEE_CURS.iter().map(|c| free(who, *c)).collect();
                    let r = claim(&run.ids[*v], who, Some(n));
                    check!(r.is_ok(), "{who} may not claim from vault {v}: {r:?}");
                    for (k, c) in FEE_CURS.iter().enumerate() {
                        let b = &mut books[k];
                        b.rounds += 1;
                        let out = had[k] - free(fee_pool(), *c);
                        let got = free(who, *c) - at[k];
                        b.paid += out;
                        b.part.entry((*v, n, who)).or_insert((rat(0), 0)).1 += got;
                        b.cut.entry(*v).or_insert((rat(0), 0)).1 += out - got;
                    }
                }
            }
        }
        for (k, c) in FEE_CURS.iter().enumerate() {
            let b = &books[k];
            check!(b.paid <= b.collected, "{} {c:?} paid of {}", b.paid, b.collected);
            check_eq!(free(fee_pool(), *c), b.collected - b.paid, "{c:?} left in the fee pool");
            for (v, y) in &pre.vaults {
                if loose.iter().any(|l| l.0 == *v) {
                    continue;
                }
                let (due, paid) = operator(b, *v, y.acct);
                check!(rat(paid) <= due.clone() + rat(2 + y.nonce as u128), "the operator of vault {v} got {paid} {c:?}, not {}", show(&due));
                check!(rat(paid) + rounding(b) >= due.clone(), "the operator of vault {v} got only {paid} {c:?} of {}", show(&due));
                for ((_, n, who), (due, paid)) in b.part.iter().filter(|p| p.0 .0 == *v && p.0 .2 != y.acct) {
                    check!(rat(*paid) <= due.clone() + rat(1), "{who} got {paid} {c:?} from vault {v}, pool {n}, not {}", show(due));
                    check!(rat(*paid) + rounding(b) >= due.clone(), "{who} got only {paid} {c:?} from vault {v}, pool {n}, of {}", show(due));
                }
            }
        }
        Ok(())
    })
}
fn operator(b: &Book, v: usize, who: u64) -> (Rat, u128) {
    let none = (rat(0), 0);
    let (mut due, mut paid) = b.cut.get(&v).unwrap_or(&none).clone();
    for (_, (d, p)) in b.part.iter().filter(|p| p.0 .0 == v && p.0 .2 == who) {
        due += d.clone();
        paid += p;
    }
    (due, paid)
}
