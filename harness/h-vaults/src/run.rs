//! Histories of the protocol: generated with an eye on its state, run on the chain and on the reference.
use crate::model::*;
use crate::rt::*;
use crate::world::*;
use pbt::Src;
use sp_core::H256;
use std::collections::BTreeSet;
use vault_registry::types::{BtcAddress, BtcPublicKey};

type Done = Result<(), String>;

pub const KEYS: [&str; 3] = [
    "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
    "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5",
    "02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9",
];
pub fn key(acct: u64) -> BtcPublicKey {
    let h = KEYS[acct as usize - 1];
    let mut k = [0u8; 33];
    for i in 0..33 {
        k[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap();
    }
    BtcPublicKey(k)
}
pub fn address(i: u8) -> BtcAddress {
    BtcAddress::P2PKH(sp_core::H160::repeat_byte(i))
}

fn fixed(num: u128, den: u128) -> FixedU128 {
    FixedU128::from_inner(num * (ONE / den))
}
fn percent(s: &mut Src) -> FixedU128 {
    match s.below(4) {
        0 => FixedU128::from_inner(0),
        1 => fixed(*s.pick(&[5u128, 15, 50, 200]), 10_000),
        2 => fixed(s.int(1, 50) as u128, 100),
        _ => FixedU128::from_inner(s.int(1, 300_000_000_000_000_000) as u128),
    }
}
pub fn rate(s: &mut Src) -> u128 {
    match s.below(4) {
        0 => ONE,
        1 => ONE / 100 * s.int(1, 1000) as u128,
        2 => ONE * s.int(2, 100) as u128,
        _ => s.u128_in(ONE / 100, 100 * ONE),
    }
}

/// no fees, no limits
pub fn plain() -> Conf {
    let zero = FixedU128::from_inner(0);
    let two = |a: u128| FixedU128::from_inner(ONE / 100 * a);
    Conf {
        issue_fee: zero,
        issue_griefing: zero,
        redeem_fee: zero,
        premium_fee: zero,
        punishment_fee: zero,
        replace_griefing: zero,
        thresholds: COLS.iter().map(|c| (*c, two(150), two(130), two(110))).collect(),
        min_collateral: COLS.iter().map(|c| (*c, 1)).collect(),
        ceiling: COLS.iter().map(|c| (*c, 1 << 60)).collect(),
        issue_period: 100,
        redeem_period: 100,
        replace_period: 100,
        issue_dust: 1,
        redeem_dust: 1,
        replace_dust: 1,
        tx_size: 0,
        punishment_delay: 0,
        nomination: true,
        height: 0,
        max_delay: 1_000_000,
        balances: PEOPLE.iter().flat_map(|a| COLS.iter().map(move |c| (*a, *c, 1u128 << 40))).collect(),
    }
}

pub struct Run {
    pub conf: Conf,
    pub ids: Vec<Id>,
    pub rates: Vec<u128>,
    pub per_byte: u128,
}
pub fn setup(s: &mut Src) -> Run {
    let mut thresholds = vec![];
    for c in COLS {
        let l = 100 + s.int(0, 80) as u128;
        let p = l + s.int(0, 60) as u128;
        let z = p + s.int(0, 100) as u128;
        thresholds.push((c, fixed(z, 100), fixed(p, 100), fixed(l, 100)));
    }
    let mut ids: Vec<Id> = vec![];
    let n = s.int(2, 4) as usize;
    while ids.len() < n {
        let a = 1 + s.below(3);
        let c = COLS[s.weighted(&[5, 3, 2])];
        let id = VaultId::new(a, c, WRAPPED);
        if !ids.contains(&id) {
            ids.push(id);
        } else {
            // the next free one
            let all: Vec<Id> = (1..4u64).flat_map(|a| COLS.iter().map(move |c| VaultId::new(a, *c, WRAPPED))).collect();
            ids.push(all.into_iter().find(|i| !ids.contains(i)).unwrap());
        }
    }
    let mut balances = vec![];
    for a in PEOPLE {
        for c in COLS {
            balances.push((a, c, 10_000_000_000u128));
        }
    }
    let conf = Conf {
        issue_fee: percent(s),
        issue_griefing: percent(s),
        redeem_fee: percent(s),
        premium_fee: percent(s),
        punishment_fee: percent(s),
        replace_griefing: percent(s),
        thresholds,
        min_collateral: COLS.iter().map(|c| (*c, s.int(1, 10_000) as u128)).collect(),
        ceiling: COLS.iter().map(|c| (*c, *s.pick(&[1_000_000_000_000u128, 3_000_000_000, 1_500_000_000]))).collect(),
        issue_period: s.int(1, 300),
        redeem_period: s.int(1, 300),
        replace_period: s.int(1, 300),
        issue_dust: s.int(1, 100) as u128,
        redeem_dust: s.int(1, 100) as u128,
        replace_dust: s.int(1, 100) as u128,
        tx_size: s.int(0, 400) as u32,
        punishment_delay: s.int(0, 300),
        nomination: s.ratio(7, 8),
        height: 0,
        max_delay: 1_000_000,
        balances,
    };
    let rates = COLS.iter().map(|_| rate(s)).collect();
    Run { conf, ids, rates, per_byte: s.u128(3 * ONE) }
}

/// the world is set up inside `open`
pub fn begin(r: &Run) -> Done {
    let mut v: Vec<(OracleKey, FixedU128)> = COLS.iter().enumerate().map(|(i, c)| (OracleKey::ExchangeRate(*c), FixedU128::from_inner(r.rates[i]))).collect();
    v.push((OracleKey::FeeEstimation, FixedU128::from_inner(r.per_byte)));
    feed(v)?;
    pass(0, 3);
    for a in 1..4u64 {
        VaultRegistry::register_public_key(RuntimeOrigin::signed(a), key(a)).map_err(|e| format!("register_public_key: {e:?}"))?;
    }
    Ok(())
}

fn show(e: impl std::fmt::Debug) -> String {
    format!("{e:?}")
}
/// makes the call
pub fn exec(ids: &[Id], pre: &Snap, op: &Op) -> Result<(), String> {
    let sig = RuntimeOrigin::signed;
    let cp = |v: usize| ids[v].currencies.clone();
    let acct = |v: usize| ids[v].account_id;
    match op.clone() {
        Op::RequestIssue { who, v, amount, gcur } => tx(|| Issue::request_issue(sig(who), amount, ids[v].clone(), CURS[gcur])).map(drop).map_err(show),
        Op::ExecuteIssue { by, id, paid } => {
            let script = raw_map::<H256, issue::types::DefaultIssueRequest<Test>>("Issue", "IssueRequests").get(&id).map(|r| r.btc_address.to_script_pub_key());
            let script = script.unwrap_or_else(|| address(9).to_script_pub_key());
            tx(|| Issue::execute_issue(sig(by), id, payment(&[(paid as i64, script)]))).map(drop).map_err(show)
        }
        Op::CancelIssue { by, id } => tx(|| Issue::cancel_issue(sig(by), id)).map(drop).map_err(show),
        Op::RequestRedeem { who, v, amount, zero } => {
            let a = if zero { BtcAddress::P2PKH(Default::default()) } else { address(7) };
            tx(|| Redeem::request_redeem(sig(who), amount, a, ids[v].clone())).map(drop).map_err(show)
        }
        Op::ExecuteRedeem { by, id, off, wrong } => {
            let n = pre.redeems.get(&id).map_or(1, |r| r.btc_amount as i64) + off;
            let mut tag = id.as_bytes().to_vec();
            if wrong {
                tag[31] ^= 1;
            }
            tx(|| Redeem::execute_redeem(sig(by), id, payment(&[(n, address(7).to_script_pub_key()), (0, op_return(&tag))]))).map(drop).map_err(show)
        }
        Op::CancelRedeem { by, id, reimburse } => tx(|| Redeem::cancel_redeem(sig(by), id, reimburse)).map(drop).map_err(show),
        Op::MintReimbursed { v, id } => tx(|| Redeem::mint_tokens_for_reimbursed_redeem(sig(acct(v)), cp(v), id)).map(drop).map_err(show),
        Op::LiquidationRedeem { who, col, amount } => tx(|| Redeem::liquidation_redeem(sig(who), pair(COLS[col]), amount)).map(drop).map_err(show),
        Op::SelfRedeem { v, amount } => tx(|| Redeem::self_redeem(sig(acct(v)), cp(v), amount)).map(drop).map_err(show),
        Op::RequestReplace { v, amount } => tx(|| Replace::request_replace(sig(acct(v)), cp(v), amount)).map(drop).map_err(show),
        Op::WithdrawReplace { v, amount } => tx(|| Replace::withdraw_replace(sig(acct(v)), cp(v), amount)).map(drop).map_err(show),
        Op::AcceptReplace { old, new, amount, coll } => {
            tx(|| Replace::accept_replace(sig(acct(new)), cp(new), ids[old].clone(), amount, coll, address(8))).map(drop).map_err(show)
        }
        Op::ExecuteReplace { by, id, off, wrong } => {
            let n = pre.replaces.get(&id).map_or(1, |r| r.amount as i64) + off;
            let mut tag = id.as_bytes().to_vec();
            if wrong {
                tag[0] ^= 1;
            }
            tx(|| Replace::execute_replace(sig(by), id, payment(&[(0, op_return(&tag)), (n, address(8).to_script_pub_key())]))).map(drop).map_err(show)
        }
        Op::CancelReplace { by, id } => tx(|| Replace::cancel_replace(sig(by), id)).map(drop).map_err(show),
        Op::Register { v, coll } => tx(|| VaultRegistry::register_vault(sig(acct(v)), cp(v), coll)).map(drop).map_err(show),
        Op::AcceptIssues { v, on } => tx(|| VaultRegistry::accept_new_issues(sig(acct(v)), cp(v), on)).map(drop).map_err(show),
        Op::Custom { v, threshold } => {
            tx(|| VaultRegistry::set_custom_secure_threshold(sig(acct(v)), cp(v), threshold.map(FixedU128::from_inner))).map(drop).map_err(show)
        }
        Op::Report { v } => tx(|| VaultRegistry::report_undercollateralized_vault(sig(21), ids[v].clone())).map(drop).map_err(show),
        Op::Recover { v } => tx(|| VaultRegistry::recover_vault_id(sig(acct(v)), cp(v))).map(drop).map_err(show),
        Op::Ceiling { col, amount } => tx(|| VaultRegistry::set_system_collateral_ceiling(RuntimeOrigin::root(), pair(COLS[col]), amount)).map(drop).map_err(show),
        Op::Minimum { col, amount } => tx(|| VaultRegistry::set_minimum_collateral(RuntimeOrigin::root(), COLS[col], amount)).map(drop).map_err(show),
        Op::Period { which, blocks } => match which {
            0 => tx(|| Issue::set_issue_period(RuntimeOrigin::root(), blocks)).map(drop).map_err(show),
            1 => tx(|| Redeem::set_redeem_period(RuntimeOrigin::root(), blocks)).map(drop).map_err(show),
            _ => tx(|| Replace::set_replace_period(RuntimeOrigin::root(), blocks)).map(drop).map_err(show),
        },
        Op::Deposit { who, v, amount } => tx(|| Nomination::deposit_collateral(sig(who), ids[v].clone(), amount)).map(drop).map_err(show),
        Op::Withdraw { who, v, amount, index } => tx(|| Nomination::withdraw_collateral(sig(who), ids[v].clone(), amount, index)).map(drop).map_err(show),
        Op::OptIn { v } => tx(|| Nomination::opt_in_to_nomination(sig(acct(v)), cp(v))).map(drop).map_err(show),
        Op::OptOut { v } => tx(|| Nomination::opt_out_of_nomination(sig(acct(v)), cp(v))).map(drop).map_err(show),
        Op::Limit { v, amount } => tx(|| Nomination::set_nomination_limit(sig(acct(v)), cp(v), amount)).map(drop).map_err(show),
        Op::Nominating { on } => tx(|| Nomination::set_nomination_enabled(RuntimeOrigin::root(), on)).map(drop).map_err(show),
        Op::Pass { blocks, btc } => {
            pass(blocks, btc);
            Ok(())
        }
        Op::Feed { col, rate } => feed(vec![(OracleKey::ExchangeRate(COLS[col]), FixedU128::from_inner(rate))]),
    }
}

fn near(s: &mut Src, t: u128) -> u128 {
    match s.below(8) {
        0 | 1 => t,
        2 => t + 1,
        3 => t.saturating_sub(1),
        4 | 5 => t * s.int(1, 15) as u128 / 16,
        6 => s.u128(2 * t + 100),
        _ => s.u128(100),
    }
}
fn any<T: Clone>(s: &mut Src, xs: &[T]) -> Option<T> {
    if xs.is_empty() {
        None
    } else {
        Some(s.pick(xs).clone())
    }
}

/// the parts of the protocol: issue redeem replace registry nomination world
pub type Mix = [u64; 6];

pub fn gen(s: &mut Src, ch: &Chain, x: &Snap, mix: &Mix) -> Op {
    // registering comes first
    let missing: Vec<usize> = (0..ch.ids.len()).filter(|v| !x.vaults.contains_key(v)).collect();
    if !missing.is_empty() && s.ratio(5, 6) {
        let v = missing[0];
        let coll = if s.ratio(7, 8) { 1_000_000 * s.uniform(1, 1000) as u128 + s.below(1000) as u128 } else { near(s, x.min[&col_of(ch.ids[v].currencies.collateral)]) };
        return Op::Register { v, coll };
    }
    for _ in 0..4 {
        let part = s.weighted(mix);
        let op = match part {
            0 => issue_op(s, ch, x),
            1 => redeem_op(s, ch, x),
            2 => replace_op(s, ch, x),
            3 => registry_op(s, ch, x),
            4 => nomination_op(s, ch, x),
            _ => Some(world_op(s, ch, x)),
        };
        if let Some(op) = op {
            return op;
        }
    }
    world_op(s, ch, x)
}
fn v_any(s: &mut Src, ch: &Chain, x: &Snap) -> Option<usize> {
    let vs: Vec<usize> = x.vaults.keys().copied().collect();
    if vs.is_empty() || s.ratio(1, 64) {
        return Some(s.idx(ch.ids.len()));
    }
    any(s, &vs)
}
fn issue_op(s: &mut Src, ch: &Chain, x: &Snap) -> Option<Op> {
    let open: Vec<H256> = x.issues.iter().filter(|(_, r)| r.status == 0).map(|(k, _)| *k).collect();
    let all: Vec<H256> = x.issues.keys().copied().collect();
    let pick = |s: &mut Src| {
        let from = if s.ratio(5, 6) && !open.is_empty() { &open } else { &all };
        any(s, from)
    };
    let ws = if open.is_empty() { [8, 1, 1] } else { [5, 9, 3] };
    match s.weighted(&ws) {
        0 => {
            let v = v_any(s, ch, x)?;
            let room = if x.vaults.contains_key(&v) { x.issuable(ch, v).min(1_000_000_000) } else { 1000 };
            let amount = if s.bool() { room * s.int(1, 8) as u128 / 8 } else { near(s, room) };
            let who = if s.ratio(2, 3) { *s.pick(&USERS) } else { ch.ids[v].account_id };
            Some(Op::RequestIssue { who, v, amount, gcur: *s.pick(&[N, N, 0, 1, W]) })
        }
        1 => {
            let id = pick(s)?;
            let r = &x.issues[&id];
            let want = r.amount + r.fee;
            let paid = match s.below(6) {
                0 | 1 | 2 => want,
                3 => want * s.int(1, 15) as u128 / 16,
                4 => {
                    let room = x.vaults.get(&r.vault).map_or(0, |_| x.issuable(ch, r.vault));
                    want + near(s, room)
                }
                _ => near(s, want),
            }
            .clamp(1, i64::MAX as u128 / 2);
            let by = if s.ratio(3, 4) { r.who } else { *s.pick(&PEOPLE) };
            Some(Op::ExecuteIssue { by, id, paid })
        }
        _ => {
            let id = pick(s)?;
            let by = if s.ratio(3, 4) { x.issues[&id].who } else { *s.pick(&PEOPLE) };
            Some(Op::CancelIssue { by, id })
        }
    }
}
fn redeem_op(s: &mut Src, ch: &Chain, x: &Snap) -> Option<Op> {
    let ids = |st: &[u8]| -> Vec<H256> { x.redeems.iter().filter(|(_, r)| st.contains(&r.status)).map(|(k, _)| *k).collect() };
    let pick = |s: &mut Src, st: &[u8]| {
        let p = ids(st);
        if s.ratio(7, 8) && !p.is_empty() {
            any(s, &p)
        } else {
            any(s, &ids(&[0, 1, 2, 3, 4]))
        }
    };
    let off = |s: &mut Src| if s.ratio(7, 8) { (0, false) } else { (*s.pick(&[0i64, 1, -1]), s.bool()) };
    let late = x.redeems.values().any(|r| r.status == 0 && x.expired(r.open, r.btc, r.period.max(x.periods[1])));
    let minting = x.redeems.values().any(|r| r.status == 2);
    let lost = x.sys.values().any(|y| y.issued > y.tbr);
    if minting && s.ratio(1, 4) {
        // let the vault mint again
        let v = x.redeems.values().find(|r| r.status == 2).unwrap().vault;
        let y = &x.vaults[&v];
        return Some(match s.below(3) {
            0 => Op::Pass { blocks: ch.conf.punishment_delay + s.below(2), btc: 0 },
            1 => Op::Deposit { who: y.acct, v, amount: s.u128_in(0, 2_000_000_000) },
            _ => Op::Feed { col: y.col, rate: (x.rate[&y.col] / 2).max(ONE / 100) },
        });
    }
    match s.weighted(&[8, 4, if late { 12 } else { 1 }, if minting { 6 } else { 1 }, if lost { 6 } else { 1 }, 3]) {
        0 => {
            let some: Vec<usize> = x.vaults.iter().filter(|(_, y)| y.live() && y.issued > y.tbr).map(|(k, _)| *k).collect();
            let v = if s.ratio(1, 8) || some.is_empty() { v_any(s, ch, x)? } else { any(s, &some)? };
            let y = x.vaults.get(&v);
            let rich: Vec<u64> = PEOPLE.iter().copied().filter(|a| x.free[&(*a, W)] > 0).collect();
            let who = if s.ratio(7, 8) { any(s, &rich)? } else { *s.pick(&PEOPLE) };
            let have = x.free[&(who, W)];
            let can = y.map_or(0, |y| y.issued.saturating_sub(y.tbr));
            let t = if s.bool() { have.min(can) } else { *s.pick(&[have, can, ch.conf.redeem_dust + x.inclusion(ch)]) };
            Some(Op::RequestRedeem { who, v, amount: near(s, t), zero: s.ratio(1, 60) })
        }
        1 => {
            let id = pick(s, &[0])?;
            let (off, wrong) = off(s);
            Some(Op::ExecuteRedeem { by: *s.pick(&PEOPLE), id, off, wrong })
        }
        2 => {
            let id = pick(s, &[0])?;
            let by = if s.ratio(9, 10) { x.redeems[&id].who } else { *s.pick(&PEOPLE) };
            Some(Op::CancelRedeem { by, id, reimburse: s.bool() })
        }
        3 => {
            let id = pick(s, &[2])?;
            let v = if s.ratio(7, 8) { x.redeems[&id].vault } else { v_any(s, ch, x)? };
            Some(Op::MintReimbursed { v, id })
        }
        4 => {
            let cs: Vec<usize> = (0..3).filter(|c| x.sys[c].issued > 0 || x.sys[c].coll > 0).collect();
            let col = if cs.is_empty() { s.idx(3) } else { any(s, &cs)? };
            let who = *s.pick(&PEOPLE);
            let t = x.free[&(who, W)].min(x.sys[&col].issued.saturating_sub(x.sys[&col].tbr));
            Some(Op::LiquidationRedeem { who, col, amount: near(s, t) })
        }
        _ => {
            let some: Vec<usize> = x.vaults.iter().filter(|(_, y)| y.live() && y.issued > y.tbr && x.free[&(y.acct, W)] > 0).map(|(k, _)| *k).collect();
            let v = if s.ratio(1, 8) || some.is_empty() { v_any(s, ch, x)? } else { any(s, &some)? };
            let y = x.vaults.get(&v)?;
            let (a, b) = (y.issued.saturating_sub(y.tbr), x.free[&(y.acct, W)]);
            let t = *s.pick(&[a, b, a.min(b)]);
            Some(Op::SelfRedeem { v, amount: near(s, t) })
        }
    }
}
fn replace_op(s: &mut Src, ch: &Chain, x: &Snap) -> Option<Op> {
    let ids = |st: &[u8]| -> Vec<H256> { x.replaces.iter().filter(|(_, r)| st.contains(&r.status)).map(|(k, _)| *k).collect() };
    let pick = |s: &mut Src| {
        let p = ids(&[0]);
        if s.ratio(4, 5) && !p.is_empty() {
            any(s, &p)
        } else {
            any(s, &ids(&[0, 1, 2]))
        }
    };
    let late = x.replaces.values().any(|r| r.status == 0 && x.expired(r.open, r.btc, r.period.max(x.periods[2])));
    match s.weighted(&[5, 1, 6, 5, if late { 9 } else { 1 }]) {
        0 => {
            let v = v_any(s, ch, x)?;
            let t = x.vaults.get(&v).map_or(0, |y| y.issued.saturating_sub(y.tbr + y.tbrep));
            Some(Op::RequestReplace { v, amount: near(s, t) })
        }
        1 => {
            let v = v_any(s, ch, x)?;
            let t = x.vaults.get(&v).map_or(0, |y| y.tbrep);
            Some(Op::WithdrawReplace { v, amount: near(s, t) })
        }
        2 => {
            let olds: Vec<usize> = x.vaults.iter().filter(|(_, y)| y.tbrep > 0).map(|(k, _)| *k).collect();
            let old = if s.ratio(9, 10) { any(s, &olds)? } else { v_any(s, ch, x)? };
            let others: Vec<usize> = x.vaults.keys().copied().filter(|k| *k != old).collect();
            let new = if s.ratio(9, 10) { any(s, &others)? } else { v_any(s, ch, x)? };
            let t = x.vaults.get(&old).map_or(0, |y| y.tbrep);
            let amount = near(s, t);
            let coll = if s.bool() {
                0
            } else {
                let c = x.vaults.get(&new)?.col;
                near(s, muldiv(x.conv(t, W, c), x.secure(ch, new), ONE).min(1_000_000_000))
            };
            Some(Op::AcceptReplace { old, new, amount, coll })
        }
        3 => {
            let id = pick(s)?;
            let (off, wrong) = if s.ratio(7, 8) { (0, false) } else { (*s.pick(&[0i64, 1, -1]), s.bool()) };
            Some(Op::ExecuteReplace { by: *s.pick(&PEOPLE), id, off, wrong })
        }
        _ => Some(Op::CancelReplace { by: *s.pick(&PEOPLE), id: pick(s)? }),
    }
}
fn registry_op(s: &mut Src, ch: &Chain, x: &Snap) -> Option<Op> {
    let v = v_any(s, ch, x)?;
    match s.weighted(&[1, 3, 3, 8, 5, 1, 1, 1]) {
        0 => Some(Op::Register { v, coll: near(s, 1000) }),
        1 => Some(Op::AcceptIssues { v, on: s.bool() }),
        2 => {
            let c = col_of(ch.ids[v].currencies.collateral);
            let g = ch.conf.thresholds[c].1.into_inner();
            let t = match s.below(4) {
                0 => None,
                1 => Some(near(s, g)),
                _ => Some(g + ONE / 100 * s.int(1, 150) as u128),
            };
            Some(Op::Custom { v, threshold: t })
        }
        3 => {
            let low: Vec<usize> = x.vaults.keys().copied().filter(|k| x.below_liquidation(ch, *k)).collect();
            let v = if low.is_empty() || s.ratio(1, 4) { v } else { any(s, &low)? };
            Some(Op::Report { v })
        }
        4 => {
            let dead: Vec<usize> = x.vaults.iter().filter(|(_, y)| !y.live()).map(|(k, _)| *k).collect();
            let v = if dead.is_empty() { if s.ratio(1, 4) { v } else { return None } } else { any(s, &dead)? };
            Some(Op::Recover { v })
        }
        5 => {
            let col = s.idx(3);
            Some(Op::Ceiling { col, amount: near(s, x.tuvc[&col]) + if s.bool() { 1_000_000_000 } else { 0 } })
        }
        6 => Some(Op::Minimum { col: s.idx(3), amount: s.u128_in(0, 20_000) }),
        _ => Some(Op::Period { which: s.idx(3), blocks: s.int(1, 300) }),
    }
}
fn nomination_op(s: &mut Src, ch: &Chain, x: &Snap) -> Option<Op> {
    let v = v_any(s, ch, x)?;
    let y = x.vaults.get(&v).cloned().unwrap_or_default();
    match s.weighted(&[6, 6, 3, 2, 2, 1]) {
        0 => {
            let who = if s.ratio(1, 3) { y.acct } else { *s.pick(&PEOPLE) };
            let amount = if s.ratio(1, 8) { near(s, y.limit.saturating_sub(y.total.saturating_sub(y.own()))) } else { s.u128_in(0, 500_000_000) };
            Some(Op::Deposit { who: if who == 0 { 1 } else { who }, v, amount })
        }
        1 => {
            let ps: Vec<(u64, u64)> = y.parts.keys().copied().collect();
            let (n, who) = if ps.is_empty() || s.ratio(1, 10) { (0, *s.pick(&PEOPLE)) } else { any(s, &ps)? };
            let stake = y.parts.get(&(n, who)).copied().unwrap_or(0);
            // as much as the tokens leave free
            let c = y.col;
            let need = x.vaults.get(&v).map_or(0, |_| muldiv_up(x.conv(y.issued + y.tbi, W, c), x.secure(ch, v), ONE));
            let spare = y.total.saturating_sub(need).min(stake);
            let amount = match s.below(6) {
                0 => None,
                1 => Some(near(s, stake)),
                2 => Some(near(s, y.total.saturating_sub(x.min[&c]))),
                3 => Some(spare * s.int(1, 8) as u128 / 8),
                _ => Some(near(s, spare)),
            };
            let index = match s.below(6) {
                0 => None,
                1 => Some(s.int(0, 3)),
                _ => Some(n),
            };
            Some(Op::Withdraw { who, v, amount, index })
        }
        2 => Some(Op::OptIn { v }),
        3 => Some(Op::OptOut { v }),
        4 => Some(Op::Limit { v, amount: s.u128_in(0, 2_000_000_000) }),
        _ => Some(Op::Nominating { on: s.ratio(4, 5) }),
    }
}
fn world_op(s: &mut Src, ch: &Chain, x: &Snap) -> Op {
    if s.bool() {
        // just around an expiry, or a long time
        let mut due: Vec<(u64, u32, u64)> = vec![];
        due.extend(x.issues.values().filter(|r| r.status == 0).map(|r| (r.open, r.btc, r.period.max(x.periods[0]))));
        due.extend(x.redeems.values().filter(|r| r.status == 0).map(|r| (r.open, r.btc, r.period.max(x.periods[1]))));
        due.extend(x.replaces.values().filter(|r| r.status == 0).map(|r| (r.open, r.btc, r.period.max(x.periods[2]))));
        if !due.is_empty() && s.ratio(2, 3) {
            let (open, btc, period) = *s.pick(&due);
            let blocks = (open + period).saturating_sub(x.active) + s.below(3);
            let b = (btc + ((period + PER - 1) / PER) as u32).saturating_sub(x.btc) + s.weighted(&[1, 4, 1]) as u32;
            return Op::Pass { blocks, btc: b };
        }
        match s.below(3) {
            0 => Op::Pass { blocks: s.int(1, 20), btc: s.below(2) as u32 },
            1 => Op::Pass { blocks: s.int(1, 310), btc: s.int(0, 4) as u32 },
            _ => Op::Pass { blocks: *s.pick(&x.periods) + s.below(3), btc: s.int(0, 4) as u32 },
        }
    } else {
        let vs: Vec<usize> = x.vaults.iter().filter(|(_, y)| y.live() && y.issued > 0 && y.total > 0).map(|(k, _)| *k).collect();
        if vs.is_empty() || s.ratio(1, 3) {
            let col = s.idx(3);
            let r = x.rate[&col];
            let f = *s.pick(&[50u128, 80, 90, 99, 101, 110, 125, 200]);
            return Op::Feed { col, rate: (r / 100 * f).clamp(ONE / 100, 1000 * ONE) };
        }
        // a vault near one of its thresholds
        let v = *s.pick(&vs);
        let y = &x.vaults[&v];
        let (a, b, c) = {
            let t = &ch.conf.thresholds[y.col];
            (t.1.into_inner(), t.2.into_inner(), t.3.into_inner())
        };
        let t = *s.pick(&[a, b, c, c, c / 2]);
        let r = muldiv(muldiv(y.total, ONE, y.issued), ONE, t);
        let r = r / 1000 * *s.pick(&[990u128, 999, 1000, 1001, 1010, 1200]);
        Op::Feed { col: y.col, rate: r.clamp(ONE / 100, 1000 * ONE) }
    }
}

pub struct Step<'a> {
    pub pre: &'a Snap,
    pub post: &'a Snap,
    pub op: &'a Op,
    pub ok: bool,
}
/// how a call came out against the reference
pub enum Judged {
    Same,
    Open,
    Off(String),
}

/// runs one call on both and compares; returns the state after it
pub fn step(run: &Run, orphans: &mut BTreeSet<H256>, pre: &Snap, op: &Op) -> (Result<(), String>, Snap, Judged) {
    let res = match pbt::guarded(|| exec(&run.ids, pre, op)) {
        Ok(r) => r,
        Err(p) => return (Err(p.clone()), pre.clone(), Judged::Off(format!("{} panicked: {p}", op.name()))),
    };
    let got = Snap::read(&run.ids);
    let new = got
        .issues
        .keys()
        .find(|k| !pre.issues.contains_key(k))
        .or_else(|| got.redeems.keys().find(|k| !pre.redeems.contains_key(k)))
        .or_else(|| got.replaces.keys().find(|k| !pre.replaces.contains_key(k)))
        .copied();
    let mut want = pre.clone();
    let ch = Chain { conf: &run.conf, ids: &run.ids, orphans };
    let verdict = want.apply(&ch, op, new);
    let judged = match (&verdict, &res) {
        (Verdict::Open(_), _) => Judged::Open,
        (Verdict::No(_), Err(_)) => match diff(pre, &got).first() {
            None => Judged::Same,
            Some(d) => Judged::Off(format!("{} failed but changed {}: {} -> {}", op.name(), d.0, d.1, d.2)),
        },
        (Verdict::No(why), Ok(())) => Judged::Off(format!("{} was accepted: {why}", op.name())),
        (Verdict::Done, Err(e)) => Judged::Off(format!("{} was turned down: {e}", op.name())),
        (Verdict::Done, Ok(())) => {
            settle(&mut want, &got, pre);
            // all of a stake goes with the fraction that is not paid out
            if let Op::Withdraw { v, amount: None, .. } = op {
                let (g, w) = (&got.vaults[v], want.vaults.get_mut(v).unwrap());
                if g.total + 1 == w.total {
                    w.total = g.total;
                    want.reweigh(&ch, *v);
                }
                let w = want.vaults.get_mut(v).unwrap();
                for (n, t) in &g.stale_total {
                    if w.stale_total.get(n) == Some(&(t + 1)) {
                        w.stale_total.insert(*n, *t);
                    }
                }
            }
            let d = diff(&want, &got);
            if d.is_empty() {
                Judged::Same
            } else {
                let s: Vec<String> = d.iter().take(5).map(|d| format!("{}: expected {}, found {}", d.0, d.1, d.2)).collect();
                Judged::Off(format!("{}: {}", op.name(), s.join("; ")))
            }
        }
    };
    if let (Op::Recover { v }, Ok(())) = (op, &res) {
        orphans.extend(got.issues.iter().filter(|(_, r)| r.vault == *v && r.status == 0).map(|(k, _)| *k));
        orphans.extend(got.replaces.iter().filter(|(_, r)| r.new == *v && r.status == 0).map(|(k, _)| *k));
    }
    (res, got, judged)
}
/// what is left to the staking pool: who bears a slash, and its last digit
fn settle(want: &mut Snap, got: &Snap, pre: &Snap) {
    // what a completed request remembers of its collateral does not matter
    for (k, w) in want.issues.iter_mut() {
        if let (1, Some(g)) = (w.status, got.issues.get(k)) {
            w.grief = g.grief;
        }
    }
    for (i, w) in want.vaults.iter_mut() {
        let Some(g) = got.vaults.get(i) else { continue };
        let slashed = w.nonce == g.nonce && w.total < pre.vaults.get(i).map_or(0, |p| p.total) && !w.parts.keys().any(|k| k.0 == w.nonce) && w.nonce == pre.vaults[i].nonce;
        let keys: Vec<_> = w.parts.keys().chain(g.parts.keys()).copied().collect();
        for k in keys {
            let (a, b) = (w.parts.get(&k).copied().unwrap_or(0), g.parts.get(&k).copied().unwrap_or(0));
            if a.abs_diff(b) <= 2 || (slashed && k.0 == w.nonce) {
                if b == 0 {
                    w.parts.remove(&k);
                } else {
                    w.parts.insert(k, b);
                }
            }
        }
        if !pre.vaults.contains_key(i) {
            // the limit may have been set before
            w.limit = g.limit;
        }
    }
}
