//! What the documentation says each call does, in integers: the reference the chain is compared with.
use crate::rt::*;
use crate::world::*;
use sp_core::{H256, U256};

pub const ONE: u128 = 1_000_000_000_000_000_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    // issue
    RequestIssue { who: u64, v: usize, amount: u128, gcur: usize },
    ExecuteIssue { by: u64, id: H256, paid: u128 },
    CancelIssue { by: u64, id: H256 },
    // redeem
    RequestRedeem { who: u64, v: usize, amount: u128, zero: bool },
    ExecuteRedeem { by: u64, id: H256, off: i64, wrong: bool },
    CancelRedeem { by: u64, id: H256, reimburse: bool },
    MintReimbursed { v: usize, id: H256 },
    LiquidationRedeem { who: u64, col: usize, amount: u128 },
    SelfRedeem { v: usize, amount: u128 },
    // replace
    RequestReplace { v: usize, amount: u128 },
    WithdrawReplace { v: usize, amount: u128 },
    AcceptReplace { old: usize, new: usize, amount: u128, coll: u128 },
    ExecuteReplace { by: u64, id: H256, off: i64, wrong: bool },
    CancelReplace { by: u64, id: H256 },
    // vaults
    Register { v: usize, coll: u128 },
    AcceptIssues { v: usize, on: bool },
    Custom { v: usize, threshold: Option<u128> },
    Report { v: usize },
    Recover { v: usize },
    Ceiling { col: usize, amount: u128 },
    Minimum { col: usize, amount: u128 },
    Period { which: usize, blocks: u64 },
    // nomination
    Deposit { who: u64, v: usize, amount: u128 },
    Withdraw { who: u64, v: usize, amount: Option<u128>, index: Option<u64> },
    OptIn { v: usize },
    OptOut { v: usize },
    Limit { v: usize, amount: u128 },
    Nominating { on: bool },
    // the world
    Pass { blocks: u64, btc: u32 },
    Feed { col: usize, rate: u128 },
}
impl Op {
    /// which part of the protocol the call belongs to
    pub fn part(&self) -> &'static str {
        use Op::*;
        match self {
            RequestIssue { .. } | ExecuteIssue { .. } | CancelIssue { .. } => "issue",
            RequestRedeem { .. } | ExecuteRedeem { .. } | CancelRedeem { .. } | MintReimbursed { .. } | LiquidationRedeem { .. } | SelfRedeem { .. } => "redeem",
            RequestReplace { .. } | WithdrawReplace { .. } | AcceptReplace { .. } | ExecuteReplace { .. } | CancelReplace { .. } => "replace",
            Register { .. } | AcceptIssues { .. } | Custom { .. } | Report { .. } | Recover { .. } | Ceiling { .. } | Minimum { .. } | Period { .. } => "registry",
            Deposit { .. } | Withdraw { .. } | OptIn { .. } | OptOut { .. } | Limit { .. } | Nominating { .. } => "nomination",
            Pass { .. } | Feed { .. } => "world",
        }
    }
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            RequestIssue { .. } => "request_issue",
            ExecuteIssue { .. } => "execute_issue",
            CancelIssue { .. } => "cancel_issue",
            RequestRedeem { .. } => "request_redeem",
            ExecuteRedeem { .. } => "execute_redeem",
            CancelRedeem { .. } => "cancel_redeem",
            MintReimbursed { .. } => "mint_tokens_for_reimbursed_redeem",
            LiquidationRedeem { .. } => "liquidation_redeem",
            SelfRedeem { .. } => "self_redeem",
            RequestReplace { .. } => "request_replace",
            WithdrawReplace { .. } => "withdraw_replace",
            AcceptReplace { .. } => "accept_replace",
            ExecuteReplace { .. } => "execute_replace",
            CancelReplace { .. } => "cancel_replace",
            Register { .. } => "register_vault",
            AcceptIssues { .. } => "accept_new_issues",
            Custom { .. } => "set_custom_secure_threshold",
            Report { .. } => "report_undercollateralized_vault",
            Recover { .. } => "recover_vault_id",
            Ceiling { .. } => "set_system_collateral_ceiling",
            Minimum { .. } => "set_minimum_collateral",
            Period { .. } => "set_period",
            Deposit { .. } => "deposit_collateral",
            Withdraw { .. } => "withdraw_collateral",
            OptIn { .. } => "opt_in_to_nomination",
            OptOut { .. } => "opt_out_of_nomination",
            Limit { .. } => "set_nomination_limit",
            Nominating { .. } => "set_nomination_enabled",
            Pass { .. } => "time passes",
            Feed { .. } => "the oracle reports",
        }
    }
}

/// what a call must do
pub enum Verdict {
    /// it succeeds and leaves this; the id of a new request is taken from the chain
    Done,
    /// it is turned down, nothing changes
    No(&'static str),
    /// not decided by the documentation: follow the chain
    Open(&'static str),
}
use Verdict::*;
type Res<T = ()> = Result<T, &'static str>;

pub fn muldiv(a: u128, b: u128, c: u128) -> u128 {
    let q = U256::from(a) * U256::from(b) / U256::from(c);
    if q > U256::from(u128::MAX) {
        u128::MAX
    } else {
        q.as_u128()
    }
}
pub fn muldiv_up(a: u128, b: u128, c: u128) -> u128 {
    let q = (U256::from(a) * U256::from(b) + U256::from(c - 1)) / U256::from(c);
    q.min(U256::from(u128::MAX)).as_u128()
}
pub fn fee_of(a: u128, rate: u128) -> u128 {
    let q = (U256::from(a) * U256::from(rate) + U256::from(ONE / 2)) / U256::from(ONE);
    q.as_u128()
}
/// `c * n / d`
pub fn share(c: u128, n: u128, d: u128) -> Res<u128> {
    if n == 0 && d == 0 {
        return Ok(c);
    }
    if d == 0 {
        return Err("division by zero");
    }
    Ok(muldiv(c, n, d))
}
fn sub(a: u128, b: u128, why: &'static str) -> Res<u128> {
    a.checked_sub(b).ok_or(why)
}

/// the parameters that stay the same in a case, and who is who
pub struct Chain<'a> {
    pub conf: &'a Conf,
    pub ids: &'a [Id],
    /// pending issues and replaces whose vault was liquidated and recovered
    pub orphans: &'a std::collections::BTreeSet<H256>,
}

impl Snap {
    pub fn conv(&self, a: u128, from: usize, to: usize) -> u128 {
        if from == to {
            a
        } else if from == W {
            muldiv(a, self.rate[&to], ONE)
        } else if to == W {
            if a == 0 {
                0
            } else {
                muldiv(a, ONE, self.rate[&from])
            }
        } else {
            self.conv(self.conv(a, from, W), W, to)
        }
    }
    fn f(&mut self, a: u64, c: usize) -> &mut u128 {
        self.free.get_mut(&(a, c)).unwrap()
    }
    fn h(&mut self, a: u64, c: usize) -> &mut u128 {
        self.held.get_mut(&(a, c)).unwrap()
    }
    fn take(&mut self, a: u64, c: usize, n: u128) -> Res {
        let f = self.f(a, c);
        *f = sub(*f, n, "free balance too low")?;
        Ok(())
    }
    fn give(&mut self, a: u64, c: usize, n: u128) {
        *self.f(a, c) += n;
    }
    fn lock(&mut self, a: u64, c: usize, n: u128) -> Res {
        self.take(a, c, n)?;
        *self.h(a, c) += n;
        Ok(())
    }
    fn release(&mut self, a: u64, c: usize, n: u128) -> Res {
        let h = self.h(a, c);
        *h = sub(*h, n, "reserved balance too low")?;
        self.give(a, c, n);
        Ok(())
    }
    fn burn_held(&mut self, a: u64, n: u128) -> Res {
        let h = self.h(a, W);
        *h = sub(*h, n, "reserved balance too low")?;
        self.wrapped -= n;
        Ok(())
    }
    fn mint(&mut self, a: u64, n: u128) {
        self.give(a, W, n);
        self.wrapped += n;
    }
    fn v(&mut self, v: usize) -> Res<&mut Vault> {
        self.vaults.get_mut(&v).ok_or("no such vault")
    }
    fn vault(&self, v: usize) -> Res<&Vault> {
        self.vaults.get(&v).ok_or("no such vault")
    }
    fn live(&self, v: usize) -> Res<&Vault> {
        let x = self.vault(v)?;
        if x.live() {
            Ok(x)
        } else {
            Err("the vault is liquidated")
        }
    }
    pub fn banned(&self, v: usize) -> bool {
        self.vaults.get(&v).and_then(|x| x.banned).map_or(false, |b| self.active <= b)
    }
    fn not_banned(&self, v: usize) -> Res {
        self.live(v)?;
        if self.banned(v) {
            return Err("the vault is banned");
        }
        Ok(())
    }
    fn s(&mut self, c: usize) -> &mut Sys {
        self.sys.get_mut(&c).unwrap()
    }
    fn more_collateral(&mut self, c: usize, n: u128) -> Res {
        let t = self.tuvc[&c] + n;
        if t > self.ceiling[&c] {
            return Err("the ceiling of the collateral is exceeded");
        }
        self.tuvc.insert(c, t);
        Ok(())
    }
    fn less_collateral(&mut self, c: usize, n: u128) -> Res {
        let t = sub(self.tuvc[&c], n, "total collateral too low")?;
        self.tuvc.insert(c, t);
        Ok(())
    }
    pub fn expired(&self, open: u64, btc: u32, period: u64) -> bool {
        let b = (period + PER - 1) / PER;
        self.active > open + period && self.btc as u64 > btc as u64 + b
    }
    fn thr(&self, ch: &Chain, c: usize) -> (u128, u128, u128) {
        let t = ch.conf.thresholds.iter().find(|t| t.0 == COLS[c]).unwrap();
        (t.1.into_inner(), t.2.into_inner(), t.3.into_inner())
    }
    pub fn secure(&self, ch: &Chain, v: usize) -> u128 {
        let x = &self.vaults[&v];
        self.thr(ch, x.col).0.max(x.custom.unwrap_or(0))
    }
    /// how many tokens this collateral backs at a threshold
    pub fn backs(&self, c: usize, coll: u128, thr: u128) -> u128 {
        muldiv(self.conv(coll, c, W), ONE, thr)
    }
    pub fn issuable(&self, ch: &Chain, v: usize) -> u128 {
        if self.banned(v) {
            return 0;
        }
        let x = &self.vaults[&v];
        let t = self.secure(ch, v);
        let used = muldiv(self.conv(x.issued + x.tbi, W, x.col), t, ONE).min(x.total);
        self.backs(x.col, x.total - used, t)
    }
    /// may so much collateral leave the vault? An error where neither nothing nor the minimum is left
    pub fn allowed(&self, ch: &Chain, v: usize, amount: Option<u128>) -> Res<bool> {
        let x = self.vault(v)?;
        let left = match amount {
            None => 0,
            Some(a) => match x.total.checked_sub(a) {
                None => return Ok(false),
                Some(l) => l,
            },
        };
        if left != 0 && left < self.min[&x.col] {
            return Err("less than the minimum collateral is left");
        }
        Ok(self.backs(x.col, left, self.secure(ch, v)) >= x.issued + x.tbi)
    }
    pub fn below_liquidation(&self, ch: &Chain, v: usize) -> bool {
        let x = &self.vaults[&v];
        self.backs(x.col, x.total, self.thr(ch, x.col).2) < x.issued
    }
    /// below_liquidation and so on follow the collateral: its weight in the rewards too
    pub fn reweigh(&mut self, ch: &Chain, v: usize) {
        let t = self.secure(ch, v);
        let x = self.vaults.get_mut(&v).unwrap();
        x.weight = if x.status == 0 { muldiv(x.total, ONE, t) } else { 0 };
        let c = x.col;
        self.recap(c);
    }
    fn recap(&mut self, c: usize) {
        let sum: u128 = self.vaults.values().filter(|v| v.col == c).map(|v| v.weight).sum();
        let w = self.conv(sum, c, W);
        self.capacity.insert(c, w);
    }
    fn raise_tbi(&mut self, ch: &Chain, v: usize, n: u128) -> Res {
        self.live(v)?;
        if self.issuable(ch, v) < n {
            return Err("more than the vault can issue");
        }
        self.v(v)?.tbi += n;
        Ok(())
    }
    fn lower_tbi(&mut self, v: usize, n: u128) -> Res {
        let c = self.vault(v)?.col;
        let t = if self.vault(v)?.live() { &mut self.v(v)?.tbi } else { &mut self.s(c).tbi };
        *t = sub(*t, n, "to be issued too low")?;
        Ok(())
    }
    fn raise_issued(&mut self, v: usize, n: u128) -> Res {
        let c = self.vault(v)?.col;
        *(if self.vault(v)?.live() { &mut self.v(v)?.issued } else { &mut self.s(c).issued }) += n;
        Ok(())
    }
    fn lower_issued(&mut self, v: usize, n: u128) -> Res {
        let c = self.vault(v)?.col;
        let t = if self.vault(v)?.live() { &mut self.v(v)?.issued } else { &mut self.s(c).issued };
        *t = sub(*t, n, "issued too low")?;
        Ok(())
    }
    fn raise_tbr(&mut self, v: usize, n: u128) -> Res {
        let x = self.live(v)?;
        if sub(x.issued, x.tbr, "more to be redeemed than issued")? < n {
            return Err("the vault has not issued so much");
        }
        self.v(v)?.tbr += n;
        Ok(())
    }
    fn lower_tbr(&mut self, v: usize, n: u128) -> Res {
        let (c, live) = (self.vault(v)?.col, self.vault(v)?.live());
        if !live {
            let t = &mut self.s(c).tbr;
            *t = sub(*t, n, "to be redeemed too low")?;
        }
        let t = &mut self.v(v)?.tbr;
        *t = sub(*t, n, "to be redeemed too low")?;
        Ok(())
    }
    /// the replacement that was asked for is taken back or used up: (tokens, their griefing collateral)
    fn lower_tbrep(&mut self, v: usize, n: u128) -> Res<(u128, u128)> {
        let x = self.v(v)?;
        let used = n.min(x.tbrep);
        let coll = share(x.rep_coll, used, x.tbrep)?.min(x.rep_coll);
        x.tbrep -= used;
        Ok((used, coll))
    }
    fn free_replace_collateral(&mut self, v: usize, coll: u128) -> Res {
        self.live(v)?;
        let x = self.v(v)?;
        x.rep_coll = sub(x.rep_coll, coll, "replace collateral too low")?;
        let a = x.acct;
        self.release(a, N, coll)
    }
    fn part_add(&mut self, v: usize, who: u64, n: u128) {
        let x = self.vaults.get_mut(&v).unwrap();
        let k = (x.nonce, who);
        let p = x.part(who) + n;
        set(&mut x.parts, k, p);
        x.total += n;
    }
    fn part_sub(&mut self, v: usize, who: u64, n: u128) -> Res {
        let x = self.vaults.get_mut(&v).unwrap();
        let k = (x.nonce, who);
        let p = sub(x.part(who), n, "not so much stake")?;
        set(&mut x.parts, k, p);
        x.total = sub(x.total, n, "not so much stake in the pool")?;
        Ok(())
    }
    /// taken from everyone in the pool; who bears how much is the staking pool's matter
    fn slash(&mut self, v: usize, n: u128) -> Res {
        let x = self.vaults.get_mut(&v).unwrap();
        x.total = sub(x.total, n, "not so much stake in the pool")?;
        if n > 0 {
            let k = x.nonce;
            x.parts.retain(|p, _| p.0 != k);
        }
        Ok(())
    }
    fn deposit_own(&mut self, ch: &Chain, v: usize, n: u128) -> Res {
        let (a, c) = (self.vault(v)?.acct, self.vault(v)?.col);
        self.lock(a, c, n)?;
        self.more_collateral(c, n)?;
        self.part_add(v, a, n);
        self.reweigh(ch, v);
        Ok(())
    }

    fn liquidate(&mut self, ch: &Chain, v: usize) -> Res {
        let x = self.vault(v)?.clone();
        let c = x.col;
        let thr = self.thr(ch, c).2;
        let bt = x.issued + x.tbi;
        let amount = muldiv(self.conv(bt, W, c), thr, ONE).min(x.total);
        self.v(v)?.tbrep = 0;
        self.free_replace_collateral(v, x.rep_coll)?;
        let excl = share(amount, sub(bt, x.tbr, "more to be redeemed than backed")?, bt)?;
        let forr = amount - excl;
        let kept = x.own().min(forr);
        self.v(v)?.liq += kept;
        self.part_sub(v, x.acct, kept)?;
        // the rest goes to the liquidation vault: first the vault's own, then everyone's
        let own = self.vault(v)?.own();
        let from_own = own.min(excl);
        self.part_sub(v, x.acct, from_own)?;
        self.slash(v, excl - from_own)?;
        *self.h(x.acct, c) = sub(self.held[&(x.acct, c)], excl, "reserved balance too low")?;
        *self.h(liquidation_account(), c) += excl;
        let s = self.s(c);
        s.coll += excl;
        s.issued += x.issued;
        s.tbi += x.tbi;
        s.tbr += x.tbr;
        let y = self.v(v)?;
        y.issued = 0;
        y.tbi = 0;
        y.status = 2;
        self.reweigh(ch, v);
        Ok(())
    }
    pub fn max_premium(&self, ch: &Chain, v: usize) -> Res<u128> {
        let x = self.live(v)?;
        let thr = self.thr(ch, x.col).0;
        let tbb = sub(x.issued + x.tbi, x.tbr, "more to be redeemed than backed")?;
        let need = self.conv(muldiv_up(tbb, thr, ONE), W, x.col);
        let missing = need.saturating_sub(x.total);
        let fee = ch.conf.premium_fee.into_inner();
        let factor = muldiv(fee, ONE, sub(thr, fee, "the premium exceeds the threshold")?);
        Ok(muldiv(missing, factor, ONE))
    }
    pub fn below_premium(&self, ch: &Chain, v: usize) -> bool {
        let x = &self.vaults[&v];
        self.backs(x.col, x.total, self.thr(ch, x.col).1) < (x.issued + x.tbi).saturating_sub(x.tbr)
    }
    pub fn inclusion(&self, ch: &Chain) -> u128 {
        muldiv(self.per_byte, ch.conf.tx_size as u128, ONE)
    }

    /// applies a call; `new` is the id the chain gave to a new request
    pub fn apply(&mut self, ch: &Chain, op: &Op, new: Option<H256>) -> Verdict {
        match self.go(ch, op, new) {
            Ok(None) => Done,
            Ok(Some(open)) => Open(open),
            Err(why) => No(why),
        }
    }
    fn go(&mut self, ch: &Chain, op: &Op, new: Option<H256>) -> Res<Option<&'static str>> {
        let id_of_new = new.unwrap_or_default();
        match op {
            Op::RequestIssue { who, v, amount, gcur } => {
                if self.live(*v)?.status != 0 {
                    return Err("the vault accepts no issues");
                }
                self.not_banned(*v)?;
                let grief = fee_of(self.conv(*amount, W, *gcur), ch.conf.issue_griefing.into_inner());
                self.lock(*who, *gcur, grief)?;
                if *amount < ch.conf.issue_dust {
                    return Err("dust");
                }
                self.raise_tbi(ch, *v, *amount)?;
                let fee = fee_of(*amount, ch.conf.issue_fee.into_inner());
                let r = IssueReq {
                    vault: *v,
                    who: *who,
                    amount: sub(*amount, fee, "the fee exceeds the amount")?,
                    fee,
                    grief,
                    gcur: *gcur,
                    open: self.active,
                    period: self.periods[0],
                    btc: self.btc,
                    status: 0,
                };
                self.issues.insert(id_of_new, r);
            }
            Op::ExecuteIssue { by, id, paid } => {
                let r = self.issues.get(id).ok_or("no such issue")?.clone();
                if ch.orphans.contains(id) {
                    return Ok(Some("orphan"));
                }
                let want = r.amount + r.fee;
                let mut total = want;
                if *paid < want && *by != r.who {
                    return Err("only the requester may execute a partial payment");
                }
                match r.status {
                    0 => {
                        let mut back = r.grief;
                        if *paid < want {
                            self.lower_tbi(r.vault, want - paid)?;
                            back = share(r.grief, *paid, want)?;
                            let lost = r.grief - back;
                            self.release(r.who, r.gcur, lost)?;
                            self.take(r.who, r.gcur, lost)?;
                            self.give(treasury(), r.gcur, lost);
                            total = *paid;
                        } else if *paid > want && self.vault(r.vault)?.live() {
                            let room = if self.vault(r.vault)?.status == 0 { self.issuable(ch, r.vault) } else { 0 };
                            let extra = (paid - want).min(room);
                            self.raise_tbi(ch, r.vault, extra)?;
                            total = want + extra;
                        }
                        self.release(r.who, r.gcur, back)?;
                    }
                    2 => {
                        if self.live(r.vault)?.status != 0 {
                            return Err("the vault accepts no issues");
                        }
                        self.raise_tbi(ch, r.vault, *paid)?;
                        total = *paid;
                    }
                    _ => return Err("completed"),
                }
                let fee = if total == want { r.fee } else { fee_of(total, ch.conf.issue_fee.into_inner()) };
                self.lower_tbi(r.vault, total)?;
                self.raise_issued(r.vault, total)?;
                self.mint(r.who, total - fee);
                self.mint(fee_pool(), fee);
                let i = self.issues.get_mut(id).unwrap();
                i.amount = total - fee;
                i.fee = fee;
                i.status = 1;
            }
            Op::CancelIssue { by, id } => {
                let r = self.issues.get(id).ok_or("no such issue")?.clone();
                if ch.orphans.contains(id) {
                    return Ok(Some("orphan"));
                }
                if r.status != 0 {
                    return Err("not pending");
                }
                let period = self.periods[0].max(r.period);
                let lost = if self.expired(r.open, r.btc, period) {
                    r.grief
                } else if *by == r.who {
                    share(r.grief, (self.active - r.open) as u128, period as u128)?.min(r.grief)
                } else {
                    return Err("not expired");
                };
                self.release(r.who, r.gcur, r.grief)?;
                if self.vault(r.vault)?.live() {
                    self.take(r.who, r.gcur, lost)?;
                    self.give(treasury(), r.gcur, lost);
                }
                self.lower_tbi(r.vault, r.amount + r.fee)?;
                self.issues.get_mut(id).unwrap().status = 2;
            }
            Op::RequestRedeem { who, v, amount, zero } => {
                if *amount > self.free[&(*who, W)] {
                    return Err("more than the redeemer has");
                }
                if *zero {
                    return Err("no address");
                }
                let x = self.vault(*v)?.clone();
                let fee = if x.acct == *who { 0 } else { fee_of(*amount, ch.conf.redeem_fee.into_inner()) };
                let inclusion = self.inclusion(ch);
                let burned = sub(*amount, fee, "dust")?;
                let btc_amount = sub(burned, inclusion, "dust")?;
                self.not_banned(*v)?;
                if btc_amount < ch.conf.redeem_dust {
                    return Err("dust");
                }
                let full = muldiv(self.conv(btc_amount, W, x.col), ch.conf.premium_fee.into_inner(), ONE);
                let premium = self.max_premium(ch, *v)?.min(full);
                self.raise_tbr(*v, burned)?;
                self.lock(*who, W, *amount)?;
                let (_, coll) = self.lower_tbrep(*v, burned)?;
                self.free_replace_collateral(*v, coll)?;
                let r = RedeemReq {
                    vault: *v,
                    who: *who,
                    btc_amount,
                    inclusion,
                    fee,
                    premium,
                    open: self.active,
                    period: self.periods[1],
                    btc: self.btc,
                    status: 0,
                };
                self.redeems.insert(id_of_new, r);
            }
            Op::ExecuteRedeem { id, off, wrong, .. } => {
                let r = self.redeems.get(id).ok_or("no such redeem")?.clone();
                if r.status != 0 {
                    return Err("not pending");
                }
                if *off != 0 || *wrong {
                    return Err("not the payment asked for");
                }
                self.burn_held(r.who, r.burned())?;
                self.release(r.who, W, r.fee)?;
                self.take(r.who, W, r.fee)?;
                self.give(fee_pool(), W, r.fee);
                let x = self.vault(r.vault)?.clone();
                self.lower_tbr(r.vault, r.burned())?;
                self.lower_issued(r.vault, r.burned())?;
                if x.live() {
                    let premium = r.premium.min(x.total);
                    *self.h(x.acct, x.col) = sub(self.held[&(x.acct, x.col)], premium, "reserved balance too low")?;
                    self.give(r.who, x.col, premium);
                    self.less_collateral(x.col, premium)?;
                    if premium > 0 {
                        self.slash(r.vault, premium)?;
                        self.reweigh(ch, r.vault);
                    }
                } else {
                    let back = share(x.liq, r.burned(), x.tbr)?;
                    self.less_collateral(x.col, back)?;
                    self.v(r.vault)?.liq -= back;
                    self.release(x.acct, x.col, back)?;
                }
                self.redeems.get_mut(id).unwrap().status = 1;
            }
            Op::CancelRedeem { by, id, reimburse } => {
                let r = self.redeems.get(id).ok_or("no such redeem")?.clone();
                if r.status != 0 {
                    return Err("not pending");
                }
                if r.who != *by {
                    return Err("not the redeemer");
                }
                if !self.expired(r.open, r.btc, self.periods[1].max(r.period)) {
                    return Err("not expired");
                }
                let x = self.vault(r.vault)?.clone();
                let b = r.burned();
                let worth = self.conv(b, W, x.col);
                if !x.live() {
                    let conf = share(x.liq, b, x.tbr)?;
                    self.v(r.vault)?.liq -= conf;
                    *self.h(x.acct, x.col) = sub(self.held[&(x.acct, x.col)], conf, "reserved balance too low")?;
                    if *reimburse {
                        self.less_collateral(x.col, conf)?;
                        self.give(r.who, x.col, conf);
                    } else {
                        self.s(x.col).coll += conf;
                        *self.h(liquidation_account(), x.col) += conf;
                    }
                } else {
                    let fine = fee_of(worth, ch.conf.punishment_fee.into_inner());
                    let want = if *reimburse { worth + fine } else { fine };
                    let got = want.min(x.total);
                    *self.h(x.acct, x.col) = sub(self.held[&(x.acct, x.col)], got, "reserved balance too low")?;
                    self.less_collateral(x.col, got)?;
                    self.give(r.who, x.col, got);
                    if got > 0 {
                        self.slash(r.vault, got)?;
                        self.reweigh(ch, r.vault);
                    }
                    let until = self.active + ch.conf.punishment_delay;
                    self.v(r.vault)?.banned = Some(until);
                }
                let status;
                if *reimburse {
                    self.release(r.who, W, r.fee)?;
                    self.take(r.who, W, r.fee)?;
                    self.give(fee_pool(), W, r.fee);
                    let y = self.vault(r.vault)?.clone();
                    let below = y.live() && self.backs(y.col, y.total, self.secure(ch, r.vault)) < y.issued;
                    if !y.live() || below {
                        self.burn_held(r.who, b)?;
                        self.lower_tbr(r.vault, b)?;
                        self.lower_issued(r.vault, b)?;
                        status = if y.live() { 2 } else { 3 };
                    } else {
                        self.release(r.who, W, b)?;
                        self.take(r.who, W, b)?;
                        self.give(x.acct, W, b);
                        self.lower_tbr(r.vault, b)?;
                        status = 3;
                    }
                } else {
                    self.release(r.who, W, b + r.fee)?;
                    self.lower_tbr(r.vault, b)?;
                    status = 4;
                }
                self.redeems.get_mut(id).unwrap().status = status;
            }
            Op::MintReimbursed { v, id } => {
                let r = self.redeems.get(id).ok_or("no such redeem")?.clone();
                if r.status != 2 {
                    return Err("not reimbursed, or minted already");
                }
                if r.vault != *v {
                    return Err("another vault");
                }
                self.raise_tbi(ch, *v, r.burned())?;
                self.lower_tbi(*v, r.burned())?;
                self.raise_issued(*v, r.burned())?;
                let a = self.vault(*v)?.acct;
                self.mint(a, r.burned());
                self.redeems.get_mut(id).unwrap().status = 3;
            }
            Op::LiquidationRedeem { who, col, amount } => {
                self.lock(*who, W, *amount)?;
                self.burn_held(*who, *amount)?;
                let s = self.sys[col].clone();
                if sub(s.issued, s.tbr, "more to be redeemed than issued")? < *amount {
                    return Err("the liquidation vault has not issued so much");
                }
                if *amount == 0 {
                    return Err("nothing");
                }
                let pay = share(s.coll, *amount, s.issued + s.tbi - s.tbr)?;
                let l = liquidation_account();
                *self.h(l, *col) = sub(self.held[&(l, *col)], pay, "reserved balance too low")?;
                self.less_collateral(*col, pay)?;
                self.give(*who, *col, pay);
                let s = self.s(*col);
                s.coll -= pay;
                s.issued -= amount;
            }
            Op::SelfRedeem { v, amount } => {
                self.not_banned(*v)?;
                let x = self.live(*v)?.clone();
                let all = sub(x.issued, x.tbr, "more to be redeemed than issued")?;
                if *amount == 0 {
                    return Err("nothing");
                }
                let fee = if *amount == all { 0 } else { fee_of(*amount, ch.conf.redeem_fee.into_inner()) };
                let used = sub(*amount, fee, "the fee exceeds the amount")?;
                self.raise_tbr(*v, used)?;
                self.lower_tbr(*v, used)?;
                self.lower_issued(*v, used)?;
                self.lock(x.acct, W, used)?;
                self.burn_held(x.acct, used)?;
                self.take(x.acct, W, fee)?;
                self.give(fee_pool(), W, fee);
                let (_, coll) = self.lower_tbrep(*v, used)?;
                self.free_replace_collateral(*v, coll)?;
            }
            Op::RequestReplace { v, amount } => {
                self.not_banned(*v)?;
                let x = self.live(*v)?.clone();
                if x.opted {
                    return Err("the vault takes nominations");
                }
                let room = sub(sub(x.issued, x.tbrep, "more to be replaced than issued")?, x.tbr, "more to be replaced and redeemed than issued")?;
                let inc = (*amount).min(room);
                if inc == 0 {
                    return Err("nothing to replace");
                }
                if x.tbrep + inc < ch.conf.replace_dust {
                    return Err("dust");
                }
                let grief = fee_of(self.conv(inc, W, N), ch.conf.replace_griefing.into_inner());
                self.lock(x.acct, N, grief)?;
                let y = self.v(*v)?;
                y.tbrep += inc;
                y.rep_coll += grief;
            }
            Op::WithdrawReplace { v, amount } => {
                self.live(*v)?;
                let (used, coll) = self.lower_tbrep(*v, *amount)?;
                self.free_replace_collateral(*v, coll)?;
                if used == 0 {
                    return Err("nothing to withdraw");
                }
            }
            Op::AcceptReplace { old, new, amount, coll } => {
                if old == new {
                    return Err("oneself");
                }
                self.not_banned(*new)?;
                self.vault(*old)?;
                let (used, grief) = self.lower_tbrep(*old, *amount)?;
                if used < ch.conf.replace_dust {
                    return Err("dust");
                }
                let more = share(*coll, used, *amount)?;
                self.deposit_own(ch, *new, more)?;
                self.raise_tbr(*old, used)?;
                self.raise_tbi(ch, *new, used)?;
                let x = self.v(*old)?;
                x.rep_coll = sub(x.rep_coll, grief, "replace collateral too low")?;
                x.act_rep_coll += grief;
                let r = ReplaceReq {
                    old: *old,
                    new: *new,
                    amount: used,
                    grief,
                    coll: more,
                    open: self.active,
                    period: self.periods[2],
                    btc: self.btc,
                    status: 0,
                };
                self.replaces.insert(id_of_new, r);
            }
            Op::ExecuteReplace { id, off, wrong, .. } => {
                let r = self.replaces.get(id).ok_or("no such replace")?.clone();
                if ch.orphans.contains(id) {
                    return Ok(Some("orphan"));
                }
                if r.status == 1 {
                    return Err("completed");
                }
                if *off != 0 || *wrong {
                    return Err("not the payment asked for");
                }
                if r.status == 0 {
                    let x = self.v(r.old)?;
                    x.act_rep_coll = sub(x.act_rep_coll, r.grief, "active replace collateral too low")?;
                    let a = x.acct;
                    self.release(a, N, r.grief)?;
                } else {
                    self.raise_tbr(r.old, r.amount)?;
                    self.raise_tbi(ch, r.new, r.amount)?;
                }
                let x = self.vault(r.old)?.clone();
                if !x.live() {
                    let back = share(x.liq, r.amount, x.tbr)?;
                    self.v(r.old)?.liq -= back;
                    self.part_add(r.old, x.acct, back);
                }
                self.lower_tbr(r.old, r.amount)?;
                self.lower_issued(r.old, r.amount)?;
                self.lower_tbi(r.new, r.amount)?;
                self.raise_issued(r.new, r.amount)?;
                self.replaces.get_mut(id).unwrap().status = 1;
            }
            Op::CancelReplace { id, .. } => {
                let r = self.replaces.get(id).ok_or("no such replace")?.clone();
                if ch.orphans.contains(id) {
                    return Ok(Some("orphan"));
                }
                if r.status != 0 {
                    return Err("not pending");
                }
                if !self.expired(r.open, r.btc, self.periods[2].max(r.period)) {
                    return Err("not expired");
                }
                let x = self.vault(r.old)?.clone();
                if !x.live() {
                    let part = share(x.liq, r.amount, x.tbr)?;
                    self.v(r.old)?.liq -= part;
                    *self.h(x.acct, x.col) = sub(self.held[&(x.acct, x.col)], part, "reserved balance too low")?;
                    *self.h(liquidation_account(), x.col) += part;
                    self.s(x.col).coll += part;
                }
                self.lower_tbr(r.old, r.amount)?;
                self.lower_tbi(r.new, r.amount)?;
                let o = self.v(r.old)?;
                o.act_rep_coll = sub(o.act_rep_coll, r.grief, "active replace collateral too low")?;
                let oa = o.acct;
                let na = self.vault(r.new)?.acct;
                *self.h(oa, N) = sub(self.held[&(oa, N)], r.grief, "reserved balance too low")?;
                self.give(na, N, r.grief);
                let n = self.vault(r.new)?.clone();
                if n.live() && n.own() >= r.coll && self.allowed(ch, r.new, Some(r.coll)).unwrap_or(false) {
                    self.release(na, n.col, r.coll)?;
                    self.less_collateral(n.col, r.coll)?;
                    self.part_sub(r.new, na, r.coll)?;
                    self.reweigh(ch, r.new);
                }
                self.replaces.get_mut(id).unwrap().status = 2;
            }
            Op::Register { v, coll } => {
                let id = &ch.ids[*v];
                if self.vaults.contains_key(v) {
                    return Err("registered already");
                }
                let c = col_of(id.currencies.collateral);
                if *coll < self.min[&c] {
                    return Err("less than the minimum collateral");
                }
                self.vaults.insert(*v, Vault { acct: id.account_id, col: c, ..Default::default() });
                self.deposit_own(ch, *v, *coll)?;
            }
            Op::AcceptIssues { v, on } => {
                self.live(*v)?;
                self.v(*v)?.status = !*on as u8;
                self.reweigh(ch, *v);
            }
            Op::Custom { v, threshold } => {
                let x = self.vault(*v)?;
                let global = self.thr(ch, x.col).0;
                if threshold.map_or(false, |t| t <= global) {
                    return Err("not above the global threshold");
                }
                self.v(*v)?.custom = *threshold;
                self.reweigh(ch, *v);
            }
            Op::Report { v } => {
                self.vault(*v)?;
                if !self.below_liquidation(ch, *v) {
                    return Err("not below the liquidation threshold");
                }
                self.live(*v)?;
                self.liquidate(ch, *v)?;
            }
            Op::Recover { v } => {
                let x = self.vault(*v)?;
                if x.live() {
                    return Err("not liquidated");
                }
                if x.tbr != 0 {
                    return Err("redeems are open");
                }
                self.v(*v)?.status = 0;
                self.reweigh(ch, *v);
            }
            Op::Ceiling { col, amount } => {
                self.ceiling.insert(*col, *amount);
            }
            Op::Minimum { col, amount } => {
                self.min.insert(*col, *amount);
            }
            Op::Period { which, blocks } => self.periods[*which] = *blocks,
            Op::Deposit { who, v, amount } => {
                let x = self.vault(*v)?.clone();
                if x.acct == *who {
                    self.deposit_own(ch, *v, *amount)?;
                } else {
                    let nominated = sub(x.total, x.own(), "own stake exceeds the pool")?;
                    if !self.nominating {
                        return Err("nomination is disabled");
                    }
                    if !x.opted {
                        return Err("the vault takes no nominations");
                    }
                    if nominated + amount > x.limit {
                        return Err("beyond the vault's limit");
                    }
                    self.take(*who, x.col, *amount)?;
                    *self.h(x.acct, x.col) += amount;
                    self.more_collateral(x.col, *amount)?;
                    self.part_add(*v, *who, *amount);
                    self.reweigh(ch, *v);
                }
            }
            Op::Withdraw { who, v, amount, index } => {
                let x = self.vault(*v)?.clone();
                let n = index.unwrap_or(0).min(x.nonce);
                let stake = x.parts.get(&(n, *who)).copied().unwrap_or(0);
                let a = amount.unwrap_or(stake);
                if n == x.nonce {
                    if !self.allowed(ch, *v, *amount)? {
                        return Err("the collateral is needed");
                    }
                    if *who != x.acct {
                        if !self.nominating {
                            return Err("nomination is disabled");
                        }
                        if !x.opted {
                            return Err("the vault takes no nominations");
                        }
                    }
                    self.part_sub(*v, *who, a)?;
                    self.less_collateral(x.col, a)?;
                } else {
                    let left = sub(stake, a, "not so much stake")?;
                    let y = self.v(*v)?;
                    set(&mut y.parts, (n, *who), left);
                    let t = y.stale_total.get_mut(&n).unwrap();
                    *t = sub(*t, a, "not so much stake in the pool")?;
                }
                *self.h(x.acct, x.col) = sub(self.held[&(x.acct, x.col)], a, "reserved balance too low")?;
                self.give(*who, x.col, a);
                self.reweigh(ch, *v);
            }
            Op::OptIn { v } => {
                if !self.nominating {
                    return Err("nomination is disabled");
                }
                if self.vault(*v)?.opted {
                    return Err("opted in already");
                }
                self.v(*v)?.opted = true;
            }
            Op::OptOut { v } => {
                let x = self.vault(*v)?.clone();
                if !x.opted {
                    return Err("not opted in");
                }
                let nominated = sub(x.total, x.own(), "own stake exceeds the pool")?;
                if !self.allowed(ch, *v, Some(nominated))? {
                    return Err("the collateral is needed");
                }
                self.less_collateral(x.col, nominated)?;
                let y = self.v(*v)?;
                y.opted = false;
                y.nonce += 1;
                let own = x.own();
                let k = (y.nonce, x.acct);
                set(&mut y.parts, k, own);
                y.parts.remove(&(x.nonce, x.acct));
                y.stale_total.insert(x.nonce, nominated);
                y.total = own;
                self.reweigh(ch, *v);
            }
            Op::Limit { v, amount } => {
                if let Some(x) = self.vaults.get_mut(v) {
                    x.limit = *amount;
                }
            }
            Op::Nominating { on } => self.nominating = *on,
            Op::Pass { blocks, btc } => {
                self.active += blocks;
                self.btc += btc;
            }
            Op::Feed { col, rate } => {
                self.rate.insert(*col, *rate);
                self.recap(*col);
            }
        }
        Ok(None)
    }
}
fn set(m: &mut Map<(u64, u64), u128>, k: (u64, u64), n: u128) {
    if n == 0 {
        m.remove(&k);
    } else {
        m.insert(k, n);
    }
}
