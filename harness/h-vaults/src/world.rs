//! What can be seen of the chain: one snapshot between two calls.
use crate::rt::*;
use codec::{Decode, Encode};
use fee::Config as _;
use issue::types::DefaultIssueRequest;
use primitives::{issue::IssueRequestStatus as IS, redeem::RedeemRequestStatus as RS, replace::ReplaceRequestStatus as XS};
use redeem::types::DefaultRedeemRequest;
use replace::types::DefaultReplaceRequest;
use sp_core::{hashing::twox_128, H256};
use staking::StakingApi;
use std::collections::BTreeMap;
use vault_registry::types::{DefaultVault, VaultStatus};

pub type Id = VaultId<u64, CurrencyId>;
pub type Map<K, V> = BTreeMap<K, V>;
pub const COLS: [CurrencyId; 3] = [Token(DOT), Token(KSM), NATIVE];
/// all currencies: the collaterals, then the wrapped one
pub const CURS: [CurrencyId; 4] = [Token(DOT), Token(KSM), NATIVE, WRAPPED];
pub const W: usize = 3;
pub const N: usize = 2;
/// operators of vaults, users, a nominator without a vault
pub const PEOPLE: [u64; 6] = [1, 2, 3, 11, 12, 21];
pub const USERS: [u64; 3] = [11, 12, 21];

pub fn fee_acct() -> u64 {
    fee_pool()
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Vault {
    pub acct: u64,
    pub col: usize,
    /// 0 accepting issues, 1 active only, 2 liquidated
    pub status: u8,
    pub banned: Option<u64>,
    pub custom: Option<u128>,
    pub issued: u128,
    pub tbi: u128,
    pub tbr: u128,
    pub tbrep: u128,
    pub rep_coll: u128,
    pub act_rep_coll: u128,
    pub liq: u128,
    pub total: u128,
    pub nonce: u64,
    /// (pool, account) -> stake
    pub parts: Map<(u64, u64), u128>,
    pub stale_total: Map<u64, u128>,
    pub opted: bool,
    pub limit: u128,
    pub weight: u128,
}
impl Vault {
    pub fn own(&self) -> u128 {
        self.part(self.acct)
    }
    pub fn part(&self, who: u64) -> u128 {
        self.parts.get(&(self.nonce, who)).copied().unwrap_or(0)
    }
    pub fn live(&self) -> bool {
        self.status < 2
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Sys {
    pub tbi: u128,
    pub issued: u128,
    pub tbr: u128,
    pub coll: u128,
}
#[derive(Clone, PartialEq, Debug)]
pub struct IssueReq {
    pub vault: usize,
    pub who: u64,
    pub amount: u128,
    pub fee: u128,
    pub grief: u128,
    pub gcur: usize,
    pub open: u64,
    pub period: u64,
    pub btc: u32,
    /// 0 pending 1 completed 2 cancelled
    pub status: u8,
}
#[derive(Clone, PartialEq, Debug)]
pub struct RedeemReq {
    pub vault: usize,
    pub who: u64,
    pub btc_amount: u128,
    pub inclusion: u128,
    pub fee: u128,
    pub premium: u128,
    pub open: u64,
    pub period: u64,
    pub btc: u32,
    /// 0 pending 1 completed 2 reimbursed, the vault may mint 3 reimbursed 4 retried
    pub status: u8,
}
impl RedeemReq {
    pub fn burned(&self) -> u128 {
        self.btc_amount + self.inclusion
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct ReplaceReq {
    pub old: usize,
    pub new: usize,
    pub amount: u128,
    pub grief: u128,
    pub coll: u128,
    pub open: u64,
    pub period: u64,
    pub btc: u32,
    pub status: u8,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Snap {
    pub active: u64,
    pub btc: u32,
    pub rate: Map<usize, u128>,
    pub per_byte: u128,
    pub min: Map<usize, u128>,
    pub ceiling: Map<usize, u128>,
    pub periods: [u64; 3],
    pub nominating: bool,
    pub vaults: Map<usize, Vault>,
    pub sys: Map<usize, Sys>,
    pub tuvc: Map<usize, u128>,
    pub capacity: Map<usize, u128>,
    pub free: Map<(u64, usize), u128>,
    pub held: Map<(u64, usize), u128>,
    pub wrapped: u128,
    pub issues: Map<H256, IssueReq>,
    pub redeems: Map<H256, RedeemReq>,
    pub replaces: Map<H256, ReplaceReq>,
}

fn prefix(pallet: &str, item: &str) -> Vec<u8> {
    [twox_128(pallet.as_bytes()), twox_128(item.as_bytes())].concat()
}
/// all of a map, as it lies in storage
pub fn raw_map<K: Decode + Ord, V: Decode>(pallet: &str, item: &str) -> Map<K, V> {
    let p = prefix(pallet, item);
    let mut out = Map::new();
    let mut key = p.clone();
    while let Some(k) = sp_io::storage::next_key(&key) {
        if !k.starts_with(&p) {
            break;
        }
        let v = sp_io::storage::get(&k).unwrap();
        out.insert(K::decode(&mut &k[p.len() + 16..]).expect("key"), V::decode(&mut &v[..]).expect("value"));
        key = k;
    }
    out
}
pub fn raw_value<V: Decode>(key: Vec<u8>) -> Option<V> {
    sp_io::storage::get(&key).map(|v| V::decode(&mut &v[..]).expect("value"))
}
fn concat(k: Vec<u8>) -> Vec<u8> {
    [sp_core::hashing::blake2_128(&k).to_vec(), k].concat()
}

pub fn col_of(c: CurrencyId) -> usize {
    CURS.iter().position(|x| *x == c).unwrap()
}
pub fn accounts() -> Vec<u64> {
    let mut a = PEOPLE.to_vec();
    a.extend([fee_pool(), treasury(), liquidation_account()]);
    a
}

impl Snap {
    pub fn read(ids: &[Id]) -> Snap {
        let mut s = Snap { active: Security::active_block_number(), btc: BTCRelay::get_best_block_height(), ..Default::default() };
        for (i, c) in COLS.iter().enumerate() {
            let r = Oracle::get_price(OracleKey::ExchangeRate(*c)).map(|r| r.into_inner()).unwrap_or(0);
            s.rate.insert(i, r);
            let key = pair(*c).encode();
            s.min.insert(i, raw_value([prefix("VaultRegistry", "MinimumCollateralVault"), concat(c.encode())].concat()).unwrap_or(0));
            s.ceiling.insert(i, raw_value([prefix("VaultRegistry", "SystemCollateralCeiling"), concat(key.clone())].concat()).unwrap_or(0));
            s.tuvc.insert(i, raw_value([prefix("VaultRegistry", "TotalUserVaultCollateral"), concat(key)].concat()).unwrap_or(0));
            let l = VaultRegistry::get_liquidation_vault(&pair(*c));
            s.sys.insert(i, Sys { tbi: l.to_be_issued_tokens, issued: l.issued_tokens, tbr: l.to_be_redeemed_tokens, coll: l.collateral });
            s.capacity.insert(i, <CapacityRewards as reward::RewardsApi<(), CurrencyId, u128>>::get_stake(&(), c).unwrap_or(u128::MAX));
        }
        s.per_byte = Oracle::get_price(OracleKey::FeeEstimation).map(|r| r.into_inner()).unwrap_or(0);
        s.periods = [
            raw_value(prefix("Issue", "IssuePeriod")).unwrap_or(0),
            raw_value(prefix("Redeem", "RedeemPeriod")).unwrap_or(0),
            raw_value(prefix("Replace", "ReplacePeriod")).unwrap_or(0),
        ];
        s.nominating = Nomination::is_nomination_enabled();
        for (i, id) in ids.iter().enumerate() {
            let Ok(v): Result<DefaultVault<Test>, _> = VaultRegistry::get_vault_from_id(id) else { continue };
            let nonce = <VaultStaking as StakingApi<Id, u64, u128>>::nonce(id);
            let mut parts = Map::new();
            let mut stale_total = Map::new();
            for n in 0..=nonce {
                for who in PEOPLE {
                    let p = VaultStaking::compute_stake_at_index(n, id, &who).unwrap_or(-1);
                    if p != 0 {
                        parts.insert((n, who), p as u128);
                    }
                }
                if n < nonce {
                    stale_total.insert(n, inner(VaultStaking::total_current_stake_at_index(n, id)));
                }
            }
            let x = Vault {
                acct: id.account_id,
                col: col_of(id.currencies.collateral),
                status: match v.status {
                    VaultStatus::Active(true) => 0,
                    VaultStatus::Active(false) => 1,
                    VaultStatus::Liquidated => 2,
                },
                banned: v.banned_until,
                custom: v.secure_collateral_threshold.map(|t| t.into_inner()),
                issued: v.issued_tokens,
                tbi: v.to_be_issued_tokens,
                tbr: v.to_be_redeemed_tokens,
                tbrep: v.to_be_replaced_tokens,
                rep_coll: v.replace_collateral,
                act_rep_coll: v.active_replace_collateral,
                liq: v.liquidated_collateral,
                total: inner(VaultStaking::total_current_stake_at_index(nonce, id)),
                nonce,
                parts,
                stale_total,
                opted: Nomination::is_opted_in(id),
                limit: Nomination::get_nomination_limit(id).amount(),
                weight: <VaultRewards as reward::RewardsApi<CurrencyId, Id, u128>>::get_stake(&id.currencies.collateral, id).unwrap_or(u128::MAX),
            };
            s.vaults.insert(i, x);
        }
        for a in accounts() {
            for (i, c) in CURS.iter().enumerate() {
                let b = Tokens::accounts(&a, *c);
                s.free.insert((a, i), b.free);
                s.held.insert((a, i), b.reserved);
            }
        }
        s.wrapped = Tokens::total_issuance(WRAPPED);
        let at = |id: &Id| ids.iter().position(|x| x == id).unwrap_or(usize::MAX);
        for (k, r) in raw_map::<H256, DefaultIssueRequest<Test>>("Issue", "IssueRequests") {
            s.issues.insert(
                k,
                IssueReq {
                    vault: at(&r.vault),
                    who: r.requester,
                    amount: r.amount,
                    fee: r.fee,
                    grief: r.griefing_collateral,
                    gcur: col_of(r.griefing_currency),
                    open: r.opentime,
                    period: r.period,
                    btc: r.btc_height,
                    status: match r.status {
                        IS::Pending => 0,
                        IS::Completed => 1,
                        IS::Cancelled => 2,
                    },
                },
            );
        }
        for (k, r) in raw_map::<H256, DefaultRedeemRequest<Test>>("Redeem", "RedeemRequests") {
            s.redeems.insert(
                k,
                RedeemReq {
                    vault: at(&r.vault),
                    who: r.redeemer,
                    btc_amount: r.amount_btc,
                    inclusion: r.transfer_fee_btc,
                    fee: r.fee,
                    premium: r.premium,
                    open: r.opentime,
                    period: r.period,
                    btc: r.btc_height,
                    status: match r.status {
                        RS::Pending => 0,
                        RS::Completed => 1,
                        RS::Reimbursed(false) => 2,
                        RS::Reimbursed(true) => 3,
                        RS::Retried => 4,
                    },
                },
            );
        }
        for (k, r) in raw_map::<H256, DefaultReplaceRequest<Test>>("Replace", "ReplaceRequests") {
            s.replaces.insert(
                k,
                ReplaceReq {
                    old: at(&r.old_vault),
                    new: at(&r.new_vault),
                    amount: r.amount,
                    grief: r.griefing_collateral,
                    coll: r.collateral,
                    open: r.accept_time,
                    period: r.period,
                    btc: r.btc_height,
                    status: match r.status {
                        XS::Pending => 0,
                        XS::Completed => 1,
                        XS::Cancelled => 2,
                    },
                },
            );
        }
        s
    }
    /// every observable number by name
    pub fn flat(&self) -> Map<String, String> {
        let mut m = Map::new();
        let mut put = |k: String, v: String| {
            m.insert(k, v);
        };
        put("active block".into(), self.active.to_string());
        put("bitcoin height".into(), self.btc.to_string());
        put("nomination enabled".into(), self.nominating.to_string());
        put("wrapped issuance".into(), self.wrapped.to_string());
        for (i, c) in COLS.iter().enumerate() {
            put(format!("rate of {c:?}"), self.rate[&i].to_string());
            put(format!("minimum of {c:?}"), self.min[&i].to_string());
            put(format!("ceiling of {c:?}"), self.ceiling[&i].to_string());
            put(format!("total collateral of {c:?}"), self.tuvc[&i].to_string());
            put(format!("capacity of {c:?}"), self.capacity[&i].to_string());
            put(format!("liquidation vault of {c:?}"), format!("{:?}", self.sys[&i]));
        }
        for (i, v) in &self.vaults {
            put(format!("vault {i}: status"), v.status.to_string());
            put(format!("vault {i}: banned until"), format!("{:?}", v.banned));
            put(format!("vault {i}: custom threshold"), format!("{:?}", v.custom));
            put(format!("vault {i}: issued"), v.issued.to_string());
            put(format!("vault {i}: to be issued"), v.tbi.to_string());
            put(format!("vault {i}: to be redeemed"), v.tbr.to_string());
            put(format!("vault {i}: to be replaced"), v.tbrep.to_string());
            put(format!("vault {i}: replace collateral"), v.rep_coll.to_string());
            put(format!("vault {i}: active replace collateral"), v.act_rep_coll.to_string());
            put(format!("vault {i}: liquidated collateral"), v.liq.to_string());
            put(format!("vault {i}: collateral"), v.total.to_string());
            put(format!("vault {i}: pool"), v.nonce.to_string());
            put(format!("vault {i}: opted in"), v.opted.to_string());
            put(format!("vault {i}: limit"), v.limit.to_string());
            put(format!("vault {i}: reward stake"), v.weight.to_string());
            for ((n, a), p) in &v.parts {
                put(format!("vault {i}: stake of {a} in pool {n}"), p.to_string());
            }
            put(format!("vault {i}: old pools"), format!("{:?}", v.stale_total));
        }
        for ((a, c), b) in &self.free {
            put(format!("free {:?} of {}", CURS[*c], name(*a)), b.to_string());
        }
        for ((a, c), b) in &self.held {
            put(format!("reserved {:?} of {}", CURS[*c], name(*a)), b.to_string());
        }
        for (k, r) in &self.issues {
            put(format!("issue {k:?}"), format!("{r:?}"));
        }
        for (k, r) in &self.redeems {
            put(format!("redeem {k:?}"), format!("{r:?}"));
        }
        for (k, r) in &self.replaces {
            put(format!("replace {k:?}"), format!("{r:?}"));
        }
        m
    }
}
pub fn name(a: u64) -> String {
    if a == fee_pool() {
        "the fee pool".into()
    } else if a == treasury() {
        "the treasury".into()
    } else if a == liquidation_account() {
        "the liquidation account".into()
    } else {
        a.to_string()
    }
}
fn inner(f: FixedI128) -> u128 {
    (f.into_inner() / 1_000_000_000_000_000_000i128).max(0) as u128
}
/// where two snapshots differ: (what, expected, found)
pub fn diff(want: &Snap, got: &Snap) -> Vec<(String, String, String)> {
    if want == got {
        return vec![];
    }
    let (a, b) = (want.flat(), got.flat());
    let mut out = vec![];
    for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
        let (x, y) = (a.get(k), b.get(k));
        if x != y {
            out.push((k.clone(), x.cloned().unwrap_or("-".into()), y.cloned().unwrap_or("-".into())));
        }
    }
    out
}
