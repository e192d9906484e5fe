use crate::{stand_in::*, *};
use codec::Encode;
use dex_general::PairInfo;
use pbt::{check, check_eq, guarded, law, Prop, Src, R};
use primitives::{BalanceWrapper, CurrencyId, CurrencyId::*, TokenSymbol, VaultId};
use sp_api::ProvideRuntimeApi;
use sp_core::{H256, U256};
use sp_rpc::number::NumberOrHex;
use sp_runtime::{
    generic, traits::BlakeTwo256, traits::Block as _, AccountId32, ArithmeticError, DispatchError, FixedU128, ModuleError, OpaqueExtrinsic,
};
use std::sync::Arc;

type Header = generic::Header<u32, BlakeTwo256>;
type Block = generic::Block<Header, OpaqueExtrinsic>;
type Hash = <Block as sp_runtime::traits::Block>::Hash;
type Acc = AccountId32;
type Vault = VaultId<Acc, CurrencyId>;
type Bal = BalanceWrapper<u128>;
type H256Le = bitcoin::types::H256Le;

pub struct Api;
impl all_apis::oracle_rpc_runtime_api::OracleApi<Block, u128, CurrencyId> for Api {}
impl all_apis::btc_relay_rpc_runtime_api::BtcRelayApi<Block, H256Le> for Api {}
impl all_apis::issue_rpc_runtime_api::IssueApi<Block, Acc, H256, u8> for Api {}
impl all_apis::redeem_rpc_runtime_api::RedeemApi<Block, Vault, u128, Acc, H256, u8> for Api {}
impl all_apis::replace_rpc_runtime_api::ReplaceApi<Block, Acc, H256, u8> for Api {}
impl all_apis::escrow_rpc_runtime_api::EscrowApi<Block, Acc, u32, u128> for Api {}
impl all_apis::reward_rpc_runtime_api::RewardApi<Block, Acc, Vault, CurrencyId, u128, u32, FixedU128> for Api {}
impl all_apis::vault_registry_rpc_runtime_api::VaultRegistryApi<Block, Vault, u128, FixedU128, CurrencyId, Acc> for Api {}
impl all_apis::loans_rpc_runtime_api::LoansApi<Block, Acc, u128> for Api {}
impl all_apis::dex_general_rpc_runtime_api::DexGeneralApi<Block, Acc, CurrencyId> for Api {}
impl all_apis::dex_stable_rpc_runtime_api::DexStableApi<Block, CurrencyId, u128, Acc, u32> for Api {}

pub struct Client {
    best: Hash,
    finalized: Hash,
    genesis: Hash,
}
impl ProvideRuntimeApi<Block> for Client {
    type Api = Api;
    fn runtime_api(&self) -> &Api {
        &Api
    }
}
impl sp_blockchain::HeaderBackend<Block> for Client {
    fn info(&self) -> sp_blockchain::Info<Block> {
        sp_blockchain::Info { best_hash: self.best, finalized_hash: self.finalized, genesis_hash: self.genesis }
    }
}

// ---- what is asked with, and answered
trait Any: Sized {
    fn any(s: &mut Src) -> Self;
}
impl Any for bool {
    fn any(s: &mut Src) -> Self {
        s.bool()
    }
}
impl Any for u8 {
    fn any(s: &mut Src) -> Self {
        s.int(0, 255) as u8
    }
}
impl Any for u32 {
    fn any(s: &mut Src) -> Self {
        match s.below(3) {
            0 => s.below(5) as u32,
            1 => s.int(0, u32::MAX as u64) as u32,
            _ => u32::MAX,
        }
    }
}
impl Any for u128 {
    fn any(s: &mut Src) -> Self {
        match s.below(4) {
            0 => s.below(1000) as u128,
            1 => s.u128(u64::MAX as u128),
            2 => u64::MAX as u128 + s.below(3) as u128,
            _ => s.u128(u128::MAX),
        }
    }
}
impl Any for FixedU128 {
    fn any(s: &mut Src) -> Self {
        FixedU128::from_inner(u128::any(s))
    }
}
impl Any for Bal {
    fn any(s: &mut Src) -> Self {
        BalanceWrapper { amount: u128::any(s) }
    }
}
impl Any for Acc {
    fn any(s: &mut Src) -> Self {
        AccountId32::new(s.arr())
    }
}
impl Any for H256 {
    fn any(s: &mut Src) -> Self {
        H256(s.arr())
    }
}
impl Any for H256Le {
    fn any(s: &mut Src) -> Self {
        H256Le::from_bytes_le(&s.arr::<32>())
    }
}
impl Any for CurrencyId {
    fn any(s: &mut Src) -> Self {
        match s.below(5) {
            0 => Token(*s.pick(&[TokenSymbol::DOT, TokenSymbol::KSM, TokenSymbol::IBTC, TokenSymbol::KBTC, TokenSymbol::INTR, TokenSymbol::KINT])),
            1 => ForeignAsset(s.below(9) as u32),
            2 => LendToken(s.below(9) as u32),
            3 => StableLpToken(s.below(9) as u32),
            _ => CurrencyId::join_lp_token(ForeignAsset(1 + s.below(4) as u32), ForeignAsset(7)).unwrap(),
        }
    }
}
impl Any for Vault {
    fn any(s: &mut Src) -> Self {
        VaultId::new(Acc::any(s), CurrencyId::any(s), CurrencyId::any(s))
    }
}
impl Any for () {
    fn any(_: &mut Src) -> Self {}
}
impl Any for DispatchError {
    fn any(s: &mut Src) -> Self {
        match s.below(3) {
            0 => DispatchError::BadOrigin,
            1 => DispatchError::Arithmetic(ArithmeticError::Overflow),
            _ => DispatchError::Module(ModuleError { index: s.below(200) as u8, error: [s.below(200) as u8, 0, 0, 0], message: None }),
        }
    }
}
impl<T: Any> Any for Option<T> {
    fn any(s: &mut Src) -> Self {
        s.ratio(3, 4).then(|| T::any(s))
    }
}
impl<T: Any> Any for Vec<T> {
    fn any(s: &mut Src) -> Self {
        s.list(0, 6, T::any)
    }
}
impl<T: Any> Any for Result<T, DispatchError> {
    fn any(s: &mut Src) -> Self {
        if s.ratio(3, 4) {
            Ok(T::any(s))
        } else {
            Err(Any::any(s))
        }
    }
}
impl<A: Any, B: Any> Any for (A, B) {
    fn any(s: &mut Src) -> Self {
        (A::any(s), B::any(s))
    }
}
impl<A: Any, B: Any, C: Any, D: Any, E: Any, F: Any, G: Any> Any for (A, B, C, D, E, F, G) {
    fn any(s: &mut Src) -> Self {
        (A::any(s), B::any(s), C::any(s), D::any(s), E::any(s), F::any(s), G::any(s))
    }
}
impl Any for PairInfo<Acc, u128, CurrencyId> {
    fn any(s: &mut Src) -> Self {
        PairInfo {
            asset_0: Any::any(s),
            asset_1: Any::any(s),
            account: Any::any(s),
            total_liquidity: Any::any(s),
            holding_liquidity: Any::any(s),
            reserve_0: Any::any(s),
            reserve_1: Any::any(s),
            lp_asset_id: Any::any(s),
            status: Any::any(s),
        }
    }
}

// ---- the forms in which an answer is compared: numbers by value
trait Shown {
    fn shown(&self) -> String;
}
macro_rules! debug { ($($t:ty),*) => {$(impl Shown for $t { fn shown(&self) -> String { format!("{self:?}") } })*} }
debug!(bool, u8, u32, FixedU128, Acc, H256, H256Le, CurrencyId, Vault, (), DispatchError);
impl Shown for Bal {
    fn shown(&self) -> String {
        self.amount.to_string()
    }
}
impl Shown for u128 {
    fn shown(&self) -> String {
        self.to_string()
    }
}
impl Shown for NumberOrHex {
    fn shown(&self) -> String {
        self.value().to_string()
    }
}
impl<T: Shown> Shown for Vec<T> {
    fn shown(&self) -> String {
        format!("[{}]", self.iter().map(|t| t.shown() + ",").collect::<String>())
    }
}
impl<T: Shown> Shown for Option<T> {
    fn shown(&self) -> String {
        self.as_ref().map_or("none".into(), |t| format!("some {}", t.shown()))
    }
}
impl<T: Shown> Shown for Result<T, DispatchError> {
    fn shown(&self) -> String {
        match self {
            Ok(t) => format!("ok {}", t.shown()),
            Err(e) => format!("error {e:?}"),
        }
    }
}
impl<A: Shown, B: Shown> Shown for (A, B) {
    fn shown(&self) -> String {
        format!("({}, {})", self.0.shown(), self.1.shown())
    }
}
impl<A: Shown, B: Shown, C: Shown, D: Shown, E: Shown, F: Shown, G: Shown> Shown for (A, B, C, D, E, F, G) {
    fn shown(&self) -> String {
        [self.0.shown(), self.1.shown(), self.2.shown(), self.3.shown(), self.4.shown(), self.5.shown(), self.6.shown()].join(", ")
    }
}
impl<N: Shown> Shown for PairInfo<Acc, N, CurrencyId> {
    fn shown(&self) -> String {
        format!(
            "{:?} {:?} {:?} {} {} {} {} {:?} {}",
            self.asset_0,
            self.asset_1,
            self.account,
            self.total_liquidity.shown(),
            self.holding_liquidity.shown(),
            self.reserve_0.shown(),
            self.reserve_1.shown(),
            self.lp_asset_id,
            self.status
        )
    }
}

/// how the runtime's answer becomes the server's
enum Told<T> {
    Value(T),
    Refused,
}
fn same<T>(t: T) -> Told<T> {
    Told::Value(t)
}
fn result<T>(r: Result<T, DispatchError>) -> Told<T> {
    r.map_or(Told::Refused, Told::Value)
}
fn found<T>(r: Option<T>) -> Told<T> {
    r.map_or(Told::Refused, Told::Value)
}

fn ask<A: Any + Encode + Shown, T: Shown, G: Shown>(
    s: &mut Src,
    what: &'static str,
    name: &str,
    args: Vec<u8>,
    told: impl Fn(A) -> Told<T>,
    call: impl Fn(Arc<Client>, Option<Hash>) -> Result<G, jsonrpsee::core::Error>,
) -> R {
    let client = Arc::new(Client { best: H256(s.arr()), finalized: H256(s.arr()), genesis: H256(s.arr()) });
    let at: Option<Hash> = s.bool().then(|| H256(s.arr()));
    let answer: Option<A> = s.ratio(7, 8).then(|| A::any(s));
    sp_api::script(answer.as_ref().map(|a| a.encode()));
    s.label(what);
    let shown = answer.as_ref().map_or("nothing (a trap)".into(), |a| a.shown());
    s.note(|| format!("{what} at {at:?}; the runtime answers {shown}"));
    let got = guarded(|| call(client.clone(), at))?;
    let block = at.unwrap_or(client.best);
    let asked = sp_api::asked();
    check!(!asked.is_empty(), "{what}: the runtime was not asked");
    for (n, b, a) in asked {
        check_eq!(n, name, "what the runtime was asked for {what}");
        check!(b == block.encode(), "{what} was asked at {b:?}, not {block:?} (given: {at:?})");
        check!(a == args, "{what} was asked with {a:?}, not {args:?}");
    }
    let want = match answer {
        None => Told::Refused,
        Some(a) => told(a),
    };
    match (got, want) {
        (Ok(g), Told::Value(w)) => {
            s.nontrivial();
            check_eq!(g.shown(), w.shown(), "{what}: the answer given, and that of the runtime");
        }
        (Err(_), Told::Refused) => s.label("refused"),
        (Ok(g), Told::Refused) => pbt::fail!("{what}: {} was answered, though the runtime said {shown}", g.shown()),
        (Err(e), Told::Value(w)) => pbt::fail!("{what}: refused ({e:?}), though the runtime said {}", w.shown()),
    }
    Ok(())
}

type Res<T> = Result<T, DispatchError>;
fn bitcoin_and_vaults(s: &mut Src) -> R {
    s.steps(1, 6, |s| match s.below(31) {
        0 | 1 => {
            use crate::oracle_rpc::OracleApiServer as I;
            type S = crate::oracle_rpc::Oracle<Client, Block>;
            let (amount, currency) = (u128::any(s), CurrencyId::any(s));
            let b = || BalanceWrapper { amount };
            if s.bool() {
                ask::<Res<Bal>, _, _>(s, "wrapped_to_collateral", "wrapped_to_collateral", (b(), currency).encode(), result, |c, at| {
                    I::<Hash, u128, CurrencyId>::wrapped_to_collateral(&S::new(c), b(), currency, at)
                })
            } else {
                ask::<Res<Bal>, _, _>(s, "collateral_to_wrapped", "collateral_to_wrapped", (b(), currency).encode(), result, |c, at| {
                    I::<Hash, u128, CurrencyId>::collateral_to_wrapped(&S::new(c), b(), currency, at)
                })
            }
        }
        2 => {
            use crate::btc_relay_rpc::BtcRelayApiServer as I;
            let hash = H256Le::any(s);
            ask::<Res<()>, _, _>(s, "verify_block_header_inclusion", "verify_block_header_inclusion", (hash,).encode(), same, |c, at| {
                I::<Hash, H256Le>::verify_block_header_inclusion(&crate::btc_relay_rpc::BtcRelay::<Client, Block>::new(c), hash, at)
            })
        }
        3 => {
            use crate::issue_rpc::IssueApiServer as I;
            let who = Acc::any(s);
            let vault = s.bool();
            let name = if vault { "get_vault_issue_requests" } else { "get_issue_requests" };
            ask::<Vec<H256>, _, _>(s, name, name, (who.clone(),).encode(), same, |c, at| {
                let i = crate::issue_rpc::Issue::<Client, Block>::new(c);
                if vault {
                    I::<Hash, Acc, H256, u8>::get_vault_issue_requests(&i, who.clone(), at)
                } else {
                    I::<Hash, Acc, H256, u8>::get_issue_requests(&i, who.clone(), at)
                }
            })
        }
        4 | 5 | 6 => {
            use crate::redeem_rpc::RedeemApiServer as I;
            let who = Acc::any(s);
            match s.below(3) {
                0 => ask::<Vec<H256>, _, _>(s, "get_redeem_requests", "get_redeem_requests", (who.clone(),).encode(), same, |c, at| {
                    I::<Hash, Vault, u128, Acc, H256, u8>::get_redeem_requests(&crate::redeem_rpc::Redeem::<Client, Block>::new(c), who.clone(), at)
                }),
                1 => ask::<Vec<H256>, _, _>(s, "get_vault_redeem_requests", "get_vault_redeem_requests", (who.clone(),).encode(), same, |c, at| {
                    I::<Hash, Vault, u128, Acc, H256, u8>::get_vault_redeem_requests(&crate::redeem_rpc::Redeem::<Client, Block>::new(c), who.clone(), at)
                }),
                _ => ask::<Res<Vec<(Vault, Bal)>>, _, _>(s, "get_premium_redeem_vaults", "get_premium_redeem_vaults", ().encode(), result, |c, at| {
                    I::<Hash, Vault, u128, Acc, H256, u8>::get_premium_redeem_vaults(&crate::redeem_rpc::Redeem::<Client, Block>::new(c), at)
                }),
            }
        }
        7 => {
            use crate::replace_rpc::ReplaceApiServer as I;
            let who = Acc::any(s);
            let old = s.bool();
            let name = if old { "get_old_vault_replace_requests" } else { "get_new_vault_replace_requests" };
            ask::<Vec<H256>, _, _>(s, name, name, (who.clone(),).encode(), same, |c, at| {
                let i = crate::replace_rpc::Replace::<Client, Block>::new(c);
                if old {
                    I::<Hash, Acc, H256, u8>::get_old_vault_replace_requests(&i, who.clone(), at)
                } else {
                    I::<Hash, Acc, H256, u8>::get_new_vault_replace_requests(&i, who.clone(), at)
                }
            })
        }
        8 => {
            use crate::escrow_rpc::EscrowApiServer as I;
            let (who, height) = (Acc::any(s), Option::<u32>::any(s));
            ask::<Bal, _, _>(s, "balance_at", "balance_at", (who.clone(), height).encode(), same, |c, at| {
                I::<Hash, Acc, u32, u128>::balance_at(&crate::escrow_rpc::Escrow::<Client, Block>::new(c), who.clone(), height, at)
            })
        }
        9 => {
            use crate::escrow_rpc::EscrowApiServer as I;
            let who = Acc::any(s);
            ask::<Bal, _, _>(s, "free_stakable", "free_stakable", (who.clone(),).encode(), same, |c, at| {
                I::<Hash, Acc, u32, u128>::free_stakable(&crate::escrow_rpc::Escrow::<Client, Block>::new(c), who.clone(), at)
            })
        }
        10 => {
            use crate::escrow_rpc::EscrowApiServer as I;
            let height = Option::<u32>::any(s);
            ask::<Bal, _, _>(s, "total_supply", "total_supply", (height,).encode(), same, |c, at| {
                I::<Hash, Acc, u32, u128>::total_supply(&crate::escrow_rpc::Escrow::<Client, Block>::new(c), height, at)
            })
        }
        11..=16 => rewards(s),
        _ => vaults(s),
    })
}
fn rewards(s: &mut Src) -> R {
    use crate::reward_rpc::RewardApiServer as I;
    type S = crate::reward_rpc::Reward<Client, Block>;
    let (who, vault) = (Acc::any(s), Vault::any(s));
    let (a, b) = (CurrencyId::any(s), CurrencyId::any(s));
    let amount = Option::<u128>::any(s);
    let time = Option::<u32>::any(s);
    macro_rules! r {
        ($f:ident, $t:ty, [$($x:expr),*]) => {
            ask::<Res<$t>, _, _>(s, stringify!($f), stringify!($f), ($($x.clone(),)*).encode(), result, |c, at| {
                I::<Hash, Acc, Vault, CurrencyId, u128, u32, FixedU128>::$f(&S::new(c), $($x.clone(),)* at)
            })
        };
    }
    match s.below(6) {
        0 => r!(compute_escrow_reward, Bal, [who, a]),
        1 => r!(compute_farming_reward, Bal, [who, a, b]),
        2 => r!(compute_vault_reward, Bal, [vault, a]),
        3 => r!(estimate_escrow_reward_rate, FixedU128, [who, amount, time]),
        4 => r!(estimate_farming_reward, Bal, [who, a, b]),
        _ => r!(estimate_vault_reward_rate, FixedU128, [vault]),
    }
}
fn vaults(s: &mut Src) -> R {
    use crate::vault_registry_rpc::VaultRegistryApiServer as I;
    type S = crate::vault_registry_rpc::VaultRegistry<Client, Block>;
    let (who, vault, c, only) = (Acc::any(s), Vault::any(s), CurrencyId::any(s), bool::any(s));
    let amount = u128::any(s);
    let wrapped = || BalanceWrapper { amount };
    macro_rules! r {
        ($f:ident, $t:ty, [$($x:expr),*]) => {
            ask::<Res<$t>, _, _>(s, stringify!($f), stringify!($f), ($($x,)*).encode(), result, |c, at| {
                I::<Hash, Vault, u128, FixedU128, CurrencyId, Acc>::$f(&S::new(c), $($x,)* at)
            })
        };
    }
    match s.below(10) {
        0 => r!(get_vault_collateral, Bal, [vault.clone()]),
        1 => r!(get_vaults_by_account_id, Vec<Vault>, [who.clone()]),
        2 => r!(get_vault_total_collateral, Bal, [vault.clone()]),
        3 => r!(get_vaults_with_issuable_tokens, Vec<(Vault, Bal)>, []),
        4 => r!(get_vaults_with_redeemable_tokens, Vec<(Vault, Bal)>, []),
        5 => r!(get_issuable_tokens_from_vault, Bal, [vault.clone()]),
        6 => r!(get_collateralization_from_vault, FixedU128, [vault.clone(), only]),
        7 => r!(get_collateralization_from_vault_and_collateral, FixedU128, [vault.clone(), wrapped(), only]),
        8 => r!(get_required_collateral_for_wrapped, Bal, [wrapped(), c]),
        _ => r!(get_required_collateral_for_vault, Bal, [vault.clone()]),
    }
}
fn loans(s: &mut Src) -> R {
    use crate::loans_rpc::LoansApiServer as I;
    type S = crate::loans_rpc::Loans<Client, Block>;
    let (who, c) = (Acc::any(s), CurrencyId::any(s));
    macro_rules! r {
        ($f:ident, $t:ty, [$($x:expr),*]) => {
            ask::<Res<$t>, _, _>(s, stringify!($f), stringify!($f), ($($x.clone(),)*).encode(), result, |c, at| {
                I::<Hash, Acc, u128>::$f(&S::new(c), $($x.clone(),)* at)
            })
        };
    }
    match s.below(3) {
        0 => r!(get_account_liquidity, (FixedU128, FixedU128), [who]),
        1 => r!(get_market_status, (FixedU128, FixedU128, FixedU128, sp_runtime::Permill, u128, u128, FixedU128), [c]),
        _ => r!(get_liquidation_threshold_liquidity, (FixedU128, FixedU128), [who]),
    }
}
impl Any for sp_runtime::Permill {
    fn any(s: &mut Src) -> Self {
        sp_runtime::Permill::from_parts(s.below(1_000_001) as u32)
    }
}
debug!(sp_runtime::Permill);
fn pools(s: &mut Src) -> R {
    use crate::dex_general_rpc::DexGeneralApiServer as G;
    use crate::dex_stable_rpc::DexStableApiServer as I;
    type D = crate::dex_general_rpc::DexGeneral<Client, Block>;
    type S = crate::dex_stable_rpc::DexStable<Client, Block>;
    let (a, b) = (CurrencyId::any(s), CurrencyId::any(s));
    let (x, y, z, w) = (u128::any(s), u128::any(s), u128::any(s), u128::any(s));
    let xs = Vec::<u128>::any(s);
    let path = Vec::<CurrencyId>::any(s);
    let (p, i, j, add) = (u32::any(s), u32::any(s), u32::any(s), bool::any(s));
    macro_rules! d {
        ($f:ident, $t:ty, [$($x:expr),*]) => {
            ask::<$t, _, _>(s, stringify!($f), stringify!($f), ($($x.clone(),)*).encode(), same, |c, at| {
                G::<Hash, Acc, CurrencyId>::$f(&D::new(c), $($x.clone(),)* at)
            })
        };
    }
    macro_rules! r {
        ($f:ident, $t:ty, [$($x:expr),*]) => { r!($f, $t, [$($x),*], same) };
        ($f:ident, $t:ty, [$($x:expr),*], $told:expr) => { r!($f = $f, $t, [$($x),*], [$($x),*], $told) };
        ($f:ident = $g:ident, $t:ty, [$($x:expr),*], [$($h:expr),*], $told:expr) => {
            ask::<$t, _, _>(s, concat!("stable::", stringify!($f)), stringify!($g), ($($h.clone(),)*).encode(), $told, |c, at| {
                I::<Hash, CurrencyId, u128, Acc, u32>::$f(&S::new(c), $($x.clone(),)* at)
            })
        };
    }
    match s.below(21) {
        0 => d!(get_pair_by_asset_id, Option<PairInfo<Acc, u128, CurrencyId>>, [a, b]),
        1 => d!(get_amount_in_price, u128, [x, path]),
        2 => d!(get_amount_out_price, u128, [x, path]),
        3 => d!(get_estimate_lptoken, u128, [a, b, x, y, z, w]),
        4 => d!(calculate_remove_liquidity, Option<(u128, u128)>, [a, b, x]),
        5 => r!(get_virtual_price, u128, [p]),
        6 => r!(get_a, u128, [p]),
        7 => r!(get_a_precise, u128, [p]),
        8 => r!(get_currencies, Vec<CurrencyId>, [p]),
        9 => r!(get_currency, Option<CurrencyId>, [p, i], found),
        10 => r!(get_lp_currency, Option<CurrencyId>, [p], found),
        11 => r!(get_currency_index = get_currencies, Vec<CurrencyId>, [p, a], [p], |v: Vec<CurrencyId>| found(v.iter().position(|c| *c == a).map(|n| n as u32))),
        12 => r!(get_currency_precision_multipliers, Vec<u128>, [p]),
        13 => r!(get_currency_balances, Vec<u128>, [p]),
        14 => r!(get_number_of_currencies, u32, [p]),
        15 => r!(get_admin_balances, Vec<u128>, [p]),
        16 => r!(get_admin_balance = get_admin_balances, Vec<u128>, [p, i], [p], |v: Vec<u128>| found(v.get(i as usize).copied())),
        17 => r!(calculate_currency_amount, u128, [p, xs, add]),
        18 => r!(calculate_swap, u128, [p, i, j, x]),
        19 => r!(calculate_remove_liquidity, Vec<u128>, [p, x]),
        _ => r!(calculate_remove_liquidity_one_currency, u128, [p, x, i]),
    }
}

/// the names by which clients ask
fn names(s: &mut Src) -> R {
    let all: &[(&str, &[(&str, &str)])] = &[
        ("oracle", oracle_rpc::METHODS),
        ("btcRelay", btc_relay_rpc::METHODS),
        ("issue", issue_rpc::METHODS),
        ("redeem", redeem_rpc::METHODS),
        ("replace", replace_rpc::METHODS),
        ("escrow", escrow_rpc::METHODS),
        ("reward", reward_rpc::METHODS),
        ("vaultRegistry", vault_registry_rpc::METHODS),
        ("loans", loans_rpc::METHODS),
        ("dexGeneral", dex_general_rpc::METHODS),
        ("dexStable", dex_stable_rpc::METHODS),
    ];
    let (server, methods) = all[s.idx(all.len())];
    let (f, name) = methods[s.idx(methods.len())];
    s.label(server);
    // a name is that of its server and question; the exceptions have been in use as they are
    let mut parts = f.split('_');
    let mut camel = parts.next().unwrap().to_string();
    for p in parts {
        camel += &p[..1].to_uppercase();
        camel += &p[1..];
    }
    let usual = format!("{server}_{camel}");
    let known = [
        ("vaultRegistry_getIssueableTokensFromVault", "get_issuable_tokens_from_vault"),
        ("loans_getCollateralLiquidity", "get_account_liquidity"),
        ("vaultRegistry_getPremiumRedeemVaults", "get_premium_redeem_vaults"),
    ];
    check!(name == usual || known.contains(&(name, f)), "{f} of {server} is asked for as {name}");
    // nothing else is asked for by this name
    let other = all.iter().flat_map(|(_, m)| m.iter()).filter(|(_, n)| *n == name).count();
    check_eq!(other, 1, "questions asked for as {name}");
    s.nontrivial();
    Ok(())
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C63",
    rule: "the runtime gave an answer that is told; for names: every one",
    assumptions: &[
        "the servers' sources and the interfaces' are compiled as they are; jsonrpsee, the runtime's side (scripted answers) and the block database (three hashes) are stand-ins",
        "the runtime's own answers are C29, C43, C45 and C59",
    ],
    laws: &[
        law!("bitcoin_and_vaults", 20_000, 500_000, bitcoin_and_vaults),
        law!("loans", 10_000, 200_000, loans),
        law!("pools", 30_000, 500_000, pools),
        law!("names", 2_000, 10_000, names),
    ],
    findings: &[],
}];
