//! C10..C12: the types every part of the system stores and exchanges
use codec::{Decode, Encode, MaxEncodedLen};
use interbtc_primitives::{
    issue::{IssueRequest, IssueRequestStatus},
    oracle::Key,
    redeem::{RedeemRequest, RedeemRequestStatus},
    replace::{ReplaceRequest, ReplaceRequestStatus},
    *,
};
use pbt::{check, check_eq, fail, guarded, law, Prop, Src, R};
use primitive_types::{H160, H256};
use serde_json::{json, Value};
use sp_runtime::{traits::Zero, FixedU128};
use std::convert::{TryFrom, TryInto};

/// the table of tokens: code, ticker, name, decimals
const TOKENS: [(u8, &str, &str, u8); 6] = [
    (0, "DOT", "Polkadot", 10),
    (1, "IBTC", "interBTC", 8),
    (2, "INTR", "Interlay", 10),
    (10, "KSM", "Kusama", 12),
    (11, "KBTC", "kBTC", 8),
    (12, "KINT", "Kintsugi", 12),
];
const SYMBOLS: [TokenSymbol; 6] = [DOT, IBTC, INTR, KSM, KBTC, KINT];

fn row(t: TokenSymbol) -> (u8, &'static str, &'static str, u8) {
    TOKENS[SYMBOLS.iter().position(|x| *x == t).unwrap()]
}

fn lp(s: &mut Src) -> LpToken {
    match s.below(3) {
        0 => LpToken::Token(*s.pick(&SYMBOLS)),
        1 => LpToken::ForeignAsset(s.u32()),
        _ => LpToken::StableLpToken(s.u32()),
    }
}

fn currency(s: &mut Src) -> CurrencyId {
    match s.below(5) {
        0 => CurrencyId::Token(*s.pick(&SYMBOLS)),
        1 => CurrencyId::ForeignAsset(s.u32()),
        2 => CurrencyId::LendToken(s.u32()),
        3 => CurrencyId::LpToken(lp(s), lp(s)),
        _ => CurrencyId::StableLpToken(s.u32()),
    }
}

/// near relatives of a currency: other kinds with the same number, the pair the other way round
fn relative(s: &mut Src, c: CurrencyId) -> CurrencyId {
    let n = match c {
        CurrencyId::ForeignAsset(n) | CurrencyId::LendToken(n) | CurrencyId::StableLpToken(n) => n,
        CurrencyId::Token(t) => row(t).0 as u32,
        CurrencyId::LpToken(x, y) => {
            return match s.below(3) {
                0 => CurrencyId::LpToken(y, x),
                1 => CurrencyId::LpToken(x, lp(s)),
                _ => x.into(),
            }
        }
    };
    match s.below(5) {
        0 => CurrencyId::ForeignAsset(n),
        1 => CurrencyId::LendToken(n),
        2 => CurrencyId::StableLpToken(n),
        3 => CurrencyId::ForeignAsset(n.wrapping_add(1)),
        _ => CurrencyId::LendToken(n ^ (1 << s.below(32))),
    }
}

fn m_lp(l: &LpToken, v: &mut Vec<u8>) {
    match l {
        LpToken::Token(t) => v.extend([0, row(*t).0]),
        LpToken::ForeignAsset(n) => {
            v.push(1);
            v.extend(n.to_le_bytes());
        }
        LpToken::StableLpToken(n) => {
            v.push(2);
            v.extend(n.to_le_bytes());
        }
    }
}

/// the stored form of a currency
fn m_cur(c: &CurrencyId) -> Vec<u8> {
    let mut v = vec![];
    match c {
        CurrencyId::Token(t) => v.extend([0, row(*t).0]),
        CurrencyId::ForeignAsset(n) => {
            v.push(1);
            v.extend(n.to_le_bytes());
        }
        CurrencyId::LendToken(n) => {
            v.push(2);
            v.extend(n.to_le_bytes());
        }
        CurrencyId::LpToken(x, y) => {
            v.push(3);
            m_lp(x, &mut v);
            m_lp(y, &mut v);
        }
        CurrencyId::StableLpToken(n) => {
            v.push(4);
            v.extend(n.to_le_bytes());
        }
    }
    v
}

fn j_lp(l: &LpToken) -> Value {
    match l {
        LpToken::Token(t) => json!({ "token": row(*t).1 }),
        LpToken::ForeignAsset(n) => json!({ "foreignAsset": n }),
        LpToken::StableLpToken(n) => json!({ "stableLpToken": n }),
    }
}

/// the JSON form of a currency
fn j_cur(c: &CurrencyId) -> Value {
    match c {
        CurrencyId::Token(t) => json!({ "token": row(*t).1 }),
        CurrencyId::ForeignAsset(n) => json!({ "foreignAsset": n }),
        CurrencyId::LendToken(n) => json!({ "lendToken": n }),
        CurrencyId::LpToken(x, y) => json!({ "lpToken": [j_lp(x), j_lp(y)] }),
        CurrencyId::StableLpToken(n) => json!({ "stableLpToken": n }),
    }
}

/// reads a currency from the start of `b`: the value and how many bytes it took
fn m_read(b: &[u8]) -> Option<(CurrencyId, usize)> {
    fn tok(b: &[u8]) -> Option<TokenSymbol> {
        let i = TOKENS.iter().position(|r| Some(&r.0) == b.first())?;
        Some(SYMBOLS[i])
    }
    fn num(b: &[u8]) -> Option<u32> {
        Some(u32::from_le_bytes(b.get(..4)?.try_into().ok()?))
    }
    fn one(b: &[u8]) -> Option<(LpToken, usize)> {
        Some(match b.first()? {
            0 => (LpToken::Token(tok(&b[1..])?), 2),
            1 => (LpToken::ForeignAsset(num(&b[1..])?), 5),
            2 => (LpToken::StableLpToken(num(&b[1..])?), 5),
            _ => return None,
        })
    }
    Some(match b.first()? {
        0 => (CurrencyId::Token(tok(&b[1..])?), 2),
        1 => (CurrencyId::ForeignAsset(num(&b[1..])?), 5),
        2 => (CurrencyId::LendToken(num(&b[1..])?), 5),
        3 => {
            let (x, n) = one(&b[1..])?;
            let (y, m) = one(&b[1 + n..])?;
            (CurrencyId::LpToken(x, y), 1 + n + m)
        }
        4 => (CurrencyId::StableLpToken(num(&b[1..])?), 5),
        _ => return None,
    })
}

struct Reg {
    registry: scale_info::PortableRegistry,
    currency: u32,
    lp: u32,
    symbol: u32,
}

thread_local! {
    static REG: Reg = {
        let mut r = scale_info::Registry::new();
        let currency = r.register_type(&scale_info::meta_type::<CurrencyId>()).id;
        let lp = r.register_type(&scale_info::meta_type::<LpToken>()).id;
        let symbol = r.register_type(&scale_info::meta_type::<TokenSymbol>()).id;
        Reg { registry: r.into(), currency, lp, symbol }
    };
}

fn c10_codec(s: &mut Src) -> R {
    let c = currency(s);
    s.nontrivial();
    s.note(|| format!("{c:?}"));
    s.sample(|| format!("{c:?}"));
    let want = m_cur(&c);
    check_eq!(c.encode(), want, "stored form");
    check!(want.len() <= CurrencyId::max_encoded_len(), "longer than its declared maximum");
    check_eq!(c.encoded_size(), want.len(), "declared size");
    let mut long = want.clone();
    long.extend(s.bytes(0, 4));
    let mut input = &long[..];
    check_eq!(CurrencyId::decode(&mut input), Ok(c), "read back");
    check_eq!(input.len(), long.len() - want.len(), "bytes left");
    let cut = s.idx(want.len());
    check!(CurrencyId::decode(&mut &want[..cut]).is_err(), "accepted cut to {cut} bytes");
    // JSON
    let js = serde_json::to_value(c).map_err(|e| e.to_string())?;
    check_eq!(js, j_cur(&c), "JSON form");
    check_eq!(serde_json::from_value::<CurrencyId>(js).ok(), Some(c), "read from JSON");
    // the self-describing codec clients use
    REG.with(|r| {
        use scale_decode::DecodeAsType;
        use scale_encode::EncodeAsType;
        let b = c.encode_as_type(r.currency, &r.registry).map_err(|e| e.to_string())?;
        check_eq!(b, want, "client encoding");
        let back = CurrencyId::decode_as_type(&mut &want[..], r.currency, &r.registry).map_err(|e| e.to_string())?;
        check_eq!(back, c, "client decoding");
        if let CurrencyId::LpToken(x, _) = c {
            let b = x.encode_as_type(r.lp, &r.registry).map_err(|e| e.to_string())?;
            check_eq!(b, x.encode(), "client encoding");
        }
        if let CurrencyId::Token(t) = c {
            let b = t.encode_as_type(r.symbol, &r.registry).map_err(|e| e.to_string())?;
            check_eq!(b, vec![row(t).0], "client encoding");
        }
        Ok(())
    })?;
    // as part of keys
    let k = Key::ExchangeRate(c);
    let mut want = vec![0];
    want.extend(m_cur(&c));
    check_eq!(k.encode(), want, "stored form of an oracle key");
    check_eq!(Key::decode(&mut &want[..]), Ok(k.clone()), "oracle key");
    check_eq!(serde_json::to_value(&k).ok(), Some(json!({ "exchangeRate": j_cur(&c) })), "JSON of an oracle key");
    Ok(())
}

fn c10_decode(s: &mut Src) -> R {
    let mut b = if s.bool() { m_cur(&currency(s)) } else { s.bytes(0, 14) };
    s.repeat(0, 3, |s| {
        if !b.is_empty() {
            let i = s.idx(b.len().min(4));
            b[i] = s.below(16) as u8;
        }
    });
    s.note(|| format!("{b:?}"));
    let got = guarded(|| {
        let mut i = &b[..];
        CurrencyId::decode(&mut i).ok().map(|c| (c, b.len() - i.len()))
    })?;
    let want = m_read(&b);
    if want.is_some() {
        s.nontrivial();
        s.sample(|| format!("{b:?}"));
    }
    check_eq!(got, want, "reading bytes as a currency");
    Ok(())
}

fn c10_symbol(s: &mut Src) -> R {
    let n = s.below(256) as u8;
    let r = TOKENS.iter().position(|r| r.0 == n);
    s.note(|| format!("{n}"));
    s.nontrivial();
    check_eq!(TokenSymbol::try_from(n).ok(), r.map(|i| SYMBOLS[i]), "token of code {n}");
    let i = s.idx(6);
    let (t, r) = (SYMBOLS[i], TOKENS[i]);
    let code: u8 = t.into();
    check_eq!(code, r.0, "code of {t:?}");
    check_eq!(CurrencyInfo::symbol(&t), r.1, "ticker");
    check_eq!(CurrencyInfo::name(&t), r.2, "name");
    check_eq!(CurrencyInfo::decimals(&t), r.3, "decimals");
    check_eq!(t.one(), 10u128.pow(r.3 as u32), "one unit");
    check_eq!(TokenSymbol::get_info()[i], (r.1, r.3 as u32), "info");
    check_eq!(TokenSymbol::get_info().len(), 6, "number of tokens");
    // tickers
    let mut name = r.1.as_bytes().to_vec();
    check_eq!(TokenSymbol::try_from(name.clone()), Ok(t), "token of its ticker");
    match s.below(4) {
        0 => {
            name.pop();
        }
        1 => name.push(s.below(128) as u8),
        2 => {
            let i = s.idx(name.len());
            name[i] = s.below(128) as u8;
        }
        _ => name = s.bytes(0, 5),
    }
    let want = TOKENS.iter().position(|r| r.1.as_bytes() == &name[..]).map(|i| SYMBOLS[i]);
    check_eq!(TokenSymbol::try_from(name).ok(), want, "token of a ticker");
    Ok(())
}

fn is_pool(c: &CurrencyId) -> bool {
    matches!(c, CurrencyId::Token(_) | CurrencyId::ForeignAsset(_) | CurrencyId::StableLpToken(_))
}

fn as_lp(c: &CurrencyId) -> Option<LpToken> {
    Some(match c {
        CurrencyId::Token(t) => LpToken::Token(*t),
        CurrencyId::ForeignAsset(n) => LpToken::ForeignAsset(*n),
        CurrencyId::StableLpToken(n) => LpToken::StableLpToken(*n),
        _ => return None,
    })
}

fn rank(l: &LpToken) -> (u8, u32) {
    match l {
        LpToken::Token(t) => (0, row(*t).0 as u32),
        LpToken::ForeignAsset(n) => (1, *n),
        LpToken::StableLpToken(n) => (2, *n),
    }
}

fn c11_join(s: &mut Src) -> R {
    let a = if s.ratio(3, 4) { lp(s).into() } else { currency(s) };
    let b = if s.bool() {
        relative(s, a)
    } else if s.ratio(3, 4) {
        lp(s).into()
    } else {
        currency(s)
    };
    s.note(|| format!("{a:?} {b:?}"));
    let j = CurrencyId::join_lp_token(a, b);
    check_eq!(a.is_lp_token(), is_pool(&a), "can be pooled");
    check_eq!(a.is_lend_token(), matches!(a, CurrencyId::LendToken(_)), "is lent");
    check_eq!(j.is_some(), is_pool(&a) && is_pool(&b), "has a pool token");
    let Some(mut j) = j else { return Ok(()) };
    s.nontrivial();
    s.sample(|| format!("{a:?} {b:?}"));
    check_eq!(j, CurrencyId::LpToken(as_lp(&a).unwrap(), as_lp(&b).unwrap()), "pair in the given order");
    if let CurrencyId::LpToken(x, y) = j {
        let (x, y): (CurrencyId, CurrencyId) = (x.into(), y.into());
        check_eq!((x, y), (a, b), "the pair tells its tokens");
    }
    let mut k = CurrencyId::join_lp_token(b, a).ok_or("no pool token the other way round")?;
    j.sort();
    k.sort();
    check_eq!(j, k, "one pool token for either order");
    if let CurrencyId::LpToken(x, y) = j {
        check!(rank(&x) <= rank(&y), "not sorted: {j:?}");
        let (x, y): (CurrencyId, CurrencyId) = (x.into(), y.into());
        check!((x, y) == (a, b) || (x, y) == (b, a), "sorting {a:?} {b:?} gives {x:?} {y:?}");
    } else {
        fail!("sorting a pair gives {j:?}");
    }
    let mut again = j;
    again.sort();
    check_eq!(again, j, "sorting twice");
    let mut plain = a;
    plain.sort();
    check_eq!(plain, a, "sorting a single currency");
    Ok(())
}

fn c11_order(s: &mut Src) -> R {
    let a = currency(s);
    let b = if s.bool() { relative(s, a) } else { currency(s) };
    let c = if s.bool() { relative(s, b) } else { currency(s) };
    s.nontrivial();
    s.note(|| format!("{a:?} {b:?} {c:?}"));
    s.sample(|| format!("{a:?} {b:?} {c:?}"));
    fn key(c: &CurrencyId) -> (u8, (u8, u32), (u8, u32)) {
        match c {
            CurrencyId::Token(t) => (0, (row(*t).0, 0), (0, 0)),
            CurrencyId::ForeignAsset(n) => (1, (0, *n), (0, 0)),
            CurrencyId::LendToken(n) => (2, (0, *n), (0, 0)),
            CurrencyId::LpToken(x, y) => (3, rank(x), rank(y)),
            CurrencyId::StableLpToken(n) => (4, (0, *n), (0, 0)),
        }
    }
    for (x, y) in [(a, b), (b, c), (a, c)] {
        check_eq!(x.cmp(&y), key(&x).cmp(&key(&y)), "order of {x:?} and {y:?}");
        check_eq!(x.partial_cmp(&y), Some(key(&x).cmp(&key(&y))), "order of {x:?} and {y:?}");
        check_eq!(x == y, key(&x) == key(&y), "equality of {x:?} and {y:?}");
        check_eq!(x == y, x.encode() == y.encode(), "equal exactly when stored alike");
        check_eq!(
            x == y,
            serde_json::to_string(&x).unwrap() == serde_json::to_string(&y).unwrap(),
            "equal exactly when written alike"
        );
    }
    Ok(())
}

// ---- requests

type Acc = AccountId;

fn account(s: &mut Src) -> Acc {
    Acc::new(s.arr())
}
fn vault(s: &mut Src) -> VaultId<Acc, CurrencyId> {
    VaultId::new(account(s), currency(s), currency(s))
}
fn address(s: &mut Src) -> bitcoin::Address {
    match s.below(4) {
        0 => bitcoin::Address::P2PKH(H160(s.arr())),
        1 => bitcoin::Address::P2SH(H160(s.arr())),
        2 => bitcoin::Address::P2WPKHv0(H160(s.arr())),
        _ => bitcoin::Address::P2WSHv0(H256(s.arr())),
    }
}
fn m_vault(v: &VaultId<Acc, CurrencyId>) -> Vec<u8> {
    let mut b = v.account_id.encode();
    b.extend(m_cur(&v.currencies.collateral));
    b.extend(m_cur(&v.currencies.wrapped));
    b
}
fn amount(s: &mut Src) -> u128 {
    s.u128(u128::MAX)
}

fn has(v: &Value, k: &str, n: u128) -> R {
    check_eq!(v[k], Value::String(n.to_string()), "JSON of {k}");
    Ok(())
}

/// common to the requests: the stored form is exactly `want`, both forms read back, and cuts are refused
fn forms<T>(s: &mut Src, t: &T, want: Vec<u8>) -> Result<Value, String>
where
    T: Encode + Decode + PartialEq + serde::Serialize + serde::de::DeserializeOwned + MaxEncodedLen,
{
    check!(t.encode() == want, "stored form {:?} not {:?}", t.encode(), want);
    check!(want.len() <= T::max_encoded_len(), "longer than its declared maximum");
    let back = guarded(|| T::decode(&mut &want[..]))?.map_err(|e| e.to_string())?;
    check!(back == *t, "changed by storing");
    let cut = s.idx(want.len());
    check!(guarded(|| T::decode(&mut &want[..cut]).is_err())?, "accepted cut to {cut} bytes");
    let js = serde_json::to_string(t).map_err(|e| e.to_string())?;
    let back: T = serde_json::from_str(&js).map_err(|e| format!("{e} reading {js}"))?;
    check!(back == *t, "changed by JSON {js}");
    let back: T = serde_json::from_str(&js.replace(':', ": ")).map_err(|e| e.to_string())?;
    check!(back == *t, "changed by spaced JSON");
    Ok(serde_json::from_str(&js).unwrap())
}

fn c12_issue(s: &mut Src) -> R {
    let (status, code) = match s.below(3) {
        0 => (IssueRequestStatus::Pending, 0u8),
        1 => (IssueRequestStatus::Completed, 1),
        _ => (IssueRequestStatus::Cancelled, 2),
    };
    let mut key = [0u8; 33];
    key[0] = 2 + s.below(2) as u8;
    key[1..].copy_from_slice(&s.raw(32));
    let r = IssueRequest::<Acc, u32, u128, CurrencyId> {
        vault: vault(s),
        opentime: s.u32(),
        period: s.u32(),
        griefing_collateral: amount(s),
        griefing_currency: currency(s),
        amount: amount(s),
        fee: amount(s),
        requester: account(s),
        btc_address: address(s),
        btc_public_key: bitcoin::PublicKey(key),
        btc_height: s.u32(),
        status,
    };
    s.nontrivial();
    s.note(|| format!("{r:?}"));
    s.sample(|| format!("{} {} {}", r.griefing_collateral, r.amount, r.fee));
    let mut w = m_vault(&r.vault);
    w.extend(r.opentime.to_le_bytes());
    w.extend(r.period.to_le_bytes());
    w.extend(r.griefing_collateral.to_le_bytes());
    w.extend(m_cur(&r.griefing_currency));
    w.extend(r.amount.to_le_bytes());
    w.extend(r.fee.to_le_bytes());
    w.extend(r.requester.encode());
    w.extend(r.btc_address.encode());
    w.extend(key);
    w.extend(r.btc_height.to_le_bytes());
    w.push(code);
    let v = forms(s, &r, w)?;
    has(&v, "griefing_collateral", r.griefing_collateral)?;
    has(&v, "amount", r.amount)?;
    has(&v, "fee", r.fee)?;
    check_eq!(v["status"], json!(["pending", "completed", "cancelled"][code as usize]), "status");
    check_eq!(v["griefing_currency"], j_cur(&r.griefing_currency), "currency");
    check_eq!(v["vault"]["currencies"]["collateral"], j_cur(&r.vault.currencies.collateral), "collateral currency");
    check_eq!(v["vault"]["currencies"]["wrapped"], j_cur(&r.vault.currencies.wrapped), "wrapped currency");
    check_eq!(IssueRequestStatus::default(), IssueRequestStatus::Pending, "default");
    let (a, p) = (r.vault.account_id.clone(), r.vault.currencies.clone());
    check_eq!(r.vault.collateral_currency(), p.collateral, "collateral currency");
    check_eq!(r.vault.wrapped_currency(), p.wrapped, "wrapped currency");
    check_eq!(VaultId::from_pair(a.clone(), p.clone()), r.vault, "from a pair");
    check_eq!(VaultId::from((a, p)), r.vault, "from a pair");
    Ok(())
}

fn c12_redeem(s: &mut Src) -> R {
    let (status, code, js) = match s.below(5) {
        0 => (RedeemRequestStatus::Pending, vec![0u8], json!("pending")),
        1 => (RedeemRequestStatus::Completed, vec![1], json!("completed")),
        2 => (RedeemRequestStatus::Reimbursed(false), vec![2, 0], json!({ "reimbursed": false })),
        3 => (RedeemRequestStatus::Reimbursed(true), vec![2, 1], json!({ "reimbursed": true })),
        _ => (RedeemRequestStatus::Retried, vec![3], json!("retried")),
    };
    let r = RedeemRequest::<Acc, u32, u128, CurrencyId> {
        vault: vault(s),
        opentime: s.u32(),
        period: s.u32(),
        fee: amount(s),
        transfer_fee_btc: amount(s),
        amount_btc: amount(s),
        premium: amount(s),
        redeemer: account(s),
        btc_address: address(s),
        btc_height: s.u32(),
        status,
    };
    s.nontrivial();
    s.note(|| format!("{r:?}"));
    s.sample(|| format!("{} {} {} {}", r.fee, r.transfer_fee_btc, r.amount_btc, r.premium));
    let mut w = m_vault(&r.vault);
    w.extend(r.opentime.to_le_bytes());
    w.extend(r.period.to_le_bytes());
    for n in [r.fee, r.transfer_fee_btc, r.amount_btc, r.premium] {
        w.extend(n.to_le_bytes());
    }
    w.extend(r.redeemer.encode());
    w.extend(r.btc_address.encode());
    w.extend(r.btc_height.to_le_bytes());
    w.extend(code);
    let v = forms(s, &r, w)?;
    has(&v, "fee", r.fee)?;
    has(&v, "transfer_fee_btc", r.transfer_fee_btc)?;
    has(&v, "amount_btc", r.amount_btc)?;
    has(&v, "premium", r.premium)?;
    check_eq!(v["status"], js, "status");
    Ok(())
}

fn c12_replace(s: &mut Src) -> R {
    let (status, code) = match s.below(3) {
        0 => (ReplaceRequestStatus::Pending, 0u8),
        1 => (ReplaceRequestStatus::Completed, 1),
        _ => (ReplaceRequestStatus::Cancelled, 2),
    };
    let r = ReplaceRequest::<Acc, u32, u128, CurrencyId> {
        old_vault: vault(s),
        new_vault: vault(s),
        amount: amount(s),
        griefing_collateral: amount(s),
        collateral: amount(s),
        accept_time: s.u32(),
        period: s.u32(),
        btc_address: address(s),
        btc_height: s.u32(),
        status,
    };
    s.nontrivial();
    s.note(|| format!("{r:?}"));
    s.sample(|| format!("{} {} {}", r.amount, r.griefing_collateral, r.collateral));
    let mut w = m_vault(&r.old_vault);
    w.extend(m_vault(&r.new_vault));
    for n in [r.amount, r.griefing_collateral, r.collateral] {
        w.extend(n.to_le_bytes());
    }
    w.extend(r.accept_time.to_le_bytes());
    w.extend(r.period.to_le_bytes());
    w.extend(r.btc_address.encode());
    w.extend(r.btc_height.to_le_bytes());
    w.push(code);
    let v = forms(s, &r, w)?;
    has(&v, "amount", r.amount)?;
    has(&v, "griefing_collateral", r.griefing_collateral)?;
    has(&v, "collateral", r.collateral)?;
    check_eq!(v["status"], json!(["pending", "completed", "cancelled"][code as usize]), "status");
    Ok(())
}

fn c12_balance(s: &mut Src) -> R {
    let n = amount(s);
    s.nontrivial();
    s.note(|| n.to_string());
    s.sample(|| n.to_string());
    let w = BalanceWrapper { amount: n };
    check_eq!(w.encode(), n.to_le_bytes().to_vec(), "stored form");
    let js = serde_json::to_string(&w).map_err(|e| e.to_string())?;
    check_eq!(js, format!("{{\"amount\":\"{n}\"}}"), "JSON form");
    let back: BalanceWrapper<u128> = serde_json::from_str(&js).map_err(|e| e.to_string())?;
    check_eq!(back.amount, n, "from JSON");
    let rate = FixedU128::from_inner(n);
    let js = serde_json::to_string(&BalanceWrapper { amount: rate }).map_err(|e| e.to_string())?;
    // FixedU128 prints for debugging only, but its JSON must be a string
    check!(js.starts_with("{\"amount\":\""), "JSON form {js}");
    // texts that are no amount are refused
    let text = match s.below(4) {
        0 => format!("-{}", n.max(1)),
        1 => format!("{n}.0"),
        2 => format!("{}{}", u128::MAX, s.below(10)),
        _ => String::from_utf8_lossy(&s.bytes(0, 6)).into_owned(),
    };
    let want = text.parse::<u128>().ok();
    let js = json!({ "amount": text }).to_string();
    let got = guarded(|| serde_json::from_str::<BalanceWrapper<u128>>(&js).ok().map(|b| b.amount))?;
    check_eq!(got, want, "reading {js}");
    Ok(())
}

fn c12_fixed(s: &mut Src) -> R {
    const ONE: u128 = 1_000_000_000_000_000_000;
    let top = i128::MAX as u128 / ONE;
    let n = match s.below(3) {
        0 => amount(s),
        1 => top.saturating_add(s.below(5) as u128) - 2,
        _ => s.u128(top),
    };
    s.nontrivial();
    s.note(|| n.to_string());
    s.sample(|| n.to_string());
    let f: Option<SignedFixedPoint> = guarded(|| n.to_fixed())?;
    check_eq!(f.map(|f| f.into_inner()), if n <= top { Some((n * ONE) as i128) } else { None }, "to fixed point");
    if let Some(f) = f {
        check_eq!(guarded(|| f.truncate_to_inner())?, Some(n as i128), "and back");
        let g = SignedFixedPoint::from_inner(f.into_inner().saturating_neg());
        check_eq!(guarded(|| g.truncate_to_inner())?, Some(-(n as i128)), "and back, negative");
    }
    let inner = amount(s);
    let u = UnsignedFixedPoint::from_inner(inner);
    check_eq!(guarded(|| u.truncate_to_inner())?, Some(inner / ONE), "whole part");
    let i = SignedFixedPoint::from_inner(inner as i128);
    let got = guarded(|| i.truncate_to_inner())?.ok_or("no whole part")?;
    let abs = (inner as i128).unsigned_abs() / ONE;
    let want = if (inner as i128) < 0 { -(abs as i128) } else { abs as i128 };
    check_eq!(got, want, "whole part, towards zero");
    check!(SignedFixedPoint::zero().truncate_to_inner() == Some(0), "zero");
    Ok(())
}

const CUR: &str = "Cases are currencies of every kind with any number in them, near relatives of them (another kind with the same number, \
the pair the other way round, one bit changed), and their encodings edited or arbitrary bytes. Non-trivial: any generated currency; for \
arbitrary bytes, bytes that do read as a currency; for pairs, both can be pooled. Distinct by generator choices.";

fn main() {
    pbt::main(&[
        Prop {
            id: "C10",
            rule: CUR,
            assumptions: &["the table of tokens and their codes is the one in use on chain at the pinned commit"],
            laws: &[
                law!("codec", 240_000, 600_000, c10_codec),
                law!("decode", 150_000, 400_000, c10_decode),
                law!("symbol", 240_000, 600_000, c10_symbol),
            ],
            findings: &[],
        },
        Prop {
            id: "C11",
            rule: CUR,
            assumptions: &[],
            laws: &[law!("join", 600_000, 1_600_000, c11_join), law!("order", 400_000, 1_200_000, c11_order)],
            findings: &[],
        },
        Prop {
            id: "C12",
            rule: "Cases are requests with every field arbitrary (amounts over the whole 128 bit range), balances and texts, and \
numbers around the largest a fixed point number holds. Every case is non-trivial; distinct by generator choices.",
            assumptions: &["field order and names of the stored and JSON forms are those at the pinned commit, on which storage and clients depend"],
            laws: &[
                law!("issue", 100_000, 240_000, c12_issue),
                law!("redeem", 100_000, 240_000, c12_redeem),
                law!("replace", 100_000, 240_000, c12_replace),
                law!("balance", 200_000, 600_000, c12_balance),
                law!("fixed", 400_000, 1_200_000, c12_fixed),
            ],
            findings: &[],
        },
    ])
}
