//! What other chains, users and contracts may say.
use super::world::*;
use crate::chain::*;
use codec::Encode;
use frame_support::traits::Contains;
use primitives::CurrencyId::{ForeignAsset, Token};
use rt::messages::{self, calls, CurrencyIdConvert, RuntimeCall, SafeCallFilter, Trader};
use sp_runtime::traits::Convert;

fn place(c: CurrencyId) -> Option<MultiLocation> {
    <CurrencyIdConvert as Convert<CurrencyId, Option<MultiLocation>>>::convert(c)
}
fn means(l: MultiLocation) -> Option<CurrencyId> {
    <CurrencyIdConvert as Convert<MultiLocation, Option<CurrencyId>>>::convert(l)
}
fn key(c: CurrencyId) -> Junction {
    let e = c.encode();
    let mut data = [0; 32];
    data[..e.len()].copy_from_slice(&e);
    GeneralKey { length: e.len() as u8, data }
}
fn currency(s: &mut Src) -> CurrencyId {
    use primitives::{LpToken, StablePoolId};
    match s.below(6) {
        0 | 1 => Token(*s.pick(&[primitives::DOT, primitives::IBTC, primitives::INTR, primitives::KSM, primitives::KBTC, primitives::KINT])),
        2 => ForeignAsset(s.below(8) as u32),
        3 => CurrencyId::LendToken(s.below(4) as u32),
        4 => CurrencyId::StableLpToken(s.below(3) as StablePoolId),
        _ => CurrencyId::LpToken(LpToken::Token(*s.pick(&[primitives::KINT, primitives::INTR])), LpToken::ForeignAsset(s.below(3) as u32)),
    }
}
fn junction(s: &mut Src, para: u32) -> Junction {
    match s.below(8) {
        0 => Parachain(para),
        1 => Parachain(*s.pick(&[1000, 2000, para.wrapping_add(1)])),
        2 => PalletInstance(s.below(3) as u8),
        3 => GeneralIndex(s.below(3) as u128),
        4 => AccountId32 { network: None, id: s.arr::<32>() },
        _ => {
            let c = currency(s);
            let GeneralKey { mut length, mut data } = key(c) else { unreachable!() };
            match s.below(8) {
                0 => data[s.idx(length as usize)] ^= 1 << s.below(8),
                1 => length = length.saturating_sub(1 + s.below(2) as u8),
                2 => length = 32 + s.below(3) as u8,
                3 => length = *s.pick(&[255, 0, 1, 31, 32]),
                _ => (),
            }
            GeneralKey { length, data }
        }
    }
}
fn location(s: &mut Src, para: u32) -> MultiLocation {
    let parents = s.weighted(&[4, 6, 1]) as u8;
    let interior = match s.weighted(&[1, 4, 6, 1]) {
        0 => Here,
        1 => X1(junction(s, para)),
        2 => X2(if s.bool() { Parachain(para) } else { junction(s, para) }, junction(s, para)),
        _ => X3(junction(s, para), junction(s, para), junction(s, para)),
    };
    MultiLocation { parents, interior }
}
/// does the chain itself give a meaning, and which: a key is read as far as it goes
fn own(l: &MultiLocation, para: u32) -> Option<(CurrencyId, bool)> {
    let k = match (l.parents, l.interior) {
        (1, Here) => return Some((RELAY, true)),
        (1, X2(Parachain(p), k)) if p == para => k,
        (0, X1(k)) => k,
        _ => return None,
    };
    let GeneralKey { length, data } = k else { return None };
    let known = data.get(..length as usize)?;
    [NATIVE, WRAPPED].into_iter().find(|c| known.starts_with(&c.encode())).map(|c| (c, known == &c.encode()[..]))
}

pub fn places(s: &mut Src) -> R {
    open(|| {
        let any = s.below(10_000) as u32;
        let para = *s.pick(&[2092u32, 2032, 1000, any]);
        let mut assets: Vec<(u32, Option<MultiLocation>, u128)> = vec![];
        for id in 0..s.below(6) as u32 {
            let l = if s.ratio(1, 5) { None } else { Some(location(s, para)) };
            // the registry has one asset at a place, and none at a place of the chain's own
            if l.map_or(true, |l| own(&l, para).is_none() && assets.iter().all(|a| a.1 != Some(l))) {
                assets.push((id, l, s.u128(1_000_000_000_000)));
            }
        }
        WORLD.with(|w| *w.borrow_mut() = World { para, assets: assets.clone(), paused: vec![] });
        s.note(|| format!("chain {para} with {assets:?}"));
        // to its place and back
        let mut known = vec![
            (NATIVE, MultiLocation::new(1, X2(Parachain(para), key(NATIVE)))),
            (WRAPPED, MultiLocation::new(1, X2(Parachain(para), key(WRAPPED)))),
            (RELAY, MultiLocation::new(1, Here)),
        ];
        known.extend(assets.iter().filter_map(|a| a.1.map(|l| (ForeignAsset(a.0), l))));
        for (c, l) in &known {
            check_eq!(guarded(|| place(*c))?, Some(*l), "the place of {c:?}");
            check_eq!(guarded(|| means(*l))?, Some(*c), "what {l:?} means");
        }
        for c in [NATIVE, WRAPPED] {
            let l = MultiLocation::new(0, X1(key(c)));
            check_eq!(guarded(|| means(l))?, Some(c), "what {l:?}, as seen from here, means");
            check_eq!((messages::canonical_currency_location(c), Some(messages::non_canonical_currency_location(c))), (l, place(c)), "the two names of {c:?}");
        }
        for _ in 0..4 {
            let c = currency(s);
            if known.iter().all(|k| k.0 != c) {
                check_eq!(guarded(|| place(c))?, None, "the place of {c:?}");
            }
        }
        let base = <Trader as Takes>::rate(&MultiLocation::parent()).unwrap_or(0);
        for _ in 0..6 {
            let l = location(s, para);
            let got = guarded(|| means(l))?;
            let want = own(&l, para).or(known.iter().find(|k| k.1 == l).map(|k| (k.0, true)));
            match want {
                // a key with more behind the currency may mean it or nothing
                Some((c, false)) => check!(got == Some(c) || got.is_none(), "{l:?} means {got:?}, not {c:?}"),
                _ => check_eq!(got, want.map(|w| w.0), "what {l:?} means"),
            }
            let n = s.u128(1_000_000_000);
            let asset = |fun| MultiAsset { id: Concrete(l), fun };
            for a in [asset(Fungible(n)), asset(NonFungible(1))] {
                check_eq!(<CurrencyIdConvert as Convert<MultiAsset, Option<CurrencyId>>>::convert(a.clone()), got, "what the asset {a:?} means");
            }
            check_eq!(
                <CurrencyIdConvert as Convert<MultiAsset, Option<CurrencyId>>>::convert(MultiAsset { id: Abstract([0; 32]), fun: Fungible(n) }),
                None,
                "what an abstract asset means"
            );
            // its fee
            let rate = <Trader as Takes>::rate(&l);
            let fee = match want {
                Some((c, true)) if c == RELAY => Some(base),
                Some((c, true)) if c == NATIVE => Some(base * 4 / 3),
                Some((c, true)) if c == WRAPPED => Some(base / WRAPPED_PER),
                Some((ForeignAsset(i), _)) => assets.iter().find(|a| a.0 == i).map(|a| a.2),
                _ => None,
            };
            if want.map_or(true, |w| w.1) {
                check_eq!(rate, fee, "what a second costs, in {l:?}");
            }
            // what was taken goes to the author or the treasury
            let author = if s.bool() { Some(user(1)) } else { None };
            rt::set_author(author.clone());
            let to = if FEES_TO_AUTHOR { author.unwrap_or_else(TreasuryAccount::get) } else { TreasuryAccount::get() };
            let takers = <Trader as Count>::N;
            let before = got.map(|c| (bal(c, &to), issuance(c)));
            let whole = s.ratio(5, 6);
            guarded(|| <Trader as Takes>::take(asset(if whole { Fungible(n) } else { NonFungible(1) })))?;
            let after = got.map(|c| (bal(c, &to), issuance(c)));
            let n = if whole { n * takers } else { 0 };
            check_eq!(after, before.map(|(b, i)| (b + n, i + n)), "(balance of {to:?}, supply) after {takers} times a fee of {n} in all in {got:?}");
            if want.is_some() {
                s.nontrivial();
            }
            // the least fee that is sent along
            let min = <messages::ParachainMinFee as orml_traits::GetByKey<MultiLocation, Option<u128>>>::get(&l);
            let statemint = l.parents == 1 && l.first_interior() == Some(&Parachain(1000));
            check_eq!(min, if statemint { Some(500_000_000) } else { None }, "the least fee to {l:?}");
        }
        let id = s.arr::<32>();
        check_eq!(
            messages::AccountIdToMultiLocation::convert(AccountId::new(id)),
            MultiLocation::new(0, X1(AccountId32 { network: None, id })),
            "the place of an account"
        );
        Ok(())
    })
}

pub fn filters(s: &mut Src) -> R {
    let all = calls::all();
    let names: Vec<&'static str> = all.iter().map(|c| c.name()).chain(["PolkadotXcm"]).collect();
    let mut paused: Vec<&'static str> = names.iter().filter(|_| s.bool()).cloned().collect();
    if s.ratio(1, 8) {
        paused = names.clone();
    }
    WORLD.with(|w| *w.borrow_mut() = World { paused: paused.clone(), ..Default::default() });
    s.note(|| format!("paused: {paused:?}"));
    let core = ["System", "Session", "Timestamp", "ParachainSystem", "Sudo", "Democracy", "Escrow", "TechnicalCommittee"];
    for n in core {
        check!(names.contains(&n), "no pallet {n}");
    }
    // what recurses, and what reads transactions of any length
    let barred = ["Sudo", "Proxy", "Multisig", "Utility", "Issue", "Replace", "Redeem", "BTCRelay"];
    for c in &all {
        let n = c.name();
        let want = core.contains(&n) || n != "EVM" && !paused.contains(&n);
        check_eq!(messages::user::BaseCallFilter::contains(c), want, "may a user call {n}, with paused {paused:?}");
        check_eq!(SafeCallFilter::contains(c), !barred.contains(&n), "may another chain call {n}");
    }
    use pallet_xcm::Call::*;
    for c in [
        teleport_assets { to: 0 },
        reserve_transfer_assets { to: 0 },
        execute { to: 0 },
        force_xcm_version { to: 0 },
        force_default_xcm_version { to: 0 },
        force_subscribe_version_notify { to: 0 },
        force_unsubscribe_version_notify { to: 0 },
        limited_reserve_transfer_assets { to: 0 },
        limited_teleport_assets { to: 0 },
        force_suspension { to: 0 },
    ] {
        let c = RuntimeCall::PolkadotXcm(c);
        check!(!messages::user::BaseCallFilter::contains(&c), "a user may call {c:?}");
    }
    check!(messages::user::BaseCallFilter::contains(&RuntimeCall::PolkadotXcm(send { to: 0 })), "a user may not send a message");
    if !paused.is_empty() && paused.len() < names.len() {
        s.nontrivial();
    }
    Ok(())
}
