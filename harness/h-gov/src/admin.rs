//! What the root switches off, and which client is current.
use crate::rt::*;
use frame_support::traits::{Contains, GetCallMetadata, Hooks};
use pbt::{check, check_eq, Src, R};
use std::collections::{BTreeMap, BTreeSet};

type Name = (Vec<u8>, Option<Vec<u8>>);
fn calls() -> Vec<RuntimeCall> {
    let none = || (Default::default(), None);
    vec![
        RuntimeCall::Escrow(escrow::Call::withdraw {}),
        RuntimeCall::Escrow(escrow::Call::increase_amount { amount: 1 }),
        RuntimeCall::Escrow(escrow::Call::increase_unlock_height { unlock_height: 1 }),
        RuntimeCall::Farming(farming::Call::claim { pool_currency_id: Token(DOT), reward_currency_id: Token(INTR) }),
        RuntimeCall::Farming(farming::Call::withdraw { pool_currency_id: Token(DOT), amount: 1, length_rewards: 1 }),
        RuntimeCall::Farming(farming::Call::remove_reward_schedule { pool_currency_id: Token(DOT), reward_currency_id: Token(INTR) }),
        RuntimeCall::Supply(supply::Call::set_start_height_and_inflation { start_height: 1, inflation: Default::default() }),
        RuntimeCall::Democracy(democracy::Call::second { proposal: 1 }),
        RuntimeCall::Democracy(democracy::Call::remove_vote { index: 1 }),
        RuntimeCall::EscrowAnnuity(annuity::Call::withdraw_rewards {}),
        RuntimeCall::TxPause(tx_pause::Call::pause { full_name: none() }),
        RuntimeCall::TxPause(tx_pause::Call::unpause { full_name: none() }),
    ]
}
fn name_of(c: &RuntimeCall) -> (Vec<u8>, Vec<u8>) {
    let m = c.get_call_metadata();
    (m.pallet_name.into(), m.function_name.into())
}
fn bounded((p, c): &Name) -> Option<FullName> {
    Some((p.clone().try_into().ok()?, match c {
        None => None,
        Some(c) => Some(c.clone().try_into().ok()?),
    }))
}
fn name(s: &mut Src) -> Name {
    let all = calls();
    let (p, c) = name_of(s.pick(&all));
    match s.weighted(&[6, 4, 1, 1]) {
        0 => (p, Some(c)),
        1 => (p, None),
        2 => (p, Some(name_of(s.pick(&all)).1)),
        _ => (s.pick(&[b"Nope".to_vec(), b"escrow".to_vec(), b"Esc".to_vec(), vec![]]).clone(), s.bool().then(|| c)),
    }
}
pub fn paused(s: &mut Src) -> R {
    open(|| {
        PauseTooLongNames::set(s.bool());
        let white: BTreeSet<Name> = (0..s.below(4)).map(|_| name(s)).collect();
        set_white(white.iter().cloned().collect());
        let mut set: BTreeSet<Name> = BTreeSet::new();
        let own = b"TxPause".to_vec();
        s.note(|| format!("never paused: {:?}", white.iter().map(show_name).collect::<Vec<_>>()));
        let off = |set: &BTreeSet<Name>, n: &Name| !white.contains(n) && (set.contains(&(n.0.clone(), None)) || set.contains(n));
        s.steps(3, 30, |s| {
            let n = loop {
                let n = if !set.is_empty() && s.bool() { set.iter().nth(s.idx(set.len())).unwrap().clone() } else { name(s) };
                if bounded(&n).is_some() {
                    break n;
                }
            };
            let by_root = !s.ratio(1, 8);
            let full = bounded(&n).unwrap();
            let before = storage_root();
            let go = s.weighted(&[5, 4]) == 0;
            let res = pbt::guarded(|| if go { tx(|| TxPause::pause(origin(by_root), full.clone())) } else { tx(|| TxPause::unpause(origin(by_root), full.clone())) })?;
            s.note(|| format!("{} {} (root {by_root}) -> {res:?}", if go { "pause" } else { "unpause" }, show_name(&n)));
            let want = if !by_root {
                false
            } else if go {
                n.0 != own && !off(&set, &n) && !white.contains(&n)
            } else {
                set.contains(&n)
            };
            check_eq!(res.is_ok(), want, "{} {} with {:?}", if go { "pausing" } else { "unpausing" }, show_name(&n), set.iter().map(show_name).collect::<Vec<_>>());
            if res.is_err() {
                check!(storage_root() == before, "a refused call changed something");
            } else if go {
                set.insert(n.clone());
                s.label("pause");
            } else {
                set.remove(&n);
                s.label("unpause");
            }
            let is: BTreeSet<Name> = tx_pause::PausedCalls::<Test>::iter_keys().map(|(p, c)| (p.to_vec(), c.map(|c| c.to_vec()))).collect();
            check_eq!(is, set, "what is paused");
            for c in calls() {
                let (p, f) = name_of(&c);
                let whole = (p.clone(), Some(f.clone()));
                let open = if bounded(&whole).is_none() { !PauseTooLongNames::get() } else { !off(&set, &whole) };
                check_eq!(<TxPause as Contains<RuntimeCall>>::contains(&c), open, "whether {} may be called with {:?} paused", show_name(&whole), set.iter().map(show_name).collect::<Vec<_>>());
                check_eq!(TxPause::is_paused_unbound(p.clone(), f), !open, "whether {} is told to be paused", show_name(&whole));
                if p == own && bounded(&whole).is_some() {
                    check!(open, "the way to unpause was paused");
                }
                if !open {
                    s.nontrivial();
                }
            }
            Ok(())
        })
    })
}
fn show_name(n: &Name) -> String {
    format!("{}{}", String::from_utf8_lossy(&n.0), n.1.as_ref().map_or(String::new(), |c| format!("::{}", String::from_utf8_lossy(c))))
}

type Rel = (Vec<u8>, H256);
pub fn clients(s: &mut Src) -> R {
    open(|| {
        let (mut cur, mut pend): (BTreeMap<Vec<u8>, Rel>, BTreeMap<Vec<u8>, Rel>) = Default::default();
        let names: Vec<Vec<u8>> = vec![b"vault".to_vec(), b"oracle".to_vec(), b"faucet".to_vec(), vec![], vec![b'a'; 12]];
        s.steps(3, 30, |s| {
            let before = storage_root();
            if s.ratio(1, 4) {
                pbt::guarded(|| ClientsInfo::on_runtime_upgrade())?;
                s.note(|| "upgrade".into());
                if !pend.is_empty() {
                    s.label("upgrade");
                    s.nontrivial();
                }
                cur.append(&mut pend);
            } else {
                let n = s.pick(&names).clone();
                let rel: Rel = ((0..s.below(17)).map(|_| s.below(256) as u8).collect(), H256::repeat_byte(s.below(256) as u8));
                let r = clients_info::ClientRelease { uri: rel.0.clone().try_into().unwrap(), checksum: rel.1 };
                let (by_root, now) = (!s.ratio(1, 8), s.bool());
                let k = n.clone().try_into().unwrap();
                let res = pbt::guarded(|| {
                    if now {
                        ClientsInfo::set_current_client_release(origin(by_root), k, r)
                    } else {
                        ClientsInfo::set_pending_client_release(origin(by_root), k, r)
                    }
                })?;
                s.note(|| format!("{:?} now {now} (root {by_root}) -> {res:?}", String::from_utf8_lossy(&n)));
                check_eq!(res.is_ok(), by_root, "setting a release");
                if by_root {
                    if now { &mut cur } else { &mut pend }.insert(n, rel);
                } else {
                    check!(storage_root() == before, "a refused call changed something");
                }
            }
            for n in &names {
                let f = |r: Option<clients_info::ClientRelease<_, H256>>| r.map(|r: clients_info::ClientRelease<sp_core::bounded::BoundedVec<u8, _>, H256>| (r.uri.to_vec(), r.checksum));
                let k: sp_core::bounded::BoundedVec<u8, frame_support::traits::ConstU32<12>> = n.clone().try_into().unwrap();
                check_eq!((f(ClientsInfo::current_client_release(&k)), f(ClientsInfo::pending_client_release(&k))), (cur.get(n).cloned(), pend.get(n).cloned()), "the release of {:?}", String::from_utf8_lossy(n));
            }
            Ok(())
        })
    })
}
