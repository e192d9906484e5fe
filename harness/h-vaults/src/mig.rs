//! The upgrade of the requests to issue: all of them are kept, and it happens once.
use crate::rt::*;
use bitcoin::Address as BtcAddress;
use codec::Encode;
use frame_support::traits::OnRuntimeUpgrade;
use pbt::{check, check_eq, Src, R};
use primitives::issue::{IssueRequest, IssueRequestStatus};
use sp_core::H256;
use sp_io::hashing::{blake2_128, twox_128};
use std::collections::BTreeMap;

type All = BTreeMap<Vec<u8>, Vec<u8>>;
fn all() -> All {
    let (mut at, mut out) = (vec![], All::new());
    while let Some(k) = sp_io::storage::next_key(&at) {
        out.insert(k.clone(), sp_io::storage::get(&k).map(|v| v.to_vec()).unwrap_or_default());
        at = k;
    }
    out
}
fn item(pallet: &str, name: &str) -> Vec<u8> {
    [twox_128(pallet.as_bytes()), twox_128(name.as_bytes())].concat()
}
fn entry(pallet: &str, name: &str, id: H256) -> Vec<u8> {
    [&item(pallet, name)[..], &blake2_128(&id.encode()), &id.encode()].concat()
}
pub fn upgrade(s: &mut Src) -> R {
    let conf = crate::run::setup(s).conf;
    open(&conf, || {
        let mut want: Vec<(H256, IssueRequest<u64, u64, u128, CurrencyId>)> = vec![];
        s.steps(0, 10, |s| {
            let id = H256(s.arr());
            let cur = [NATIVE, WRAPPED, Token(DOT), CurrencyId::ForeignAsset(s.u128(1 << 20) as u32), CurrencyId::LendToken(3), CurrencyId::StableLpToken(4)];
            let n = |s: &mut Src| if s.ratio(1, 4) { s.u128(u128::MAX) } else { s.u128(1 << 40) };
            let t = |s: &mut Src| s.u128(u64::MAX as u128) as u64;
            let (a, b): ([u8; 20], [u8; 32]) = (s.arr(), s.arr());
            let address = match s.below(5) {
                0 => BtcAddress::P2PKH(a.into()),
                1 => BtcAddress::P2SH(a.into()),
                2 => BtcAddress::P2WPKHv0(a.into()),
                3 => BtcAddress::P2WSHv0(b.into()),
                _ => Default::default(),
            };
            let mut key = [2u8; 33];
            key[1..].copy_from_slice(&s.arr::<32>());
            let new = IssueRequest {
                vault: VaultId::new(t(s), *s.pick(&cur), *s.pick(&cur)),
                opentime: t(s),
                period: t(s),
                griefing_collateral: n(s),
                griefing_currency: NATIVE,
                amount: n(s),
                fee: n(s),
                requester: t(s),
                btc_address: address,
                btc_public_key: bitcoin::PublicKey(key),
                btc_height: s.u128(u32::MAX as u128) as u32,
                status: [IssueRequestStatus::Pending, IssueRequestStatus::Completed, IssueRequestStatus::Cancelled][s.idx(3)].clone(),
            };
            let r = new.clone();
            // as they were stored before: in this order, and without the currency
            let old = ((r.vault, r.opentime, r.period, r.griefing_collateral), (r.amount, r.fee, r.requester), (r.btc_address, r.btc_public_key, r.btc_height, r.status)).encode();
            sp_io::storage::set(&entry("Issue", "IssueRequests", id), &old);
            want.retain(|w| w.0 != id);
            want.push((id, new));
            // other things of the kind are nothing to it
            if s.bool() {
                sp_io::storage::set(&entry(if s.bool() { "Redeem" } else { "Issue" }, "Requests", id), &old);
            }
            Ok(())
        })?;
        let version = [item("Issue", ":__STORAGE_VERSION__:")].concat();
        let at = s.below(4) as u16;
        match at {
            0 => {}
            3 => sp_io::storage::set(&version, &0u16.encode()),
            v => sp_io::storage::set(&version, &v.encode()),
        }
        let before = all();
        issue::migration::v1::Migration::<Test>::on_runtime_upgrade();
        let mut should = before;
        if at % 3 == 0 {
            should.insert(version, 1u16.encode());
            for (id, new) in &want {
                should.insert(entry("Issue", "IssueRequests", *id), new.encode());
                check_eq!(Issue::issue_requests(id), Some(new.clone()), "request {id}, upgraded");
            }
            if !want.is_empty() {
                s.nontrivial();
            }
        }
        for again in [false, true] {
            let is = all();
            let other: Vec<Vec<u8>> = is.keys().chain(should.keys()).filter(|k| is.get(*k) != should.get(*k)).cloned().collect();
            check!(other.is_empty(), "at {other:?} is not what should be: what is stored after the upgrade from {at}{}", if again { ", and another" } else { "" });
            issue::migration::v1::Migration::<Test>::on_runtime_upgrade();
        }
        Ok(())
    })
}
