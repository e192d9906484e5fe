//! The upgrade of the referenda: proposals, referenda, votes and deposits are all kept, and it happens once.
use crate::rt::*;
use codec::Encode;
use democracy::{ReferendumInfo, ReferendumStatus, Tally, VoteThreshold};
use frame_support::traits::{Bounded, Get, OnRuntimeUpgrade};
use pbt::{check, check_eq, Src, R};
use sp_core::H256;
use sp_runtime::AccountId32;
use sp_io::hashing::{twox_128, twox_64};
use std::collections::BTreeMap;

type All = BTreeMap<Vec<u8>, Vec<u8>>;
fn all() -> All {
    let (mut at, mut out) = (vec![], All::new());
    while let Some(k) = sp_io::storage::next_key(&at) {
        out.insert(k.clone(), sp_io::storage::get(&k).map(|v| v.to_vec()).unwrap_or_default());
        at = k;
    }
    out
}
fn item(name: &str) -> Vec<u8> {
    [twox_128(b"Democracy"), twox_128(name.as_bytes())].concat()
}
fn by_index(name: &str, i: u32) -> Vec<u8> {
    [&item(name)[..], &twox_64(&i.encode()), &i.encode()].concat()
}
pub fn upgrade(s: &mut Src) -> R {
    open(|| {
        let n = |s: &mut Src| if s.ratio(1, 4) { s.u128(u128::MAX) } else { s.u128(1 << 40) };
        let mut props: Vec<(u32, H256, AccountId32)> = vec![];
        let mut refs: BTreeMap<u32, ReferendumInfo<u64, H256, u128>> = BTreeMap::new();
        let mut garbage: Vec<Vec<u8>> = vec![];
        let most: u32 = <Test as democracy::Config>::MaxProposals::get();
        s.steps(0, 14, |s| {
            let wide = s.ratio(1, 5);
            let i = s.u128(if wide { u32::MAX as u128 } else { 20 }) as u32;
            let hash = H256(s.arr());
            match s.below(4) {
                0 if (props.len() as u32) < most => props.push((i, hash, AccountId32::new(s.arr()))),
                1 => {
                    // (what was there before knew a proposal by its hash alone)
                    sp_io::storage::set(&by_index("DepositOf", i), &(vec![AccountId32::new(s.arr())], n(s)).encode());
                }
                2 => {
                    let k = [item("Preimages"), hash.0.to_vec()].concat();
                    sp_io::storage::set(&k, &(1u8, s.arr::<9>()).encode());
                    garbage.push(k);
                }
                _ => {
                    let t = |s: &mut Src| s.u128(u64::MAX as u128) as u64;
                    let r = if s.ratio(1, 3) {
                        ReferendumInfo::Finished { approved: s.bool(), end: t(s) }
                    } else {
                        let threshold = [VoteThreshold::SuperMajorityApprove, VoteThreshold::SuperMajorityAgainst, VoteThreshold::SimpleMajority][s.idx(3)];
                        ReferendumInfo::Ongoing(ReferendumStatus { end: t(s), proposal: hash, threshold, delay: t(s), tally: Tally { ayes: n(s), nays: n(s), turnout: n(s) } })
                    };
                    sp_io::storage::set(&by_index("ReferendumInfoOf", i), &r.encode());
                    refs.insert(i, r);
                }
            }
            Ok(())
        })?;
        if !props.is_empty() || s.bool() {
            sp_io::storage::set(&item("PublicProps"), &props.encode());
        }
        // the version was told by an item of its own
        let legacy = item("StorageVersion");
        if s.bool() {
            sp_io::storage::set(&legacy, &[0]);
            garbage.push(legacy);
        }
        let version = item(":__STORAGE_VERSION__:");
        let at = s.below(4) as u16;
        match at {
            0 => {}
            3 => sp_io::storage::set(&version, &0u16.encode()),
            v => sp_io::storage::set(&version, &v.encode()),
        }
        let mut should = all();
        democracy::migrations::v1::Migration::<Test>::on_runtime_upgrade();
        if at % 3 == 0 {
            should.insert(version, 1u16.encode());
            garbage.iter().for_each(|k| {
                should.remove(k);
            });
            let legacy = |h: &H256| Bounded::<RuntimeCall>::Legacy { hash: *h, dummy: Default::default() };
            let new: Vec<_> = props.iter().map(|(i, h, a)| (*i, legacy(h), a.clone())).collect();
            check_eq!(Democracy::public_props().to_vec(), new, "the proposals");
            should.insert(item("PublicProps"), new.encode());
            for (i, r) in &refs {
                let r = match r.clone() {
                    ReferendumInfo::Ongoing(r) => {
                        s.nontrivial();
                        ReferendumInfo::Ongoing(ReferendumStatus { end: r.end, proposal: legacy(&r.proposal), threshold: r.threshold, delay: r.delay, tally: r.tally })
                    }
                    ReferendumInfo::Finished { approved, end } => ReferendumInfo::Finished { approved, end },
                };
                should.insert(by_index("ReferendumInfoOf", *i), r.encode());
                check_eq!(Democracy::referendum_info(i), Some(r), "referendum {i}");
            }
        }
        for again in [false, true] {
            let is = all();
            let other: Vec<Vec<u8>> = is.keys().chain(should.keys()).filter(|k| is.get(*k) != should.get(*k)).cloned().collect();
            check!(other.is_empty(), "at {other:?} is not what should be: what is stored after the upgrade from {at}{}", if again { ", and another" } else { "" });
            democracy::migrations::v1::Migration::<Test>::on_runtime_upgrade();
        }
        Ok(())
    })
}
