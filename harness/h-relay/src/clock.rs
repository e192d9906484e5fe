use crate::rt::*;
use frame_support::traits::Hooks;
use pbt::{check, check_eq, guarded, law, Prop, Src, R};
use sp_core::H256;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C20",
    rule: "time stood still at least once, or a limit is touched",
    assumptions: &["one Bitcoin block is counted as 100 blocks of the parachain, as the harness configures it"],
    laws: &[law!("clock", 4_000, 100_000, clock), law!("expiry", 20_000, 500_000, expiry), law!("ids", 1_500, 30_000, ids)],
    findings: &[],
};

fn clock(s: &mut Src) -> R {
    fresh(&Opt { k: 1, para: 0, no_difficulty: true, no_inclusion: true }).execute_with(|| {
        let mut serial = 0;
        let mut tip = header(Default::default(), [0; 32], easiest(), 0, 0);
        let start = s.below(1000) as u32;
        bare("initialize", BTCRelay::_initialize(0, tip, start))?;
        let mut height = start;
        let mut active = 1u64;
        let mut stopped = false;
        // requests: when opened in both clocks, and their period
        let mut reqs: Vec<(u64, u32, u64)> = vec![];
        s.steps(1, 40, |s| {
            match s.below(5) {
                0 => {
                    stopped = s.bool();
                    bare("activate_counter", tx(|| Security::activate_counter(RuntimeOrigin::root(), !stopped)))?;
                    let r = tx(|| Security::activate_counter(RuntimeOrigin::signed(s.below(5)), s.bool()));
                    check!(r.is_err(), "the clock was switched without being root");
                }
                1 => {
                    let n = s.int(1, 260);
                    for _ in 0..n {
                        System::set_block_number(System::block_number() + 1);
                        Security::on_initialize(System::block_number());
                    }
                    if stopped {
                        s.nontrivial();
                    } else {
                        active += n;
                    }
                    s.note(|| format!("{n} blocks, stopped {stopped}"));
                }
                2 => {
                    let n = 1 + s.below(3);
                    for _ in 0..n {
                        serial += 1;
                        tip = header(tip.hash, [0; 32], easiest(), 0, serial);
                        bare("a block", BTCRelay::_store_block_header(&0, tip))?;
                        height += 1;
                    }
                    s.note(|| format!("{n} Bitcoin blocks"));
                }
                _ => reqs.push((active, height, s.int(0, 500))),
            }
            check_eq!(Security::active_block_number(), active, "blocks counted");
            check_eq!(BTCRelay::get_best_block_height(), height, "height");
            for (a, h, p) in &reqs {
                let full = (*p + PER - 1) / PER;
                let want = active > a + p && height as u64 > *h as u64 + full;
                check_eq!(
                    BTCRelay::has_request_expired(*a, *h, *p).map_err(|e| format!("{e:?}"))?,
                    want,
                    "expiry of a request opened at {a}/{h} for {p} blocks, now {active}/{height}"
                );
            }
            Ok(())
        })?;
        s.sample(|| format!("{} blocks counted, {} requests, height {height} from {start}", active, reqs.len()));
        Ok(())
    })
}

/// the formulas over the whole range, where one overflows nothing is expired
fn expiry(s: &mut Src) -> R {
    fresh(&Opt { k: 1, para: 0, no_difficulty: true, no_inclusion: true }).execute_with(|| {
        let open = s.int(0, u64::MAX);
        let period = s.int(0, u64::MAX);
        let btc = s.int(0, u32::MAX as u64) as u32;
        let d = s.below(5);
        let now = match s.below(3) {
            0 => (open as u128 + period as u128 + d as u128).saturating_sub(2).min(u64::MAX as u128) as u64,
            1 => open.saturating_add(s.int(0, 1000)),
            _ => s.int(0, u64::MAX),
        };
        if now >= open.saturating_add(period).saturating_sub(2) || open.checked_add(period).is_none() {
            s.nontrivial();
        }
        Security::set_active_block_number(now);
        let text = || format!("opened at {open}/{btc} for {period}, now {now}");
        s.note(text);
        s.sample(text);
        let r = guarded(|| Security::parachain_block_expired(open, period))?;
        check_eq!(r.ok(), open.checked_add(period).map(|e| now > e), "expired at {now}");
        let h = guarded(|| BTCRelay::bitcoin_expiry_height(btc, period))?;
        let want = btc as u128 + (period as u128 + PER as u128 - 1) / PER as u128;
        match h {
            Ok(h) => check_eq!(h as u128, want, "height at which it expires"),
            Err(_) => check!(
                want > u32::MAX as u128 || period as u128 + PER as u128 > u64::MAX as u128,
                "no height at which it expires, although {want}"
            ),
        }
        Ok(())
    })
}

fn ids(s: &mut Src) -> R {
    fresh(&Opt { k: 1, para: 0, no_difficulty: true, no_inclusion: true }).execute_with(|| {
        let mut seen: BTreeSet<H256> = Default::default();
        let mut n = 0;
        s.steps(2, 60, |s| {
            if s.ratio(1, 4) {
                System::set_block_number(System::block_number() + 1);
            }
            let who = s.below(4);
            let id = Security::get_secure_id(&who);
            n += 1;
            s.nontrivial();
            check!(seen.insert(id), "the id {id:?} was given out twice, the second time to {who}");
            Ok(())
        })?;
        s.sample(|| format!("{n} ids"));
        Ok(())
    })
}
