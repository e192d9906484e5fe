use crate::rt::*;
use pbt::{check_eq, law, Prop, Src, R};

pub const PROP: Prop = Prop {
    id: "C16",
    rule: "a fork overtook the main chain",
    assumptions: &[
        "headers are given to the relay behind its proof-of-work entry check (see C19), with chosen hashes",
        "at least one confirmation is required",
    ],
    laws: &[law!("forks", 6_000, 120_000, forks)],
    findings: &[],
};

fn forks(src: &mut Src) -> R {
    let k = src.int(1, 4) as u32;
    let para = src.below(4);
    let start = 2016 * src.below(400) as u32;
    let deep = src.bool();
    fresh(&Opt { k, para, no_difficulty: src.bool(), no_inclusion: false }).execute_with(|| {
        let mut serial = 0;
        let mut mk = |prev| {
            serial += 1;
            header(prev, [0; 32], easiest(), 1_500_000_000 + serial as u32, serial)
        };
        let h = mk(Default::default());
        bare("initialize", BTCRelay::_initialize(0, h, start))?;
        let mut t = Tree { k, para, ..Default::default() };
        t.blocks.push(Node { header: h, parent: None, height: start, at: 1 });
        let mut now = 1;
        let mut last = 0;
        let mut reorgs = 0;
        src.steps(4, if deep { 70 } else { 30 }, |src| {
            match src.weighted(&[24, 2, 1]) {
                0 => {
                    let parent = match src.weighted(&[2, 9, 4, 1]) {
                        0 => t.main,
                        1 => last,
                        2 => {
                            // some tip
                            let tips: Vec<usize> = (0..t.blocks.len()).filter(|i| !t.blocks.iter().any(|b| b.parent == Some(*i))).collect();
                            *src.pick(&tips)
                        }
                        _ => src.idx(t.blocks.len()),
                    };
                    let b = mk(t.blocks[parent].header.hash);
                    let r = tx(|| BTCRelay::_store_block_header(&0, b));
                    let i = t.blocks.len();
                    src.note(|| format!("block {i} (height {}) on {parent}, main tip {} -> {r:?}", t.blocks[parent].height + 1, t.main));
                    bare("a block on a known one was refused", r)?;
                    if t.add(b, parent, now) {
                        src.nontrivial();
                        reorgs += 1;
                    }
                    last = i;
                }
                1 => {
                    now += src.below(4);
                    Security::set_active_block_number(now);
                }
                _ => {
                    let dump = storage_root();
                    let b = if src.bool() {
                        // known already
                        let mut b = src.pick(&t.blocks).header;
                        if src.bool() {
                            b.hash_prev_block = src.pick(&t.blocks).header.hash;
                        }
                        b
                    } else {
                        let b = mk(Default::default());
                        mk(b.hash)
                    };
                    let r = tx(|| BTCRelay::_store_block_header(&0, b));
                    src.note(|| format!("known block or unknown parent -> {r:?}"));
                    check_eq!(r.is_err(), true, "a known block, or one with an unknown parent, was taken");
                    check_eq!(storage_root(), dump, "storage after a refused block");
                }
            }
            check_eq!(BTCRelay::get_best_block_height(), t.blocks[t.main].height, "height of the main chain");
            check_eq!(BTCRelay::get_best_block(), t.blocks[t.main].header.hash, "tip of the main chain");
            let c = if src.bool() { None } else { Some(src.below(8) as u32) };
            for (i, b) in t.blocks.iter().enumerate() {
                check_eq!(BTCRelay::block_header_exists(b.header.hash), true, "block {i} is kept");
                let got = BTCRelay::verify_block_header_inclusion(b.header.hash, c);
                let want = t.settled(i, c, now);
                if got.is_ok() != want {
                    pbt::fail!(
                        "block {i} (height {}, stored at {}) with {c:?} confirmations of {k}: {:?}, should be {}; main chain {:?} at {}, highest block off it {:?}, now {now}",
                        b.height, b.at, got.map(|_| "relied on"), if want { "relied on" } else { "refused" },
                        t.path(t.main), t.blocks[t.main].height, t.rival()
                    );
                }
                if let Ok(h) = got {
                    check_eq!(h, b.header, "the header given back for block {i}");
                }
            }
            check_eq!(bare("is_fully_initialized", BTCRelay::is_fully_initialized())?, t.blocks[t.main].height >= start + k, "fully initialized");
            Ok(())
        })?;
        src.sample(|| format!("k {k}, {} blocks, {reorgs} reorganisations, main chain {:?}", t.blocks.len(), t.path(t.main)));
        Ok(())
    })
}
