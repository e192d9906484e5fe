use crate::rt::*;
use bitcoin::types::{BlockHeader, H256Le};
use pbt::{check, check_eq, fail, guarded, law, Prop, Src, R};
use rust_bitcoin::hashes::{sha256d, Hash};
use sp_core::U256;
use std::cell::RefCell;

pub const PROP: Prop = Prop {
    id: "C19",
    rule: "a header was refused; at a retarget: a fork crossed it",
    assumptions: &[
        "entry: targets easy enough for the harness to mine",
        "retarget: headers are given to the relay behind its hash computation, with chosen hashes",
    ],
    laws: &[law!("entry", 3_000, 80_000, entry), law!("retarget", 300, 8_000, retarget)],
    findings: &[],
};

/// the work limit of the main network
fn limit() -> U256 {
    (U256::from(1u8) << 224) - 1
}
fn bits(t: U256) -> u32 {
    let mut b = [0; 32];
    t.to_big_endian(&mut b);
    rust_bitcoin::pow::Target::from_be_bytes(b).to_compact_lossy().to_consensus()
}
fn expand(bits: u32) -> U256 {
    U256::from_big_endian(&rust_bitcoin::pow::Target::from_compact(rust_bitcoin::CompactTarget::from_consensus(bits)).to_be_bytes())
}
fn wire(h: &BlockHeader) -> Vec<u8> {
    let mut v = h.version.to_le_bytes().to_vec();
    v.extend(h.hash_prev_block.to_bytes_le());
    v.extend(h.merkle_root.to_bytes_le());
    v.extend(h.timestamp.to_le_bytes());
    v.extend(bits(h.target).to_le_bytes());
    v.extend(h.nonce.to_le_bytes());
    v
}
fn hash(h: &BlockHeader) -> [u8; 32] {
    sha256d::Hash::hash(&wire(h)).to_byte_array()
}
fn enough(h: &BlockHeader) -> bool {
    U256::from_little_endian(&hash(h)) < h.target
}
fn mine(h: &mut BlockHeader, good: bool) -> bool {
    for _ in 0..4000 {
        if enough(h) == good {
            return true;
        }
        h.nonce = h.nonce.wrapping_add(1);
    }
    false
}

/// the dispatchable, from the outside
fn entry(s: &mut Src) -> R {
    let free = s.ratio(1, 3);
    fresh(&Opt { k: 1 + s.below(3) as u32, para: 0, no_difficulty: free, no_inclusion: false }).execute_with(|| {
        let start = 2016 * s.below(300) as u32;
        let easy = expand(*s.pick(&[0x207fffffu32, 0x2000ffff, 0x1f7fffff, 0x203fff00]));
        let draft = |s: &mut Src, prev: [u8; 32]| BlockHeader {
            merkle_root: H256Le::from_bytes_le(&s.arr::<32>()),
            target: easy,
            timestamp: s.u32(),
            version: if s.ratio(1, 6) { s.int(0, 6) as i32 - 1 } else { 4 + s.below(1 << 28) as i32 },
            hash: H256Le::from_bytes_le(&s.arr::<32>()),
            hash_prev_block: H256Le::from_bytes_le(&prev),
            nonce: s.u32(),
        };
        // (header as stored, height)
        let mut known: Vec<(BlockHeader, u32)> = vec![];
        let mut chains = 1u32;
        let mut tips: Vec<usize> = vec![];
        loop {
            let g = draft(s, [0; 32]);
            let at = if s.ratio(1, 5) { start + s.below(3) as u32 } else { start };
            let r = tx(|| BTCRelay::initialize(RuntimeOrigin::signed(1), g, at).map_err(|e| e.error));
            let fine = g.version >= 4 && (free || at % 2016 == 0);
            check_eq!(r.is_ok(), fine, "first header, version {}, height {at}", g.version);
            if fine {
                let mut g = g;
                g.hash = H256Le::from_bytes_le(&hash(&g));
                known.push((g, at));
                tips.push(0);
                break;
            }
        }
        s.steps(1, 14, |s| {
            if s.ratio(1, 15) {
                let g = draft(s, [0; 32]);
                let r = tx(|| BTCRelay::initialize(RuntimeOrigin::signed(1), g, start).map_err(|e| e.error));
                check!(r.is_err(), "the relay was initialized again");
            }
            let parent = if s.bool() { *tips.last().unwrap() } else { s.idx(known.len()) };
            let mut h = draft(s, known[parent].0.hash.to_bytes_le());
            let mut why = if h.version < 4 { Some("an old version") } else { None };
            let mut bound = 100;
            let mut origin = RuntimeOrigin::signed(s.below(4));
            let mut mined = mine(&mut h, true);
            match s.weighted(&[10, 2, 2, 2, 2, 1, 1, 2]) {
                0 => {}
                1 => {
                    h.hash_prev_block = H256Le::from_bytes_le(&s.arr::<32>());
                    mined = mine(&mut h, true);
                    why = why.or(Some("an unknown parent"));
                }
                2 => {
                    // the hash given along does not matter
                    mined = mine(&mut h, false);
                    if mined {
                        h.hash = H256Le::from_bytes_le(&[0; 32]);
                        why = why.or(Some("too little work"));
                    }
                }
                3 => {
                    // another target than that of the parent, met by the hash
                    h.target = expand(*s.pick(&[0x207ffffeu32, 0x207fffff, 0x2000fffe, 0x1f00ffff, 0x2100ffff]));
                    mined = mine(&mut h, true);
                    if h.target != easy && !free {
                        why = why.or(Some("another target"));
                    }
                }
                4 => {
                    h = s.pick(&known).0;
                    mined = true;
                    if s.bool() {
                        h.hash = H256Le::from_bytes_le(&s.arr::<32>());
                    }
                    why = Some("known already");
                }
                5 => {
                    origin = if s.bool() { RuntimeOrigin::root() } else { RuntimeOrigin::none() };
                    why = why.or(Some("unsigned"));
                }
                6 => {
                    // the chains there are, and one that may be new
                    bound = (chains + 1).saturating_sub(s.below(3) as u32);
                    if bound <= chains {
                        why = why.or(Some("a low bound on the forks"));
                    }
                }
                _ => bound = chains + 1,
            }
            if !mined {
                return Ok(());
            }
            if why.is_some() {
                s.nontrivial();
            }
            let dump = storage_root();
            let r = guarded(|| tx(|| BTCRelay::store_block_header(origin, h, bound).map_err(|e| e.error)))?;
            s.note(|| format!("on {parent}, expect {why:?}: {r:?}"));
            match (&r, why) {
                (Ok(_), Some(w)) => fail!("a header was accepted although it has {w}"),
                (Err(e), None) => fail!("a good header was refused: {e:?}"),
                (Err(_), Some(_)) => check_eq!(storage_root(), dump, "storage after a refused header"),
                (Ok(_), None) => {
                    h.hash = H256Le::from_bytes_le(&hash(&h));
                    let p = known.iter().position(|k| k.0.hash == h.hash_prev_block).unwrap();
                    let i = known.len();
                    known.push((h, known[p].1 + 1));
                    match tips.iter().position(|t| *t == p) {
                        Some(t) => tips[t] = i,
                        None => {
                            tips.push(i);
                            chains += 1;
                        }
                    }
                }
            }
            for (h, _) in &known {
                check!(BTCRelay::block_header_exists(h.hash), "a stored header is lost");
            }
            Ok(())
        })?;
        s.sample(|| format!("{} headers in {chains} chains", known.len()));
        Ok(())
    })
}

/// how long before the retarget forks can start
const LEAD: usize = 12;
const T0: u32 = 1_400_000_000;

struct Base {
    ext: sp_io::TestExternalities,
    /// the last LEAD headers of the period that are there, with their heights
    tail: Vec<(BlockHeader, u32)>,
    target: U256,
}
fn base(target: U256) -> Base {
    let start = 2016 * 300;
    let mut ext = fresh(&Opt { k: 2, para: 0, no_difficulty: false, no_inclusion: false });
    let mut tail = vec![];
    ext.execute_with(|| {
        let mut tip = header(Default::default(), [0; 32], target, T0, 0);
        BTCRelay::_initialize(0, tip, start).unwrap();
        for i in 1..(2016 - LEAD as u32 / 2) {
            tip = header(tip.hash, [0; 32], target, T0 + i, i as u64);
            // a hash below the hardest target here
            BTCRelay::_store_block_header(&0, tip).unwrap();
            if i + LEAD as u32 / 2 + LEAD as u32 >= 2016 {
                tail.push((tip, start + i));
            }
        }
    });
    Base { ext, tail, target }
}
thread_local! {
    static BASES: RefCell<Vec<Base>> = RefCell::new(vec![]);
}

fn want(prev: U256, first: u32, last: u32) -> U256 {
    let span = (last as i64 - first as i64).clamp(1_209_600 / 4, 1_209_600 * 4);
    let mut be = [0; 32];
    prev.to_big_endian(&mut be);
    let n: BigInt = BigInt::from_bytes_be(mockrt::num_bigint::Sign::Plus, &be) * span / 1_209_600;
    let (_, b) = n.to_bytes_be();
    let t = if b.len() > 32 { limit() } else { U256::from_big_endian(&b).min(limit()) };
    expand(bits(t))
}

/// the target changes every 2016 blocks, on every chain as that chain's own time demands
fn retarget(s: &mut Src) -> R {
    BASES.with(|bs| {
        let mut bs = bs.borrow_mut();
        if bs.is_empty() {
            for t in [0x1d00ffffu32, 0x1b0404cb, 0x1c7fffff] {
                bs.push(base(expand(t)));
            }
        }
        let i = s.idx(bs.len());
        let Base { ext, tail, target } = &mut bs[i];
        ext.execute_with(|| {
            dry(|| run(s, tail, *target))
        })
    })
}
fn run(s: &mut Src, tail: &[(BlockHeader, u32)], target: U256) -> R {
    let mut t = tail.to_vec();
    let edge = tail.last().unwrap().1 / 2016 * 2016 + 2016;
    let mut serial = 10_000;
    let mut crossed: Vec<usize> = vec![];
    s.steps(LEAD, 60, |s| {
        let past = t.last().unwrap().1 > edge;
        let parent = match s.weighted(&[if past { 0 } else { 12 }, 1, if past { 12 } else { 1 }]) {
            0 => t.len() - 1,
            1 => {
                // the highest
                (0..t.len()).max_by_key(|i| t[*i].1).unwrap()
            }
            _ => s.idx(t.len()),
        };
        let (p, height) = (t[parent].0, t[parent].1 + 1);
        serial += 1;
        let span: i64 = match s.below(5) {
            0 => 1_209_600 / 4 + s.uniform(0, 4) as i64 - 2,
            1 => 1_209_600 * 4 + s.uniform(0, 4) as i64 - 2,
            2 => s.uniform(0, 1_209_600 * 5) as i64,
            3 => -(s.int(0, T0 as u64) as i64),
            _ => s.int(0, (u32::MAX - T0) as u64) as i64,
        };
        let time = (T0 as i64 + span).clamp(0, u32::MAX as i64) as u32;
        let right = if height % 2016 == 0 { want(p.target, T0, p.timestamp) } else { p.target };
        let wrong = s.ratio(1, 5);
        let target = match (wrong, s.below(3)) {
            (false, _) => right,
            (true, 0) => p.target,
            (true, 1) => target,
            (true, _) => expand(bits(right) ^ (1 << s.below(16))),
        };
        let wrong = target != right;
        let h = header(p.hash, [0; 32], target, time, serial);
        let r = tx(|| BTCRelay::_store_block_header(&0, h));
        s.note(|| format!("height {height} (edge {edge}) on {parent}, time {time}, target {target:x}, right {right:x}: {r:?}"));
        match (&r, wrong) {
            (Ok(_), true) => fail!("at height {height}: target {target:x} instead of {right:x} was accepted"),
            (Err(e), false) => fail!("at height {height} after {} at {}: target {right:x} was refused: {e:?}", parent, p.timestamp),
            (Err(_), true) => {}
            (Ok(_), false) => {
                if height == edge {
                    crossed.push(t.len());
                    if crossed.len() > 1 {
                        s.nontrivial();
                    }
                }
                t.push((h, height));
            }
        }
        Ok(())
    })?;
    s.label(match crossed.len() {
        0 => "no crossing",
        1 => "one crossing",
        _ => "several crossings",
    });
    s.sample(|| format!("{} headers added, {} of them first of a period", t.len() - tail.len(), crossed.len()));
    Ok(())
}
