use crate::{
    model::{dsha, small_tx, MTx, Src0},
    rt::*,
};
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    types::{FullTransactionProof, H256Le},
};
use pbt::{check, check_eq, fail, guarded, law, Prop, Src, R};

pub const PROP: Prop = Prop {
    id: "C17",
    rule: "the proof was changed, or the block is not settled",
    assumptions: &["blocks are given to the relay behind its proof-of-work entry check (see C19)"],
    laws: &[law!("inclusion", 4_000, 120_000, inclusion)],
    findings: &[],
};

struct Block {
    txs: Vec<MTx>,
    ids: Vec<[u8; 32]>,
}

fn step(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    dsha(&[&a[..], &b[..]].concat())
}
fn node(ids: &[[u8; 32]], height: usize, pos: usize) -> [u8; 32] {
    if height == 0 {
        return ids[pos];
    }
    let l = node(ids, height - 1, 2 * pos);
    let width = (ids.len() + (1 << (height - 1)) - 1) >> (height - 1);
    let r = if 2 * pos + 1 < width { node(ids, height - 1, 2 * pos + 1) } else { l };
    step(&l, &r)
}
fn tree_height(n: usize) -> usize {
    let mut h = 0;
    while 1usize << h < n {
        h += 1;
    }
    h
}
impl Block {
    fn new(s: &mut Src) -> Block {
        let seed = s.u64();
        let n = 1 + s.below(11);
        let mut txs: Vec<MTx> = (0..n).map(|i| small_tx(seed, i)).collect();
        // a coinbase in the first place: hardly ever missing
        if !s.ratio(1, 12) {
            txs[0].ins[0].source = Src0::Coinbase(Some(s.int(1, 800_000) as u32));
            txs[0].ins[0].script = seed.to_le_bytes().to_vec();
        }
        // one which looks like a coinbase further on
        if n > 1 && s.ratio(1, 12) {
            txs[1].ins[0].source = Src0::Coinbase(Some(5));
        }
        let ids = txs.iter().map(|t| t.txid()).collect();
        Block { txs, ids }
    }
    fn root(&self) -> [u8; 32] {
        node(&self.ids, tree_height(self.ids.len()), 0)
    }
    /// BIP-37: the flags and hashes that show one transaction
    fn proof(&self, at: usize, header: bitcoin::types::BlockHeader) -> PartialTransactionProof {
        fn go(ids: &[[u8; 32]], height: usize, pos: usize, at: usize, bits: &mut Vec<bool>, hashes: &mut Vec<H256Le>) {
            let holds = at >> height == pos;
            bits.push(holds);
            if height == 0 || !holds {
                hashes.push(H256Le::from_bytes_le(&node(ids, height, pos)));
            } else {
                go(ids, height - 1, 2 * pos, at, bits, hashes);
                let width = (ids.len() + (1 << (height - 1)) - 1) >> (height - 1);
                if 2 * pos + 1 < width {
                    go(ids, height - 1, 2 * pos + 1, at, bits, hashes);
                }
            }
        }
        let (mut flag_bits, mut hashes) = (vec![], vec![]);
        go(&self.ids, tree_height(self.ids.len()), 0, at, &mut flag_bits, &mut hashes);
        PartialTransactionProof {
            transaction: self.txs[at].to_interbtc(),
            tx_encoded_len: self.txs[at].encode(false).len() as u32,
            merkle_proof: MerkleProof {
                block_header: header,
                flag_bits,
                transactions_count: self.ids.len() as u32,
                hashes,
            },
        }
    }
}

fn inclusion(src: &mut Src) -> R {
    let k = src.int(1, 3) as u32;
    let para = src.below(3);
    let unchecked = src.ratio(1, 25);
    fresh(&Opt { k, para, no_difficulty: true, no_inclusion: unchecked }).execute_with(|| {
        let mut t = Tree { k, para, ..Default::default() };
        let mut blocks = vec![];
        let mut now = 1;
        let n = 1 + src.below(7) as usize;
        for i in 0..n {
            let b = Block::new(src);
            if i == 0 {
                let h = header(Default::default(), b.root(), easiest(), 0, 0);
                bare("initialize", BTCRelay::_initialize(0, h, 0))?;
                t.blocks.push(Node { header: h, parent: None, height: 0, at: now });
            } else {
                let parent = if src.ratio(1, 6) { src.idx(i) } else { t.main };
                let h = header(t.blocks[parent].header.hash, b.root(), easiest(), i as u32, i as u64);
                bare("a block", BTCRelay::_store_block_header(&0, h))?;
                t.add(h, parent, now);
            }
            blocks.push(b);
            now += src.below(2);
            Security::set_active_block_number(now);
        }
        // mostly a block whose coinbase is one
        let at = src.idx(n);
        let b = &blocks[at];
        let i = src.idx(b.ids.len());
        let mut header = t.blocks[at].header;
        let mut user = b.proof(i, header);
        let mut coin = b.proof(0, header);
        let mut shown = b.txs[i].clone();
        let mut first = b.txs[0].clone();
        let confs = if src.bool() { None } else { Some(src.below(5) as u32) };
        let mut log = vec![];
        // what must make it fail, whatever else is changed
        let mut must = None;
        let mut touched = false;
        let other = src.idx(n);
        for _ in 0..src.weighted(&[6, 6, 1]) {
            touched = true;
            match src.below(13) {
                0 if other != at => {
                    let j = src.idx(blocks[other].ids.len());
                    user = blocks[other].proof(j, t.blocks[other].header);
                    shown = blocks[other].txs[j].clone();
                    header = t.blocks[other].header;
                    log.push(format!("transaction {j} of block {other}"));
                    must = Some("the coinbase is that of another block");
                }
                1 if other != at => {
                    let b = &blocks[other];
                    coin = b.proof(0, t.blocks[other].header);
                    first = b.txs[0].clone();
                    log.push(format!("the coinbase of block {other}"));
                    must = Some("the coinbase is that of another block");
                }
                2 if b.ids.len() > 1 => {
                    let j = 1 + src.idx(b.ids.len() - 1);
                    coin = b.proof(j, header);
                    first = b.txs[j].clone();
                    log.push(format!("transaction {j} instead of the coinbase"));
                    must = Some("not the first transaction of the block");
                }
                3 => {
                    shown.outs[0].0 += 1 + src.below(1000) as i64;
                    user.transaction = shown.to_interbtc();
                    log.push("the payment shown is another".into());
                    must = Some("the transaction is not in the block");
                }
                4 => {
                    // as long as the partial tree has the same form, the count is not bound by the root
                    let n = b.ids.len() as u32;
                    let c = src.int(1, 16) as u32;
                    if c != n {
                        user.merkle_proof.transactions_count = c;
                        log.push(format!("the count of the payment's proof is {c}"));
                        must = Some("the counts of the two proofs differ");
                    }
                }
                5 => {
                    let n = b.ids.len() as u32;
                    let c = src.int(1, 16) as u32;
                    if c != n {
                        coin.merkle_proof.transactions_count = c;
                        log.push(format!("the count of the coinbase's proof is {c}"));
                        must = Some("the counts of the two proofs differ");
                    }
                }
                6 => {
                    let c = src.int(1, 16) as u32;
                    coin.merkle_proof.transactions_count = c;
                    user.merkle_proof.transactions_count = c;
                    log.push(format!("both counts are {c}"));
                    must = None.or(must.filter(|m| !m.starts_with("the counts")));
                }
                7 if other != at => {
                    // the right proofs for the block, under the name of another
                    let h = t.blocks[other].header;
                    user.merkle_proof.block_header = h;
                    coin.merkle_proof.block_header = h;
                    header = h;
                    log.push(format!("both proofs name block {other}"));
                    must = Some("the root is not that of the block");
                }
                8 if other != at => {
                    user.merkle_proof.block_header = t.blocks[other].header;
                    log.push(format!("the payment's proof names block {other}"));
                    must = Some("two blocks are named");
                }
                9 if other != at => {
                    coin.merkle_proof.block_header = t.blocks[other].header;
                    log.push(format!("the coinbase's proof names block {other}"));
                    must = Some("two blocks are named");
                }
                10 => {
                    let j = src.idx(user.merkle_proof.hashes.len());
                    user.merkle_proof.hashes[j] = H256Le::from_bytes_le(&src.arr::<32>());
                    log.push(format!("hash {j} of the payment's proof"));
                    must = Some("the root is not that of the block");
                }
                11 => {
                    let j = src.idx(coin.merkle_proof.hashes.len());
                    coin.merkle_proof.hashes[j] = H256Le::from_bytes_le(&src.arr::<32>());
                    log.push(format!("hash {j} of the coinbase's proof"));
                    must = Some("the root is not that of the block");
                }
                _ => {
                    // an unknown block that claims the root
                    let h = crate::rt::header(t.blocks[at].header.hash, b.root(), easiest(), 9, 1000);
                    user.merkle_proof.block_header = h;
                    coin.merkle_proof.block_header = h;
                    header = h;
                    log.push("both proofs name an unknown block".into());
                    must = Some("the block is not known");
                }
            }
        }
        // two changes may take each other back
        if log.len() > 1 {
            must = None;
        }
        let settled = t.settled(at, confs, now);
        let coinbase = matches!(b.txs[0].ins[0].source, Src0::Coinbase(_));
        if touched || !settled {
            src.nontrivial();
        }
        let text = || {
            format!(
                "{n} blocks, transaction {i} of {} in block {at} (settled: {settled}), {confs:?} confirmations of {k}, [{}]",
                b.ids.len(),
                log.join("; ")
            )
        };
        src.note(text);
        src.sample(text);
        let arg = FullTransactionProof { user_tx_proof: user.clone(), coinbase_proof: coin.clone() };
        let dump = storage_root();
        let got = guarded(|| BTCRelay::_verify_transaction_inclusion(arg, confs))?;
        check_eq!(storage_root(), dump, "storage after looking at a proof");
        if unchecked {
            src.label("inclusion is not checked");
            check!(got.is_ok(), "refused although inclusion is not checked");
            return Ok(());
        }
        match got {
            Ok(tx) => {
                src.label("accepted");
                if let Some(m) = must {
                    fail!("accepted although {m}");
                }
                check!(tx == shown.to_interbtc(), "another transaction is given back");
                let Some(j) = t.blocks.iter().position(|x| x.header.hash == header.hash) else {
                    fail!("accepted in an unknown block");
                };
                check!(t.settled(j, confs, now), "accepted in block {j}, which is not settled");
                check!(blocks[j].ids.contains(&shown.txid()), "accepted although the transaction is not in the block");
                check_eq!(first.txid(), blocks[j].ids[0], "the coinbase shown");
                check!(matches!(first.ins[0].source, Src0::Coinbase(_)), "accepted without a coinbase");
            }
            Err(e) => {
                src.label(if touched { "refused, changed" } else { "refused" });
                check!(touched || !settled || !coinbase, "a good proof is refused: {e:?}");
            }
        }
        Ok(())
    })
}
