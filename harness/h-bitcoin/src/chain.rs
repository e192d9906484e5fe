//! C05, C06: merkle proofs; C07: difficulty
use crate::{model::*, wire::canonical_bits};
use bitcoin::{
    formatter::TryFormat,
    merkle::{MerkleProof, MerkleTree, PartialTransactionProof, ProofResult},
    pow::calculate_next_work_required,
    types::{Block, BlockBuilder, BlockHeader, H256Le, Transaction},
    GetCompact, SetCompact,
};
use pbt::{check, check_eq, fail, guarded, Src, R};
use primitive_types::U256;
use rust_bitcoin::{
    blockdata::block,
    consensus::{deserialize, serialize},
    hashes::Hash,
    merkle_tree::MerkleBlock,
    Txid,
};

fn step(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut v = a.to_vec();
    v.extend(b);
    dsha(&v)
}

/// Bitcoin's merkle tree, level by level; the last of an odd level is paired with itself
pub fn ref_root(ids: &[[u8; 32]]) -> [u8; 32] {
    let mut l = ids.to_vec();
    while l.len() > 1 {
        let mut n = vec![];
        for c in l.chunks(2) {
            n.push(step(&c[0], c.get(1).unwrap_or(&c[0])));
        }
        l = n;
    }
    l[0]
}

fn count(s: &mut Src) -> usize {
    match s.weighted(&[20, 10, 8, 4, 1]) {
        0 => s.uniform(1, 9) as usize,
        1 => s.uniform(1, 40) as usize,
        2 => {
            let p = 1u64 << s.below(8);
            (p + s.below(3)).saturating_sub(1).max(1) as usize
        }
        3 => s.uniform(1, 300) as usize,
        _ => s.uniform(300, 1100) as usize,
    }
}

fn block_txs(s: &mut Src, n: usize) -> Vec<MTx> {
    let seed = s.u64();
    let rich = s.idx(n.min(50));
    (0..n as u64)
        .map(|i| {
            if i as usize == rich {
                let mut t = tx(s);
                // unique: a coinbase input has no free hash, the lock time does
                if let Src0::Out(h, _) = &mut t.ins[0].source {
                    h[..8].copy_from_slice(&seed.to_le_bytes());
                    h[8] = 0xee;
                }
                t
            } else {
                small_tx(seed, i)
            }
        })
        .collect()
}

fn header(root: [u8; 32], s: &mut Src) -> BlockHeader {
    let (_, t) = canonical_bits(s);
    let mut h = BlockHeader {
        merkle_root: H256Le::from_bytes_le(&root),
        target: t,
        timestamp: s.u32(),
        version: 4,
        hash: H256Le::zero(),
        hash_prev_block: H256Le::from_bytes_le(&s.arr::<32>()),
        nonce: s.u32(),
    };
    h.update_hash().unwrap();
    h
}

fn describe(n: usize, pos: usize) -> String {
    format!("block of {n} transactions, proof for number {pos}")
}

/// C05: every transaction of a block has a proof, and verifying it yields the block's root and the transaction's place
pub fn c05_complete(s: &mut Src) -> R {
    let n = count(s);
    let ms = block_txs(s, n);
    let txs: Vec<Transaction> = ms.iter().map(|m| m.to_interbtc()).collect();
    let ids: Vec<[u8; 32]> = ms.iter().map(|m| m.txid()).collect();
    let pos = match s.below(4) {
        0 => n - 1,
        _ => s.idx(n),
    };
    let root = ref_root(&ids);
    let block = Block {
        header: header(root, s),
        transactions: txs.clone(),
    };
    if n > 1 {
        s.nontrivial();
    }
    if n & (n - 1) != 0 {
        s.label("not a power of two");
    }
    s.note(|| describe(n, pos));
    s.sample(|| describe(n, pos));
    let want = H256Le::from_bytes_le(&ids[pos]);
    let proof = block
        .merkle_proof(&[want])
        .map_err(|e| format!("no proof for a transaction of the block: {e:?}"))?;
    let len = ms[pos].encode(false).len() as u32;
    let slack = s.int(0, 1000) as u32;
    let r = PartialTransactionProof {
        transaction: txs[pos].clone(),
        tx_encoded_len: len + slack,
        merkle_proof: proof.clone(),
    }
    .verify_proof()
    .map_err(|e| format!("an honest proof is rejected: {e:?}"))?;
    check_eq!(r.extracted_root.to_bytes_le(), root, "root");
    check_eq!(r.transaction_position as usize, pos, "position");
    check_eq!(r.transaction_hash, want, "transaction id");
    check_eq!(r.tx_count as usize, n, "number of transactions");
    check_eq!(r.block_hash, block.header.hash, "block hash");
    check!(r.transaction == txs[pos], "another transaction");
    // the block itself: its header, the number of transactions and each of them
    let mut bytes = vec![];
    block.try_format(&mut bytes).map_err(|e| format!("{e:?}"))?;
    let mut want_bytes = vec![];
    block.header.try_format(&mut want_bytes).map_err(|e| format!("{e:?}"))?;
    check_eq!(want_bytes.len(), 80, "length of a header");
    compact_size(&mut want_bytes, n as u64);
    for m in &ms {
        want_bytes.extend(m.encode(true));
    }
    check!(bytes == want_bytes, "the block is not written as its header and its transactions");
    // the same through the wire format, which is the one of rust-bitcoin
    let mut bytes = vec![];
    proof.try_format(&mut bytes).map_err(|e| format!("{e:?}"))?;
    let back = MerkleProof::parse(&bytes).map_err(|e| format!("cannot parse its own proof: {e:?}"))?;
    check_eq!(back.block_header, proof.block_header, "header of the parsed proof");
    check_eq!(back.hashes, proof.hashes, "hashes of the parsed proof");
    check_eq!(back.transactions_count, proof.transactions_count, "count of the parsed proof");
    check!(
        back.flag_bits.starts_with(&proof.flag_bits) && back.flag_bits[proof.flag_bits.len()..].iter().all(|b| !*b),
        "flags of the parsed proof"
    );
    let r2 = PartialTransactionProof {
        transaction: txs[pos].clone(),
        tx_encoded_len: len,
        merkle_proof: back,
    }
    .verify_proof()
    .map_err(|e| format!("a parsed honest proof is rejected: {e:?}"))?;
    check!(r2 == r, "the parsed proof verifies to something else");
    Ok(())
}

/// C05: the proofs are those of rust-bitcoin, for any set of matched transactions
pub fn c05_wire(s: &mut Src) -> R {
    let n = count(s).min(400);
    let ms = block_txs(s, n);
    let txs: Vec<Transaction> = ms.iter().map(|m| m.to_interbtc()).collect();
    let ids: Vec<[u8; 32]> = ms.iter().map(|m| m.txid()).collect();
    let k = s.uniform(1, 4.min(n as u64)) as usize;
    let chosen: Vec<usize> = (0..k).map(|_| s.idx(n)).collect();
    let h = header(ref_root(&ids), s);
    let block = Block {
        header: h,
        transactions: txs,
    };
    if n > 1 {
        s.nontrivial();
    }
    s.note(|| format!("block of {n} transactions, matching {chosen:?}"));
    s.sample(|| format!("block of {n} transactions, matching {chosen:?}"));
    let inc: Vec<H256Le> = chosen.iter().map(|c| H256Le::from_bytes_le(&ids[*c])).collect();
    let proof = block.merkle_proof(&inc).map_err(|e| format!("no proof: {e:?}"))?;
    let mut bytes = vec![];
    proof.try_format(&mut bytes).map_err(|e| format!("{e:?}"))?;
    let mut hb = vec![];
    h.try_format(&mut hb).map_err(|e| format!("{e:?}"))?;
    let rh: block::Header = deserialize(&hb).map_err(|e| e.to_string())?;
    let rids: Vec<Txid> = ids.iter().map(|i| Txid::from_byte_array(*i)).collect();
    let mb = MerkleBlock::from_header_txids_with_predicate(&rh, &rids, |t| chosen.iter().any(|c| rids[*c] == *t));
    check!(
        serialize(&mb) == bytes,
        "the proof differs from rust-bitcoin's: {} and {}",
        short(&bytes),
        short(&serialize(&mb))
    );
    Ok(())
}

/// C05: the block builder commits to the transactions as Bitcoin does
pub fn c05_builder(s: &mut Src) -> R {
    let n = count(s).min(200);
    let ms = block_txs(s, n);
    let mut b = BlockBuilder::new();
    let (version, time, prev) = (s.u32() as i32, s.u32(), H256Le::from_bytes_le(&s.arr::<32>()));
    let old = s.bool();
    b.with_timestamp(time).with_previous_hash(prev);
    if old {
        b.with_version(version);
    }
    let (reward, height) = (s.int(0, 50_0000_0000) as i64, s.int(1, 900_000) as u32);
    let coinbase = s.bool();
    for m in &ms {
        b.add_transaction(m.to_interbtc());
    }
    if coinbase {
        b.with_coinbase(&bitcoin::Address::default(), reward, height);
    }
    if n > 1 {
        s.nontrivial();
    }
    s.note(|| format!("built block of {n} transactions, coinbase added {coinbase}"));
    s.sample(|| format!("built block of {n} transactions, coinbase added {coinbase}"));
    let target = U256::from(2u32).pow(U256::from(254)) * U256::from(3u32);
    let (bits_target, _) = (
        U256::set_compact(target.get_compact().ok_or("no compact target")?).ok_or("no target")?,
        (),
    );
    let block = b.mine(bits_target).map_err(|e| format!("{e:?}"))?;
    let ids: Vec<[u8; 32]> = block.transactions.iter().map(|t| t.tx_id().to_bytes_le()).collect();
    check_eq!(ids.len(), n + coinbase as usize, "number of transactions");
    check_eq!(block.header.merkle_root.to_bytes_le(), ref_root(&ids), "merkle root");
    check!(block.header.hash.as_u256() < bits_target, "work below the target");
    let h = &block.header;
    check_eq!(h.version, if old { version } else { 4 }, "version");
    check_eq!((h.timestamp, h.hash_prev_block, h.target), (time, prev, bits_target), "timestamp, previous hash, target");
    let mut bytes = vec![];
    h.try_format(&mut bytes).map_err(|e| format!("{e:?}"))?;
    check_eq!(h.hash.to_bytes_le(), dsha(&bytes), "hash of the header");
    let own: Vec<_> = ms.iter().map(|m| m.to_interbtc()).collect();
    check!(block.transactions[coinbase as usize..] == own[..], "the block has other transactions");
    if coinbase {
        use bitcoin::types::{Transaction, TransactionInputSource};
        let c: &Transaction = &block.transactions[0];
        check_eq!((c.inputs.len(), c.outputs.len()), (1, 1), "inputs and outputs of the coinbase");
        check!(c.inputs[0].source == TransactionInputSource::Coinbase(Some(height)), "height of the coinbase");
        check_eq!(c.outputs[0].value, reward, "reward of the coinbase");
        check!(c.outputs[0].script == bitcoin::Address::default().to_script_pub_key(), "recipient of the coinbase");
    }
    let id = H256Le::from_bytes_le(&ids[s.idx(ids.len())]);
    let p = block.merkle_proof(&[id]).map_err(|e| format!("{e:?}"))?;
    let h = MerkleTree::compute_height(ids.len() as u32);
    let mut hh = 0;
    while (1usize << hh) < ids.len() {
        hh += 1;
    }
    check_eq!(h, hh, "height of the tree");
    check_eq!(p.compute_partial_tree_height(), hh, "height of the tree");
    // any node of the tree
    let hashes: Vec<H256Le> = ids.iter().map(|i| H256Le::from_bytes_le(i)).collect();
    let mut level = ids.clone();
    let at = s.idx(hh as usize + 1) as u32;
    for _ in 0..at {
        level = level.chunks(2).map(|c| step(&c[0], c.get(1).unwrap_or(&c[0]))).collect();
    }
    let k = s.idx(level.len());
    let n = ids.len() as u32;
    check_eq!(MerkleTree::compute_width(n, at) as usize, level.len(), "width of level {at} of {n}");
    check_eq!(p.compute_partial_tree_width(at) as usize, level.len(), "width of level {at} of {n}");
    let node = MerkleTree::compute_root(k as u32, at, n, &hashes).map_err(|e| format!("{e:?}"))?;
    check_eq!(node.to_bytes_le(), level[k], "node {k} of level {at} of {n}");
    let node = p.compute_merkle_root(k as u32, at, &hashes).map_err(|e| format!("{e:?}"))?;
    check_eq!(node.to_bytes_le(), level[k], "node {k} of level {at} of {n}");
    Ok(())
}

enum RefOut {
    Bad(&'static str),
    /// root, matches (position, index of the hash), and whether equal siblings were seen
    Good([u8; 32], Vec<(u32, usize)>, bool),
}

/// Bitcoin Core's CPartialMerkleTree::ExtractMatches, without its rejection of equal siblings
fn ref_extract(n: u32, bits: &[bool], hashes: &[[u8; 32]]) -> RefOut {
    if n == 0 {
        return RefOut::Bad("no transactions");
    }
    if n > 4_000_000 / 240 {
        return RefOut::Bad("too many transactions");
    }
    if hashes.len() > n as usize {
        // implied by the rules below: a tree of n leaves uses at most n hashes
        return RefOut::Bad("more hashes than transactions");
    }
    if bits.len() < hashes.len() {
        return RefOut::Bad("fewer bits than hashes");
    }
    struct T<'a> {
        n: u64,
        bits: &'a [bool],
        hashes: &'a [[u8; 32]],
        b: usize,
        h: usize,
        m: Vec<(u32, usize)>,
        bad: bool,
        twins: bool,
    }
    impl<'a> T<'a> {
        fn width(&self, height: u32) -> u64 {
            (self.n + (1 << height) - 1) >> height
        }
        fn go(&mut self, height: u32, pos: u64) -> [u8; 32] {
            if self.bad || self.b >= self.bits.len() {
                self.bad = true;
                return [0; 32];
            }
            let f = self.bits[self.b];
            self.b += 1;
            if height == 0 || !f {
                if self.h >= self.hashes.len() {
                    self.bad = true;
                    return [0; 32];
                }
                let x = self.hashes[self.h];
                if height == 0 && f {
                    self.m.push((pos as u32, self.h));
                }
                self.h += 1;
                return x;
            }
            let l = self.go(height - 1, pos * 2);
            let r = if pos * 2 + 1 < self.width(height - 1) {
                let r = self.go(height - 1, pos * 2 + 1);
                if r == l {
                    self.twins = true;
                }
                r
            } else {
                l
            };
            step(&l, &r)
        }
    }
    let mut t = T {
        n: n as u64,
        bits,
        hashes,
        b: 0,
        h: 0,
        m: vec![],
        bad: false,
        twins: false,
    };
    let mut height = 0;
    while t.width(height) > 1 {
        height += 1;
    }
    let root = t.go(height, 0);
    if t.bad {
        return RefOut::Bad("ran out of bits or hashes");
    }
    if (t.b + 7) / 8 != (bits.len() + 7) / 8 {
        return RefOut::Bad("unused bits");
    }
    if t.h != hashes.len() {
        return RefOut::Bad("unused hashes");
    }
    RefOut::Good(root, t.m, t.twins)
}

/// C06: an adversary's proof is accepted only if it shows inclusion
pub fn c06_sound(s: &mut Src) -> R {
    let n = match s.weighted(&[6, 4, 1]) {
        0 => s.uniform(1, 9),
        1 => s.uniform(1, 34),
        _ => s.uniform(30, 140),
    } as usize;
    let seed = s.u64();
    let ms: Vec<MTx> = (0..n as u64).map(|i| small_tx(seed, i)).collect();
    let ids: Vec<[u8; 32]> = ms.iter().map(|m| m.txid()).collect();
    let root = ref_root(&ids);
    let block = Block {
        header: header(root, s),
        transactions: ms.iter().map(|m| m.to_interbtc()).collect(),
    };
    let pos = s.idx(n);
    let mut proof = block
        .merkle_proof(&[H256Le::from_bytes_le(&ids[pos])])
        .map_err(|e| format!("{e:?}"))?;
    let outsider = small_tx(seed ^ 1, n as u64);
    let mut shown = if s.ratio(1, 6) { outsider.clone() } else { ms[pos].clone() };
    let mut len = ms[pos].encode(false).len() as u32;
    let mut log: Vec<String> = vec![];
    s.repeat(0, 4, |s| {
        let h2 = |s: &mut Src| match s.below(4) {
            0 => outsider.txid(),
            1 => root,
            2 => ids[s.idx(n)],
            _ => s.arr::<32>(),
        };
        match s.below(14) {
            0 => {
                let i = s.idx(proof.flag_bits.len().max(1));
                if let Some(b) = proof.flag_bits.get_mut(i) {
                    *b = !*b;
                }
                log.push(format!("flip flag {i}"));
            }
            1 => {
                let i = s.idx(proof.hashes.len() + 1);
                proof.hashes.insert(i, H256Le::from_bytes_le(&h2(s)));
                log.push(format!("insert hash {i}"));
            }
            2 if !proof.hashes.is_empty() => {
                let i = s.idx(proof.hashes.len());
                proof.hashes.remove(i);
                log.push(format!("remove hash {i}"));
            }
            3 if !proof.hashes.is_empty() => {
                let i = s.idx(proof.hashes.len());
                proof.hashes[i] = H256Le::from_bytes_le(&h2(s));
                log.push(format!("replace hash {i}"));
            }
            4 if proof.hashes.len() > 1 => {
                let i = s.idx(proof.hashes.len());
                let j = s.idx(proof.hashes.len());
                proof.hashes.swap(i, j);
                log.push(format!("swap hashes {i} {j}"));
            }
            5 => {
                let k = 1 + s.idx(9);
                for _ in 0..k {
                    let b = s.ratio(1, 4);
                    proof.flag_bits.push(b);
                }
                log.push(format!("add {k} flags"));
            }
            6 => {
                let k = (1 + s.idx(8)).min(proof.flag_bits.len());
                let l = proof.flag_bits.len() - k;
                proof.flag_bits.truncate(l);
                log.push(format!("drop {k} flags"));
            }
            7 => {
                proof.transactions_count = match s.below(5) {
                    0 => 0,
                    1 => s.uniform(16_660, 16_670) as u32,
                    2 => (n as u64 + s.below(5)).saturating_sub(2) as u32,
                    3 => s.int(0, 300) as u32,
                    _ => s.u32(),
                };
                log.push(format!("count {}", proof.transactions_count));
            }
            8 => {
                len = match s.below(3) {
                    0 => len.saturating_sub(1 + s.below(3) as u32),
                    1 => s.int(0, 2 * len as u64) as u32,
                    _ => u32::MAX,
                };
                log.push(format!("length {len}"));
            }
            9 => {
                shown = ms[s.idx(n)].clone();
                log.push("another transaction of the block".into());
            }
            10 => {
                shown = outsider.clone();
                log.push("a transaction not in the block".into());
            }
            11 => {
                // a committed field of the shown transaction
                shown.outs[0].0 += 1;
                log.push("another value".into());
            }
            12 => {
                let i = s.idx(proof.flag_bits.len() + 1);
                let b = s.bool();
                proof.flag_bits.insert(i, b);
                log.push(format!("insert flag {i} {b}"));
            }
            _ => {
                // a hash that is not used for the root cannot be smuggled: append the id of the outsider
                proof.hashes.push(H256Le::from_bytes_le(&outsider.txid()));
                proof.flag_bits.push(true);
                log.push("append a flagged hash".into());
            }
        }
    });
    let text = || {
        format!(
            "block of {n}, proof for {pos}, [{}], shown {}",
            log.join("; "),
            hex(&shown.txid()[..4])
        )
    };
    s.note(text);
    s.sample(text);
    if !log.is_empty() {
        s.nontrivial();
    }
    let hashes: Vec<[u8; 32]> = proof.hashes.iter().map(|h| h.to_bytes_le()).collect();
    let want = ref_extract(proof.transactions_count, &proof.flag_bits, &hashes);
    let t = shown.to_interbtc();
    let count_kept = proof.transactions_count as usize == n;
    let shown_len = shown.encode(false).len() as u32;
    let shown_id = shown.txid();
    let arg = PartialTransactionProof {
        transaction: t.clone(),
        tx_encoded_len: len,
        merkle_proof: proof,
    };
    let got: Result<ProofResult, _> = guarded(|| arg.verify_proof())?;
    match (&got, &want) {
        (Ok(_), RefOut::Bad(why)) => fail!("accepted although malformed: {why}"),
        (Ok(r), RefOut::Good(rr, m, _)) => {
            s.label("accepted");
            check_eq!(r.extracted_root.to_bytes_le(), *rr, "extracted root");
            check_eq!(r.transaction_hash.to_bytes_le(), shown_id, "id of the shown transaction");
            check!(r.transaction == t, "another transaction");
            check!(shown_len <= len, "accepted although longer than declared");
            check!(
                m.iter()
                    .any(|(p, h)| *p == r.transaction_position && hashes[*h] == shown_id),
                "the position is not that of a match"
            );
            if r.extracted_root.to_bytes_le() == root {
                check!(
                    ids.contains(&shown_id),
                    "a transaction that is not in the block is shown to be under its root"
                );
                if count_kept {
                    s.label("accepted under the root");
                    check_eq!(
                        ids.get(r.transaction_position as usize),
                        Some(&shown_id),
                        "transaction at the proved position"
                    );
                }
            }
        }
        (Err(_), RefOut::Bad(_)) => s.label("malformed"),
        (Err(e), RefOut::Good(_, m, twins)) => {
            s.label("rejected");
            let rightful = m.len() == 1 && hashes[m[0].1] == shown_id && shown_len <= len && !*twins;
            check!(!rightful, "a well-formed proof is rejected: {e:?}");
        }
    }
    Ok(())
}

/// C06: the limit on the number of transactions, exactly
pub fn c06_limit(s: &mut Src) -> R {
    let n = match s.below(3) {
        0 => s.uniform(16_660, 16_672),
        1 => s.int(1, 70_000),
        _ => s.u64() & 0xffff_ffff,
    } as u32;
    s.note(|| format!("proof claiming {n} transactions"));
    s.sample(|| format!("proof claiming {n} transactions"));
    s.nontrivial();
    // the path to leaf 0 in a tree of n: one hash to the right of every level
    let t = small_tx(s.u64(), 0);
    let id = t.txid();
    let mut width = n as u64;
    let mut bits = vec![];
    let mut hashes = vec![H256Le::from_bytes_le(&id)];
    let mut root = id;
    let mut levels = 0;
    while width > 1 {
        let sib = s.arr::<32>();
        hashes.push(H256Le::from_bytes_le(&sib));
        root = step(&root, &sib);
        width = (width + 1) / 2;
        levels += 1;
    }
    for _ in 0..=levels {
        bits.push(true);
    }
    for _ in 0..levels {
        bits.push(false);
    }
    let p = MerkleProof {
        block_header: header(root, s),
        flag_bits: bits,
        transactions_count: n,
        hashes,
    };
    let r = guarded(|| {
        PartialTransactionProof {
            transaction: t.to_interbtc(),
            tx_encoded_len: 1000,
            merkle_proof: p,
        }
        .verify_proof()
    })?;
    if n >= 1 && n <= 16_666 {
        s.label("within");
        let r = r.map_err(|e| format!("a proof in a block of {n} is rejected: {e:?}"))?;
        check_eq!(r.extracted_root.to_bytes_le(), root, "root");
        check_eq!(r.transaction_position, 0, "position");
    } else {
        s.label("beyond");
        check!(r.is_err(), "a proof in a block of {n} transactions is accepted");
    }
    Ok(())
}

/// mantissa · 256^(exponent-3), as 64 big-endian bytes
fn ref_expand(bits: u32) -> [u8; 64] {
    let size = (bits >> 24) as i64;
    let m = [(bits >> 16) as u8 & 0x7f, (bits >> 8) as u8, bits as u8];
    let mut out = [0u8; 64];
    for (i, b) in m.iter().enumerate() {
        // byte i has weight 256^(size-1-i)
        let w = size - 1 - i as i64;
        if w >= 0 && w < 64 {
            out[63 - w as usize] = *b;
        }
    }
    out
}

/// C07: reading a compact target
pub fn c07_decode(s: &mut Src) -> R {
    let bits = match s.below(3) {
        0 => ((s.below(40) as u32) << 24) | s.below(1 << 24) as u32,
        1 => {
            let e = s.uniform(30, 36) as u32;
            let m = *s.pick(&[0u32, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x800000, 0x800001]);
            e << 24 | m
        }
        _ => s.u32(),
    };
    s.note(|| format!("{bits:08x}"));
    s.sample(|| format!("{bits:08x}"));
    let size = bits >> 24;
    let wide = ref_expand(bits);
    let mag_zero = if size <= 60 { wide.iter().all(|b| *b == 0) } else { bits & 0x7fffff == 0 };
    let negative = bits & 0x800000 != 0 && !mag_zero;
    let overflow = if size <= 60 {
        wide[..32].iter().any(|b| *b != 0)
    } else {
        bits & 0x7fffff != 0
    };
    let got = guarded(|| U256::set_compact(bits))?;
    if negative || overflow {
        s.label("not a target");
        check_eq!(got, None, "negative or too large");
        return Ok(());
    }
    if !mag_zero {
        s.nontrivial();
        s.label("target");
    }
    let want = U256::from_big_endian(&wide[32..]);
    check_eq!(got, Some(want), "value");
    // a value read back is written in its unique shortest form, with the same value
    let c = want.get_compact().ok_or("no compact form")?;
    check_eq!(U256::set_compact(c), Some(want), "value of the rewritten form");
    let rt = rust_bitcoin::pow::Target::from_be_bytes({
        let mut b = [0; 32];
        want.to_big_endian(&mut b);
        b
    });
    check_eq!(c, rt.to_compact_lossy().to_consensus(), "rust-bitcoin's compact form");
    Ok(())
}

/// C07: writing a compact target keeps its first three bytes, and orders targets as they are
pub fn c07_encode(s: &mut Src) -> R {
    let mut b = s.arr::<32>();
    let k = s.idx(33);
    for x in b.iter_mut().take(k) {
        *x = 0;
    }
    if k < 32 && s.bool() {
        b[k] = *s.pick(&[1u8, 0x7f, 0x80, 0xff]);
    }
    let v = U256::from_big_endian(&b);
    s.note(|| format!("{v:x}"));
    s.sample(|| format!("{v:x}"));
    if !v.is_zero() {
        s.nontrivial();
    }
    let c = guarded(|| v.get_compact())?.ok_or("no compact form")?;
    check!(c & 0x0080_0000 == 0, "sign bit set in {c:08x}");
    let d = U256::set_compact(c).ok_or("its compact form is not a target")?;
    check!(d <= v, "{d:x} is more than {v:x}");
    // no 23 bit prefix of v is larger: the first three significant bytes survive (two below a set sign bit)
    let first = b.iter().position(|x| *x != 0).unwrap_or(32);
    let keep = if first < 32 && b[first] >= 0x80 { 2 } else { 3 };
    let mut w = [0u8; 32];
    for i in first..32.min(first + keep) {
        w[i] = b[i];
    }
    check_eq!(d, U256::from_big_endian(&w), "truncated value");
    let rt = rust_bitcoin::pow::Target::from_be_bytes(b);
    check_eq!(c, rt.to_compact_lossy().to_consensus(), "rust-bitcoin's compact form");
    // written in a header
    let mut out = vec![];
    v.try_format(&mut out).map_err(|e| format!("{e:?}"))?;
    check_eq!(out, c.to_le_bytes().to_vec(), "bytes in a header");
    Ok(())
}

/// exact n·k/m for a 256 bit n, as 40 big-endian bytes
fn mul_div(n: U256, k: u64, m: u64) -> [u8; 40] {
    let mut be = [0u8; 32];
    n.to_big_endian(&mut be);
    // base 256 schoolbook
    let mut prod = [0u64; 40];
    let mut carry: u128 = 0;
    for i in (0..40).rev() {
        let d = if i >= 8 { be[i - 8] } else { 0 };
        let x = d as u128 * k as u128 + carry;
        prod[i] = (x & 0xff) as u64;
        carry = x >> 8;
    }
    assert_eq!(carry, 0);
    let mut out = [0u8; 40];
    let mut rem: u128 = 0;
    for i in 0..40 {
        let x = (rem << 8) | prod[i] as u128;
        out[i] = (x / m as u128) as u8;
        rem = x % m as u128;
    }
    out
}

/// C07: the logarithms are rounded up; a hash is a number, written from its last byte to its first
pub fn c07_numbers(s: &mut Src) -> R {
    use bitcoin::utils::{hash256_merkle_step, log2, log256, reverse_endianness, sha256d, sha256d_be, sha256d_le};
    use primitive_types::H256;
    let bits = s.idx(65) as u32;
    let v = match s.below(3) {
        0 => 1u64.checked_shl(bits.min(63)).unwrap_or(1),
        1 => (1u64 << bits.min(63)).wrapping_add(s.below(3)).wrapping_sub(1),
        _ => s.u64() >> (bits % 64),
    }
    .max(1);
    s.nontrivial();
    s.sample(|| format!("{v}"));
    let l = guarded(|| log2(v))?;
    check!((1u128 << l) >= v as u128, "log2({v}) = {l} is too low");
    check!(l == 0 || (1u128 << (l - 1)) < v as u128, "log2({v}) = {l} is too high");
    let mut b = s.arr::<32>();
    let k = s.idx(33);
    for x in b.iter_mut().take(k) {
        *x = 0;
    }
    if s.bool() {
        // a power of 256, and its neighbours
        b = [0; 32];
        b[31 - k % 32] = 1;
    }
    let mut n = U256::from_big_endian(&b);
    if s.ratio(1, 4) && !n.is_zero() {
        n = n - 1;
    } else if s.ratio(1, 4) {
        n = n.overflowing_add(1.into()).0;
    }
    if !n.is_zero() {
        let l = guarded(|| log256(&n))? as usize;
        check!(l <= 32, "log256({n}) = {l}");
        check!(l == 32 || (U256::one() << (8 * l)) >= n, "log256({n}) = {l} is too low");
        check!(l == 0 || (U256::one() << (8 * (l - 1))) < n, "log256({n}) = {l} is too high");
    }
    let mut le = b;
    n.to_little_endian(&mut le);
    let mut be = le;
    be.reverse();
    let h = H256Le::from_bytes_le(&le);
    check_eq!(h.to_bytes_le(), le, "bytes from the first");
    check_eq!(h.to_bytes_be(), be, "bytes from the last");
    check_eq!(H256Le::from_bytes_be(&be), h, "from bytes from the last");
    check_eq!(h.as_u256(), n, "as a number");
    check_eq!(h.is_zero(), n.is_zero(), "zero");
    check_eq!(h.to_hex_be(), hex(&be), "in hex from the last");
    check_eq!(h.to_hex_le(), hex(&le), "in hex from the first");
    check_eq!(H256Le::from_hex_be(&hex(&be)), h, "from hex from the last");
    check_eq!(H256Le::from_hex_le(&hex(&le)), h, "from hex from the first");
    check_eq!(format!("{h}"), format!("0x{}", hex(&be)), "shown");
    check_eq!(format!("{h:x}"), hex(&be), "shown in hex");
    check_eq!(reverse_endianness(&le), be.to_vec(), "reversed");
    check!(h == H256::from_slice(&be) && H256::from_slice(&be) == h, "the same hash compared");
    check!(le == be || !(h == H256::from_slice(&le)), "another hash compared");
    check_eq!(h.sha256d().to_bytes_le(), dsha(&le), "hashed again");
    // hashes of bytes
    let data = blob(s, 300);
    check_eq!(sha256d(&data), dsha(&data), "double hash");
    check_eq!(sha256d_le(&data).to_bytes_le(), dsha(&data), "double hash from the first byte");
    check_eq!(sha256d_be(&data).0, dsha(&data), "double hash as it comes");
    let other = s.arr::<32>();
    check_eq!(hash256_merkle_step(&le, &other).to_bytes_le(), step(&le, &other), "two hashed together");
    // from integers
    let i = s.u64();
    let mut want = [0u8; 32];
    want[..8].copy_from_slice(&i.to_le_bytes());
    check_eq!(H256Le::from(i).to_bytes_le(), want, "from u64");
    check_eq!(H256Le::from(i as i64).to_bytes_le(), want, "from i64");
    want[4..8].fill(0);
    check_eq!(H256Le::from(i as u32).to_bytes_le(), want, "from u32");
    check_eq!(H256Le::from(i as i32).to_bytes_le(), want, "from i32");
    want[2..4].fill(0);
    check_eq!(H256Le::from(i as u16).to_bytes_le(), want, "from u16");
    check_eq!(H256Le::from(i as i16).to_bytes_le(), want, "from i16");
    want[1] = 0;
    check_eq!(H256Le::from(i as u8).to_bytes_le(), want, "from u8");
    check_eq!(H256Le::from(i as i8).to_bytes_le(), want, "from i8");
    Ok(())
}

/// C54: the estimated size of a transaction, against one written out with keys of 33 and signatures of 72 bytes
pub fn c54_size(s: &mut Src) -> R {
    use bitcoin::utils::{virtual_transaction_size, InputType, TransactionInputMetadata, TransactionOutputMetadata};
    let n = match s.weighted(&[20, 6, 1]) {
        0 => s.int(1, 12) as u32,
        1 => s.int(245, 260) as u32,
        _ => s.int(65_530, 65_540) as u32,
    };
    let big = n > 1000;
    let mut outs = [0u32; 4];
    for x in outs.iter_mut() {
        *x = match s.weighted(&[10, 8, 3, 1]) {
            0 => 0,
            1 => s.int(0, 6) as u32,
            2 => s.int(60, 130) as u32,
            _ if big => s.int(0, 6) as u32,
            _ => s.int(65_500, 65_540) as u32,
        };
    }
    let keys = s.int(1, if big { 2 } else { 15 }) as u32;
    let sigs = s.int(1, keys as u64) as u32;
    let kind = s.below(3);
    let push = |v: &mut Vec<u8>, data: &[u8]| {
        match data.len() {
            0..=75 => v.push(data.len() as u8),
            76..=255 => v.extend([0x4c, data.len() as u8]),
            _ => {
                v.push(0x4d);
                v.extend((data.len() as u16).to_le_bytes());
            }
        }
        v.extend(data);
    };
    let (mut script, mut witness) = (vec![], vec![]);
    let (key, sig) = ([2u8; 33], [0x30u8; 72]);
    let script_type = match kind {
        0 => {
            push(&mut script, &sig);
            push(&mut script, &key);
            InputType::P2PKH
        }
        1 => {
            let mut redeem = vec![0x50 + sigs as u8];
            for _ in 0..keys {
                push(&mut redeem, &key);
            }
            redeem.extend([0x50 + keys as u8, 0xae]);
            script.push(0);
            for _ in 0..sigs {
                push(&mut script, &sig);
            }
            push(&mut script, &redeem);
            InputType::P2SH { num_signatures: sigs, num_pubkeys: keys }
        }
        _ => {
            witness = vec![sig.to_vec(), key.to_vec()];
            InputType::P2WPKHv0
        }
    };
    let input = MIn { source: Src0::Out([7; 32], 1), script, sequence: 0, witness };
    let body = |n: usize| vec![0u8; n];
    let mut m = MTx { version: 2, ins: vec![input; n as usize], outs: vec![], lock: 0 };
    for (k, len) in [25usize, 23, 22, 34].iter().enumerate() {
        m.outs.extend((0..outs[k]).map(|_| (1, body(*len))));
    }
    let describe = || format!("{n} inputs of kind {kind} ({sigs} of {keys}), outputs {outs:?}");
    s.note(describe);
    s.sample(describe);
    if n > 1 && outs.iter().sum::<u32>() > 1 {
        s.nontrivial();
    }
    let base = m.encode(false).len() as u64;
    let total = m.encode(true).len() as u64;
    let weight = 3 * base + total;
    let size = guarded(|| {
        virtual_transaction_size(
            TransactionInputMetadata { count: n, script_type },
            TransactionOutputMetadata { num_p2pkh: outs[0], num_p2sh: outs[1], num_p2wpkh: outs[2], num_op_return: outs[3] },
        )
    })? as u64;
    // the length bytes of all witnesses are counted as one number
    let less = if kind == 2 { n as u64 } else { 0 };
    let (lo, hi) = ((weight - less + 3) / 4, (weight + 3) / 4);
    check!(lo <= size && size <= hi, "the size is told as {size}, it is {hi}");
    Ok(())
}

/// C07: the difficulty adjustment
pub fn c07_retarget(s: &mut Src) -> R {
    const SPAN: u64 = 1_209_600;
    // a previous target: any up to the largest one allowed
    let mut b = s.arr::<32>();
    for x in b.iter_mut().take(4) {
        *x = 0;
    }
    let k = 4 + s.idx(29);
    for x in b.iter_mut().take(k) {
        *x = 0;
    }
    let mut prev = U256::from_big_endian(&b);
    if s.ratio(1, 3) {
        prev = U256::set_compact(prev.get_compact().unwrap()).unwrap();
    }
    if s.ratio(1, 8) {
        prev = (U256::from(1u8) << 224) - U256::from(1 + s.below(3));
    }
    let first = match s.below(3) {
        0 => 0,
        _ => s.int(0, u32::MAX as u64),
    };
    let gap: i64 = match s.below(7) {
        0 => -(s.int(0, SPAN * 4) as i64),
        1 => (SPAN / 4) as i64 + s.uniform(0, 4) as i64 - 2,
        2 => (SPAN * 4) as i64 + s.uniform(0, 4) as i64 - 2,
        3 => SPAN as i64 + s.uniform(0, 200_000) as i64 - 100_000,
        4 => s.uniform(0, SPAN * 5) as i64,
        5 => s.int(0, SPAN * 5) as i64,
        _ => s.int(0, u32::MAX as u64) as i64,
    };
    let last = (first as i64 + gap).max(0) as u64;
    s.note(|| format!("target {prev:x}, from {first} to {last}"));
    s.sample(|| format!("target {prev:x}, from {first} to {last}"));
    if !prev.is_zero() {
        s.nontrivial();
    }
    let span = (last as i128 - first as i128).clamp(SPAN as i128 / 4, SPAN as i128 * 4) as u64;
    s.label(if span == SPAN / 4 {
        "fastest"
    } else if span == SPAN * 4 {
        "slowest"
    } else {
        "between"
    });
    let wide = mul_div(prev, span, SPAN);
    let mut want = if wide[..8].iter().any(|x| *x != 0) {
        U256::MAX
    } else {
        U256::from_big_endian(&wide[8..])
    };
    let max = (U256::from(1u8) << 224) - 1;
    if want > max {
        s.label("at the limit");
        want = max;
    }
    let mut wb = [0; 32];
    want.to_big_endian(&mut wb);
    let want_bits = rust_bitcoin::pow::Target::from_be_bytes(wb)
        .to_compact_lossy()
        .to_consensus();
    let got = guarded(|| calculate_next_work_required(prev, first, last))?.map_err(|e| format!("{e:?}"))?;
    check!(got == want_bits, "next work {got:08x} instead of {want_bits:08x}");
    Ok(())
}
