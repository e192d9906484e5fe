//! C55: the form in which Bitcoin's types are stored on the chain, submitted to it and shown by it
use crate::model::*;
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    types::{BlockChain, BlockHeader, FullTransactionProof, H256Le, Transaction},
    Address, PublicKey,
};
use codec::{Decode, Encode, MaxEncodedLen};
use pbt::{check, check_eq, guarded, Src, R};
use primitive_types::{H160, H256, U256};

/// SCALE's compact length
fn compact(o: &mut Vec<u8>, n: usize) {
    match n {
        0..=0x3f => o.push((n as u8) << 2),
        0x40..=0x3fff => o.extend(((n as u16) << 2 | 1).to_le_bytes()),
        _ => o.extend(((n as u32) << 2 | 2).to_le_bytes()),
    }
}
fn bytes(o: &mut Vec<u8>, b: &[u8]) {
    compact(o, b.len());
    o.extend(b);
}
fn m_tx(o: &mut Vec<u8>, m: &MTx) {
    o.extend(m.version.to_le_bytes());
    compact(o, m.ins.len());
    for i in &m.ins {
        match &i.source {
            Src0::Out(h, n) => {
                o.push(0);
                o.extend(h);
                o.extend(n.to_le_bytes());
            }
            Src0::Coinbase(None) => o.extend([1, 0]),
            Src0::Coinbase(Some(n)) => {
                o.extend([1, 1]);
                o.extend(n.to_le_bytes());
            }
        }
        bytes(o, &i.script);
        o.extend(i.sequence.to_le_bytes());
        compact(o, i.witness.len());
        for w in &i.witness {
            bytes(o, w);
        }
    }
    compact(o, m.outs.len());
    for (v, s) in &m.outs {
        o.extend(v.to_le_bytes());
        bytes(o, s);
    }
    o.push(if m.lock < 500_000_000 { 1 } else { 0 });
    o.extend(m.lock.to_le_bytes());
}

struct MHeader {
    root: [u8; 32],
    target: [u8; 32],
    time: u32,
    version: i32,
    hash: [u8; 32],
    prev: [u8; 32],
    nonce: u32,
}
fn header(s: &mut Src) -> MHeader {
    MHeader { root: s.arr(), target: s.arr(), time: s.u32(), version: s.u32() as i32, hash: s.arr(), prev: s.arr(), nonce: s.u32() }
}
impl MHeader {
    fn encode(&self, o: &mut Vec<u8>) {
        o.extend(self.root);
        o.extend(self.target);
        o.extend(self.time.to_le_bytes());
        o.extend(self.version.to_le_bytes());
        o.extend(self.hash);
        o.extend(self.prev);
        o.extend(self.nonce.to_le_bytes());
    }
    fn real(&self) -> BlockHeader {
        BlockHeader {
            merkle_root: H256Le::from_bytes_le(&self.root),
            target: U256::from_little_endian(&self.target),
            timestamp: self.time,
            version: self.version,
            hash: H256Le::from_bytes_le(&self.hash),
            hash_prev_block: H256Le::from_bytes_le(&self.prev),
            nonce: self.nonce,
        }
    }
}

fn partial(s: &mut Src, o: &mut Vec<u8>) -> PartialTransactionProof {
    let m = tx(s);
    let h = header(s);
    let (len, count) = (s.u32(), s.u32());
    let flags: Vec<bool> = s.list(0, 70, |s| s.bool());
    let hashes: Vec<[u8; 32]> = s.list(0, 20, |s| s.arr());
    m_tx(o, &m);
    o.extend(len.to_le_bytes());
    h.encode(o);
    compact(o, flags.len());
    o.extend(flags.iter().map(|f| *f as u8));
    o.extend(count.to_le_bytes());
    compact(o, hashes.len());
    hashes.iter().for_each(|h| o.extend(h));
    s.note(|| format!("{} flags, {} hashes, {}", flags.len(), hashes.len(), m.summary()));
    PartialTransactionProof {
        transaction: m.to_interbtc(),
        tx_encoded_len: len,
        merkle_proof: MerkleProof {
            block_header: h.real(),
            flag_bits: flags,
            transactions_count: count,
            hashes: hashes.iter().map(|h| H256Le::from_bytes_le(h)).collect(),
        },
    }
}

fn both<T: Encode + Decode + PartialEq + std::fmt::Debug>(s: &mut Src, v: &T, want: &[u8], what: &str) -> R {
    let got = v.encode();
    check!(got == want, "{what} is stored as {} instead of {}", short(&got), short(want));
    let mut more = want.to_vec();
    more.extend(s.bytes(0, 3));
    let rest = &mut &more[..];
    let back = T::decode(rest).map_err(|e| format!("{what} cannot be read back: {e}"))?;
    check!(back == *v, "{what} reads back as {back:?} instead of {v:?}");
    check_eq!(rest.len(), more.len() - want.len(), "what is left after {what}");
    let cut = s.idx(want.len());
    check!(T::decode(&mut &want[..cut]).is_err(), "{what} is read from its first {cut} bytes");
    Ok(())
}

pub fn address(s: &mut Src) -> (Address, u8, Vec<u8>) {
    let k = s.idx(4);
    let h: [u8; 32] = s.arr();
    let short = H160::from_slice(&h[..20]);
    match k {
        0 => (Address::P2PKH(short), 0, h[..20].to_vec()),
        1 => (Address::P2SH(short), 1, h[..20].to_vec()),
        2 => (Address::P2WPKHv0(short), 2, h[..20].to_vec()),
        _ => (Address::P2WSHv0(H256(h)), 3, h.to_vec()),
    }
}

/// C55: proofs, transactions and headers
pub fn c55_proof(s: &mut Src) -> R {
    let mut want = vec![];
    let a = partial(s, &mut want);
    let one = want.len();
    let b = partial(s, &mut want);
    s.nontrivial();
    s.sample(|| format!("two proofs of {one} and {} bytes", want.len() - one));
    let p = FullTransactionProof { user_tx_proof: a, coinbase_proof: b };
    both(s, &p, &want, "a proof of a payment")?;
    both(s, &p.user_tx_proof, &want[..one], "a proof of a transaction")?;
    let t = &p.coinbase_proof.transaction;
    let n = t.encoded_size();
    both(s, t, &want[one..one + n], "a transaction")?;
    Ok(())
}

/// C55: what is stored by itself, within its declared length; and what is shown as text
pub fn c55_value(s: &mut Src) -> R {
    s.nontrivial();
    let h = header(s);
    let real = h.real();
    let mut want = vec![];
    h.encode(&mut want);
    both(s, &real, &want, "a header")?;
    check_eq!(BlockHeader::max_encoded_len(), want.len(), "length of headers");
    let hash = H256Le::from_bytes_le(&h.root);
    both(s, &hash, &h.root, "a hash")?;
    check_eq!(H256Le::max_encoded_len(), 32, "length of hashes");
    let json = serde_json::to_string(&hash).map_err(|e| e.to_string())?;
    let list: Vec<String> = h.root.iter().map(|b| b.to_string()).collect();
    check_eq!(json, format!("{{\"content\":[{}]}}", list.join(",")), "hash as JSON");
    check!(serde_json::from_str::<H256Le>(&json).ok() == Some(hash), "hash from JSON");
    let c = BlockChain { chain_id: s.u32(), start_height: s.u32(), max_height: s.u32() };
    let want = [c.chain_id.to_le_bytes(), c.start_height.to_le_bytes(), c.max_height.to_le_bytes()].concat();
    both(s, &c, &want, "a chain")?;
    check_eq!(BlockChain::max_encoded_len(), 12, "length of chains");
    let (a, kind, body) = address(s);
    s.note(|| format!("{a:?}"));
    s.sample(|| format!("{a:?}"));
    let mut want = vec![kind];
    want.extend(&body);
    both(s, &a, &want, "an address")?;
    check_eq!(Address::max_encoded_len(), 33, "length of addresses");
    let name = ["P2PKH", "P2SH", "P2WPKHv0", "P2WSHv0"][kind as usize];
    let want = format!("{{\"{name}\":\"0x{}\"}}", hex(&body));
    check_eq!(serde_json::to_string(&a).map_err(|e| e.to_string())?, want, "address as JSON");
    check!(serde_json::from_str::<Address>(&want).ok() == Some(a), "address from JSON");
    let (b, k2, body2) = address(s);
    check_eq!(a.cmp(&b), (kind, &body).cmp(&(k2, &body2)), "order of {a:?} and {b:?}");
    check_eq!(a == b, (kind, &body) == (k2, &body2), "equality of {a:?} and {b:?}");
    let key: [u8; 33] = s.arr();
    let k = PublicKey::from(key);
    both(s, &k, &key, "a public key")?;
    check_eq!(PublicKey::max_encoded_len(), 33, "length of public keys");
    let want = format!("\"0x{}\"", hex(&key));
    check_eq!(serde_json::to_string(&k).map_err(|e| e.to_string())?, want, "public key as JSON");
    check!(serde_json::from_str::<PublicKey>(&want).ok() == Some(k.clone()), "public key from JSON");
    let other = s.bytes(0, 40);
    if other.len() != 33 {
        let text = format!("\"0x{}\"", hex(&other));
        check!(serde_json::from_str::<PublicKey>(&text).is_err(), "a public key of {} bytes", other.len());
    }
    Ok(())
}

/// C55: whatever bytes are submitted, they are refused or are the one form of what is read
pub fn c55_submitted(s: &mut Src) -> R {
    let mut b = vec![];
    partial(s, &mut b);
    for _ in 0..s.int(1, 4) {
        if b.is_empty() {
            break;
        }
        // most of what decides is in the first bytes
        let at = if s.bool() { s.idx(b.len().min(80)) } else { s.idx(b.len()) };
        match s.below(5) {
            0 => b[at] = s.below(256) as u8,
            1 => b[at] ^= 1 << s.below(8),
            2 => b.truncate(at),
            3 => {
                b.remove(at);
            }
            _ => {
                let mut n = vec![];
                compact(&mut n, *s.pick(&[0, 1, 63, 64, 16383, 16384, 1 << 20, (1 << 30) - 1]));
                b.splice(at..at, n);
            }
        }
    }
    s.nontrivial();
    s.note(|| hex(&b));
    s.sample(|| short(&b));
    let rest = &mut &b[..];
    let r = guarded(|| PartialTransactionProof::decode(rest)).map_err(|p| format!("reading a proof {p}"))?;
    if let Ok(p) = r {
        s.label("read");
        let used = b.len() - rest.len();
        check!(p.encode() == b[..used], "the proof read has another form");
    }
    let rest = &mut &b[..];
    let r = guarded(|| Transaction::decode(rest)).map_err(|p| format!("reading a transaction {p}"))?;
    if let Ok(p) = r {
        s.label("a transaction");
        let used = b.len() - rest.len();
        check!(p.encode() == b[..used], "the transaction read has another form");
    }
    Ok(())
}
