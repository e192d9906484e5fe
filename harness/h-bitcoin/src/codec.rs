//! C01..C04: transactions, their ids, the parsers on arbitrary bytes, block headers
use crate::model::*;
use bitcoin::{
    compat::ConversionError,
    formatter::TryFormat,
    merkle::MerkleProof,
    parser::{parse_block_header, parse_compact_uint, parse_transaction},
    types::{BlockHeader, H256Le, Transaction, TransactionInputSource},
};
use pbt::{check, check_eq, fail, guarded, Src, R};
use primitive_types::U256;
use rust_bitcoin::{
    blockdata::block,
    consensus::{deserialize, serialize, Decodable},
};

fn format<T: TryFormat>(t: &T) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    t.try_format(&mut b).map_err(|e| format!("formatting failed: {e:?}"))?;
    Ok(b)
}

fn interesting(m: &MTx) -> bool {
    m.has_witness() || m.ins.len() + m.outs.len() > 2 || matches!(m.ins[0].source, Src0::Coinbase(_))
}

fn classes(s: &mut Src, m: &MTx) {
    if m.has_witness() {
        s.label("segwit");
    }
    if matches!(m.ins[0].source, Src0::Coinbase(Some(_))) {
        s.label("coinbase with height");
    }
    if m.ins.len() > 252 || m.outs.len() > 252 {
        s.label("more than 252 inputs or outputs");
    }
    if m.ins.iter().any(|i| i.script.len() > 252) || m.outs.iter().any(|o| o.1.len() > 252) {
        s.label("script longer than 252");
    }
    if m.ins.iter().any(|i| i.script.len() > 65534) {
        s.label("script longer than 65534");
    }
    if interesting(m) {
        s.nontrivial();
    }
}

/// C01: what is written is the Bitcoin encoding, and reads back as the same transaction
pub fn c01_wire(s: &mut Src) -> R {
    let m = tx(s);
    classes(s, &m);
    s.note(|| m.summary());
    s.sample(|| m.summary());
    let want = m.encode(true);
    let t = m.to_interbtc();
    let got = format(&t)?;
    check!(got == want, "formatted as {} instead of {}", short(&got), short(&want));
    let back = parse_transaction(&want).map_err(|e| format!("cannot parse its own encoding: {e:?}"))?;
    check!(back == t, "parsed back differently: {back:?} instead of {t:?}");
    // trailing bytes belong to what follows
    let mut more = want.clone();
    more.extend(s.bytes(0, 5));
    let back = parse_transaction(&more).map_err(|e| format!("cannot parse with bytes following: {e:?}"))?;
    check!(back == t, "bytes following change what is parsed");
    Ok(())
}

/// C01: rust-bitcoin reads the same transaction, and the conversions agree with both encodings
pub fn c01_compat(s: &mut Src) -> R {
    let m = tx(s);
    classes(s, &m);
    s.note(|| m.summary());
    s.sample(|| m.summary());
    let bytes = m.encode(true);
    let reference: rust_bitcoin::Transaction = match deserialize(&bytes) {
        Ok(t) => t,
        Err(e) => fail!("the model is wrong, rust-bitcoin rejects it: {e}"),
    };
    check!(serialize(&reference) == bytes, "the model is wrong, rust-bitcoin encodes differently");
    let t = m.to_interbtc();
    let conv: Result<rust_bitcoin::Transaction, ConversionError> = t.clone().try_into();
    match conv {
        Ok(r) => check!(r == reference, "converted to a different rust-bitcoin transaction"),
        Err(e) => fail!("conversion to rust-bitcoin failed: {e:?}"),
    }
    let conv: Result<Transaction, ConversionError> = reference.try_into();
    match conv {
        Ok(r) => check!(r == t, "converted from rust-bitcoin to a different transaction"),
        Err(e) => fail!("conversion from rust-bitcoin failed: {e:?}"),
    }
    Ok(())
}

/// C01: the builders put together the transaction they are told to
pub fn c01_builder(s: &mut Src) -> R {
    use bitcoin::{
        types::{TransactionBuilder, TransactionInputBuilder, TransactionOutput},
        PublicKey, Script,
    };
    let mut m = tx(s);
    classes(s, &m);
    let mut b = TransactionBuilder::new();
    let defaults = s.ratio(1, 8);
    if defaults {
        (m.version, m.lock) = (2, 0);
    } else {
        b.with_version(m.version);
        if m.lock < 500_000_000 {
            b.with_block_height(m.lock);
        } else {
            b.with_locktime(m.lock);
        }
    }
    s.note(|| m.summary());
    s.sample(|| m.summary());
    let small = m.ins.len() < 20;
    for i in m.ins.iter_mut() {
        let mut ib = TransactionInputBuilder::new();
        match &i.source {
            Src0::Out(h, n) => ib.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(h), *n)),
            Src0::Coinbase(h) => ib.with_source(TransactionInputSource::Coinbase(*h)),
        };
        ib.with_sequence(i.sequence).with_script(&i.script);
        for w in &i.witness {
            ib.add_witness(w);
        }
        // the spending of an output paid to one key
        if small && s.ratio(1, 4) {
            let key = s.arr::<33>();
            let sig = s.bytes(1, 72);
            let k = PublicKey::from(key);
            if s.bool() {
                ib.with_p2pkh(&k, sig.clone());
                i.script = [&[sig.len() as u8], &sig[..], &[33], &key[..]].concat();
            } else {
                ib.with_p2wpkh(&k, sig.clone());
                i.witness = vec![sig, key.to_vec()];
            }
        }
        b.add_input(ib.build());
    }
    for (v, script) in &m.outs {
        b.add_output(TransactionOutput { value: *v, script: Script::from(script.clone()) });
        let x = Script::from(script.clone());
        check_eq!(x.len(), script.len(), "length of a script");
        check_eq!(x.is_empty(), script.is_empty(), "whether a script is empty");
        check!(x.as_bytes() == &script[..], "bytes of a script");
        check!(x.as_hex() == hex(script), "a script in hex");
        check!(Script::try_from(&hex(script)[..]) == Ok(x), "a script from hex");
    }
    let t = b.build();
    check!(t == m.to_interbtc(), "built {t:?} instead of {}", m.summary());
    check!(format(&t)? == m.encode(true), "the built transaction is written differently");
    Ok(())
}

/// C01: no strict prefix of a transaction is a transaction
pub fn c01_truncated(s: &mut Src) -> R {
    let m = tx(s);
    let b = m.encode(true);
    let cut = if s.bool() {
        s.uniform(0, b.len() as u64 - 1)
    } else {
        b.len() as u64 - 1 - s.below(40.min(b.len() as u64))
    } as usize;
    classes(s, &m);
    s.note(|| format!("{} cut at {cut} of {}", m.summary(), b.len()));
    s.sample(|| format!("{} cut at {cut} of {}", m.summary(), b.len()));
    match guarded(|| parse_transaction(&b[..cut])) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(t)) => fail!("a truncated transaction was accepted as {t:?}"),
        Err(p) => fail!("{p}"),
    }
}

/// C02: ids
pub fn c02_ids(s: &mut Src) -> R {
    let m = tx(s);
    classes(s, &m);
    s.note(|| m.summary());
    s.sample(|| m.summary());
    let base = m.encode(false);
    let full = m.encode(true);
    let t = m.to_interbtc();
    check_eq!(t.tx_id().to_bytes_le(), dsha(&base), "transaction id");
    check_eq!(t.hash().to_bytes_le(), dsha(&full), "witness transaction id");
    check_eq!(t.size_no_witness(), base.len(), "size without witness");
    let r: rust_bitcoin::Transaction = deserialize(&full).map_err(|e| e.to_string())?;
    let rid: [u8; 32] = *rust_bitcoin::hashes::Hash::as_byte_array(&r.txid());
    check_eq!(t.tx_id().to_bytes_le(), rid, "transaction id and rust-bitcoin's");
    check_eq!(t.is_coinbase(), r.is_coin_base(), "coinbase");
    // the id does not depend on witnesses
    let mut other = t.clone();
    for i in other.inputs.iter_mut() {
        i.witness = s.list(0, 2, |s| s.bytes(0, 40));
    }
    check_eq!(other.tx_id(), t.tx_id(), "transaction id after changing only witnesses");
    check_eq!(other.size_no_witness(), base.len(), "size after changing only witnesses");
    Ok(())
}

/// C02: the bounded id is the id, and is given exactly when the encoding fits
pub fn c02_bound(s: &mut Src) -> R {
    let m = tx(s);
    let base = m.encode(false);
    let n = base.len() as i64;
    let bound = match s.weighted(&[4, 2, 1]) {
        0 => (n - 6 + s.below(12) as i64).max(0) as u32,
        1 => s.uniform(0, n as u64) as u32,
        _ => s.u32(),
    };
    classes(s, &m);
    s.label(if bound as i64 >= n { "fits" } else { "does not fit" });
    s.note(|| format!("{} of {n} bytes, bound {bound}", m.summary()));
    s.sample(|| format!("{} of {n} bytes, bound {bound}", m.summary()));
    let t = m.to_interbtc();
    match t.tx_id_bounded(bound) {
        Ok(id) => {
            check!(bound as i64 >= n, "an id within {bound} bytes for an encoding of {n}");
            check_eq!(id, t.tx_id(), "bounded id");
        }
        Err(_) => check!((bound as i64) < n, "no id within {bound} bytes for an encoding of {n}"),
    }
    Ok(())
}

/// C02: different transactions have different ids: a change of any committed field changes the id
pub fn c02_sensitive(s: &mut Src) -> R {
    let m = tx(s);
    let mut o = m.clone();
    let what = match s.below(8) {
        0 => {
            o.version = 3 - o.version;
            if let Src0::Coinbase(_) = o.ins[0].source {
                return Ok(());
            }
            "version"
        }
        1 => {
            o.lock ^= 1 << s.below(32);
            "lock time"
        }
        2 => {
            let i = s.idx(o.ins.len());
            o.ins[i].sequence ^= 1 << s.below(32);
            "sequence"
        }
        3 => {
            let i = s.idx(o.ins.len());
            match &mut o.ins[i].source {
                Src0::Out(h, _) => {
                    h[s.idx(32)] ^= 1 << s.below(8);
                    if *h == [0; 32] {
                        return Ok(());
                    }
                }
                Src0::Coinbase(Some(h)) => *h ^= 1 << s.below(31),
                _ => return Ok(()),
            }
            "previous hash or height"
        }
        4 => {
            let i = s.idx(o.ins.len());
            match &mut o.ins[i].source {
                Src0::Out(_, n) => *n ^= 1 << s.below(32),
                _ => return Ok(()),
            }
            "previous index"
        }
        5 => {
            let i = s.idx(o.ins.len());
            if o.ins[i].script.is_empty() {
                o.ins[i].script.push(0);
            } else {
                let j = s.idx(o.ins[i].script.len());
                o.ins[i].script[j] ^= 1 << s.below(8);
            }
            "input script"
        }
        6 if !o.outs.is_empty() => {
            let i = s.idx(o.outs.len());
            o.outs[i].0 ^= 1 << s.below(64);
            "value"
        }
        _ if !o.outs.is_empty() => {
            let i = s.idx(o.outs.len());
            if o.outs[i].1.is_empty() {
                o.outs[i].1.push(0);
            } else {
                let j = s.idx(o.outs[i].1.len());
                o.outs[i].1[j] ^= 1 << s.below(8);
            }
            "output script"
        }
        _ => {
            o.outs.push((0, vec![]));
            "number of outputs"
        }
    };
    s.nontrivial();
    s.label(what);
    s.note(|| format!("{} with another {what}", m.summary()));
    s.sample(|| format!("{} with another {what}", m.summary()));
    check!(
        m.to_interbtc().tx_id() != o.to_interbtc().tx_id(),
        "the same id after changing the {what}"
    );
    Ok(())
}

fn mangle(s: &mut Src, b: &mut Vec<u8>) {
    s.repeat(1, 6, |s| {
        if b.is_empty() {
            b.push(s.u8());
            return;
        }
        let p = s.idx(b.len());
        match s.below(8) {
            0 => b[p] = s.u8(),
            1 => b[p] ^= 1 << s.below(8),
            2 => b.truncate(p),
            3 => b[p] = *s.pick(&[0u8, 1, 4, 5, 8, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff]),
            4 => {
                // a compact size of any value
                let mut c = vec![];
                match s.below(4) {
                    0 => {
                        c.push(0xfd);
                        c.extend((s.u64() as u16).to_le_bytes());
                    }
                    1 => {
                        c.push(0xfe);
                        c.extend(s.u32().to_le_bytes());
                    }
                    _ => {
                        c.push(0xff);
                        let v = match s.below(3) {
                            0 => u64::MAX - s.below(100),
                            1 => i64::MAX as u64 - s.below(5),
                            _ => s.u64(),
                        };
                        c.extend(v.to_le_bytes());
                    }
                }
                b.splice(p..p + 1, c);
            }
            5 => {
                let n = 1 + s.idx(9);
                let ins = s.raw(n);
                b.splice(p..p, ins);
            }
            6 => {
                let e = (p + 1 + s.idx(12)).min(b.len());
                b.drain(p..e);
            }
            _ => {
                let e = (p + 1 + s.idx(40)).min(b.len());
                let part: Vec<u8> = b[p..e].to_vec();
                b.splice(p..p, part);
            }
        }
    });
}

fn tx_settled(t: &Transaction) -> bool {
    // what the wire format can carry without ambiguity
    !t.inputs.is_empty()
        && t.inputs
            .iter()
            .all(|i| !matches!(i.source, TransactionInputSource::Coinbase(Some(h)) if h > 0x7fff_ffff))
}

fn c03_tx_bytes(s: &mut Src, b: &[u8]) -> R {
    let r = guarded(|| parse_transaction(b)).map_err(|p| format!("parsing a transaction {p}"))?;
    let reference: Result<(rust_bitcoin::Transaction, usize), _> = {
        let mut rd = b;
        rust_bitcoin::Transaction::consensus_decode(&mut rd).map(|t| (t, b.len() - rd.len()))
    };
    match &r {
        Ok(t) => {
            s.label("accepted");
            if tx_settled(t) {
                let again = format(t)?;
                let t2 = parse_transaction(&again).map_err(|e| format!("accepted, but its encoding is not: {e:?}"))?;
                check!(t2 == *t, "accepted, but its encoding reads as another transaction");
                // the scripts of the outputs are those of the bytes: agree with the reference whenever both accept
                if let Ok((rt, _)) = &reference {
                    let conv: Result<Transaction, _> = rt.clone().try_into();
                    if let Ok(c) = conv {
                        check!(c == *t, "rust-bitcoin reads another transaction from the same bytes");
                    }
                }
            }
        }
        Err(_) => {
            s.label("rejected");
            if let Ok((rt, used)) = &reference {
                // rejecting is right only for what the bridge does not support
                let coinbase_like = rt
                    .input
                    .iter()
                    .any(|i| *rust_bitcoin::hashes::Hash::as_byte_array(&i.previous_output.txid) == [0; 32]);
                let unsupported = (rt.version != 1 && rt.version != 2)
                    || coinbase_like
                    || rt.input.is_empty()
                    || rt.output.iter().any(|o| o.script_pubkey.len() > 10_000);
                check!(
                    unsupported,
                    "a transaction that rust-bitcoin reads ({} bytes, {:?}) is rejected: {:?}",
                    used,
                    rt,
                    r
                );
            }
        }
    }
    Ok(())
}

/// C03: bytes that are nearly a transaction
pub fn c03_tx(s: &mut Src) -> R {
    let m = tx(s);
    let mut b = m.encode(true);
    mangle(s, &mut b);
    s.nontrivial();
    s.note(|| hex(&b[..b.len().min(4000)]));
    s.sample(|| short(&b));
    c03_tx_bytes(s, &b)
}

/// C03: bytes that are nearly a coinbase transaction
pub fn c03_coinbase(s: &mut Src) -> R {
    let mut b = vec![1 + s.below(2) as u8, 0, 0, 0];
    b.push(1);
    b.extend([0; 32]);
    b.extend([0xff; 4]);
    let size = match s.below(4) {
        0 => s.below(12),
        1 => s.int(0, 120),
        2 => u64::MAX - s.below(3),
        _ => s.u64(),
    };
    compact_size(&mut b, size);
    match s.below(4) {
        0 => b.push(s.below(10) as u8),
        1 => compact_size(&mut b, s.int(0, 120)),
        2 => compact_size(&mut b, u64::MAX - s.below(3)),
        _ => compact_size(&mut b, s.u64()),
    }
    let n = match s.below(3) {
        0 => s.idx(12),
        1 => (size as usize).min(200),
        _ => s.idx(140),
    };
    b.extend(s.raw(n));
    b.extend(s.raw(4));
    b.push(s.below(2) as u8);
    let tail = s.idx(60);
    b.extend(s.raw(tail));
    s.nontrivial();
    s.note(|| hex(&b));
    s.sample(|| short(&b));
    c03_tx_bytes(s, &b)
}

/// C03: arbitrary bytes given to every parser
pub fn c03_any(s: &mut Src) -> R {
    let mut b = s.bytes(0, 200);
    if s.bool() && b.len() > 6 {
        b[..4].copy_from_slice(&[1 + s.below(2) as u8, 0, 0, 0]);
        b[4] = s.below(4) as u8;
    }
    if s.ratio(1, 4) {
        mangle(s, &mut b);
    }
    if b.len() > 12 {
        s.nontrivial();
    }
    s.note(|| hex(&b));
    s.sample(|| short(&b));
    c03_tx_bytes(s, &b)?;
    let h = guarded(|| BlockHeader::from_bytes(&b)).map_err(|p| format!("parsing a header {p}"))?;
    check!(h.is_err() || b.len() == 80, "a header of {} bytes", b.len());
    guarded(|| parse_block_header(&b).is_ok()).map_err(|p| format!("parsing a header {p}"))?;
    guarded(|| MerkleProof::parse(&b).is_ok()).map_err(|p| format!("parsing a merkle proof {p}"))?;
    if let Ok((v, n)) = guarded(|| parse_compact_uint(&b)).map_err(|p| format!("parsing a compact integer {p}"))? {
        let want = match b[0] {
            0xff => (u64::from_le_bytes(b[1..9].try_into().unwrap()), 9),
            0xfe => (u32::from_le_bytes(b[1..5].try_into().unwrap()) as u64, 5),
            0xfd => (u16::from_le_bytes(b[1..3].try_into().unwrap()) as u64, 3),
            x => (x as u64, 1),
        };
        check_eq!((v, n), want, "compact integer");
    } else {
        let need = match b.first() {
            None => 1,
            Some(0xff) => 9,
            Some(0xfe) => 5,
            Some(0xfd) => 3,
            Some(_) => 1,
        };
        check!(b.len() < need, "a complete compact integer is rejected");
    }
    let sc = bitcoin::Script::from(b.clone());
    guarded(|| {
        let _ = bitcoin::Address::from_script_pub_key(&sc).is_ok();
        let _ = sc.extract_op_return_data().is_ok();
        let _ = (sc.is_p2pkh(), sc.is_p2sh(), sc.is_p2wpkh_v0(), sc.is_p2wsh_v0());
    })
    .map_err(|p| format!("reading a script {p}"))
}

/// C03: bytes that are nearly a merkle proof
pub fn c03_proof(s: &mut Src) -> R {
    let mut b = header_bytes(s).1;
    b.extend(s.u32().to_le_bytes());
    let n = s.below(6);
    compact_size(&mut b, if s.ratio(1, 8) { s.u64() } else { n });
    b.extend(s.raw(32 * n as usize));
    let f = s.below(4);
    compact_size(&mut b, if s.ratio(1, 8) { s.u64() } else { f });
    b.extend(s.raw(f as usize));
    if s.bool() {
        mangle(s, &mut b);
    }
    s.nontrivial();
    s.note(|| hex(&b));
    s.sample(|| short(&b));
    let p = guarded(|| MerkleProof::parse(&b)).map_err(|p| format!("parsing a merkle proof {p}"))?;
    if let Ok(p) = p {
        s.label("parsed");
        let t = small_tx(1, 1).to_interbtc();
        let bound = s.u32();
        guarded(|| {
            bitcoin::merkle::PartialTransactionProof {
                transaction: t,
                tx_encoded_len: bound,
                merkle_proof: p,
            }
            .verify_proof()
            .is_ok()
        })
        .map_err(|p| format!("verifying a parsed proof {p}"))?;
    }
    Ok(())
}

/// an nBits field as a miner would write it: the compact form of some target
pub fn canonical_bits(s: &mut Src) -> (u32, U256) {
    let size = s.uniform(1, 32);
    let mut v = vec![];
    for i in 0..size.min(3) {
        v.push(if i == 0 { s.uniform(1, 255) as u8 } else { s.u8() });
    }
    let mut sz = size as u32;
    let mut mant = [0u8; 3];
    if v[0] >= 0x80 {
        mant[1..1 + v.len().min(2)].copy_from_slice(&v[..v.len().min(2)]);
        sz += 1;
    } else {
        mant[..v.len()].copy_from_slice(&v);
    }
    let bits = (sz << 24) | (mant[0] as u32) << 16 | (mant[1] as u32) << 8 | mant[2] as u32;
    let m = U256::from(bits & 0x7f_ffff);
    let t = if sz >= 3 {
        m << (8 * (sz as usize - 3))
    } else {
        m >> (8 * (3 - sz as usize))
    };
    (bits, t)
}

pub fn header_bytes(s: &mut Src) -> (U256, Vec<u8>) {
    let version = match s.weighted(&[3, 2, 1]) {
        0 => s.uniform(0, 8) as i32 - 1,
        1 => 0x2000_0000 | s.below(0x1000_0000) as i32,
        _ => s.i32(),
    };
    let mut b = vec![];
    b.extend(version.to_le_bytes());
    b.extend(s.arr::<32>());
    b.extend(s.arr::<32>());
    b.extend(s.u32().to_le_bytes());
    let (bits, target) = canonical_bits(s);
    b.extend(bits.to_le_bytes());
    b.extend(s.u32().to_le_bytes());
    (target, b)
}

/// C04: a header reads as what its 80 bytes say, writes back to them, and its hash is Bitcoin's
pub fn c04_header(s: &mut Src) -> R {
    let (target, b) = header_bytes(s);
    s.nontrivial();
    s.note(|| hex(&b));
    s.sample(|| hex(&b));
    let h = BlockHeader::from_bytes(&b).map_err(|e| format!("rejected: {e:?}"))?;
    check_eq!(h.version, i32::from_le_bytes(b[0..4].try_into().unwrap()), "version");
    check_eq!(h.hash_prev_block.to_bytes_le()[..], b[4..36], "previous hash");
    check_eq!(h.merkle_root.to_bytes_le()[..], b[36..68], "merkle root");
    check_eq!(h.timestamp, u32::from_le_bytes(b[68..72].try_into().unwrap()), "timestamp");
    check_eq!(h.target, target, "target");
    check_eq!(h.nonce, u32::from_le_bytes(b[76..80].try_into().unwrap()), "nonce");
    check_eq!(h.hash.to_bytes_le(), dsha(&b), "hash");
    let r: block::Header = deserialize(&b).map_err(|e| e.to_string())?;
    let rh: [u8; 32] = *rust_bitcoin::hashes::Hash::as_byte_array(&r.block_hash());
    check_eq!(h.hash.to_bytes_le(), rh, "hash and rust-bitcoin's");
    check_eq!(
        U256::from_big_endian(&r.target().to_be_bytes()),
        h.target,
        "target and rust-bitcoin's"
    );
    check!(format(&h)? == b, "written back as other bytes");
    check_eq!(h.hash().map_err(|e| format!("{e:?}"))?, h.hash, "computed hash");
    let mut u = h;
    u.hash = H256Le::from_bytes_le(&s.arr::<32>());
    let uh = u.update_hash().map_err(|e| format!("{e:?}"))?;
    check_eq!(uh, h.hash, "updated hash");
    check_eq!(u, h, "header after updating its hash");
    check_eq!(h.ensure_version().is_ok(), h.version >= 4, "version gate");
    let hx = BlockHeader::from_hex(hex(&b)).map_err(|e| format!("{e:?}"))?;
    check_eq!(hx, h, "header from hex");
    // any other length is no header
    let mut w = b.clone();
    if s.bool() {
        w.truncate(s.idx(80));
    } else {
        let n = 1 + s.idx(10);
        w.extend(s.raw(n));
    }
    check!(BlockHeader::from_bytes(&w).is_err(), "a header of {} bytes", w.len());
    Ok(())
}

/// C04: any change of a header changes its hash, and conversions of hashes keep their order of bytes
pub fn c04_hash(s: &mut Src) -> R {
    let (_, b) = header_bytes(s);
    let h = BlockHeader::from_bytes(&b).map_err(|e| format!("rejected: {e:?}"))?;
    let mut o = h;
    let what = match s.below(6) {
        0 => {
            o.version ^= 1 << s.below(32);
            "version"
        }
        1 => {
            o.timestamp ^= 1 << s.below(32);
            "timestamp"
        }
        2 => {
            o.nonce ^= 1 << s.below(32);
            "nonce"
        }
        3 => {
            let mut x = o.hash_prev_block.to_bytes_le();
            x[s.idx(32)] ^= 1 << s.below(8);
            o.hash_prev_block = H256Le::from_bytes_le(&x);
            "previous hash"
        }
        4 => {
            let mut x = o.merkle_root.to_bytes_le();
            x[s.idx(32)] ^= 1 << s.below(8);
            o.merkle_root = H256Le::from_bytes_le(&x);
            "merkle root"
        }
        _ => {
            let (_, t) = canonical_bits(s);
            if t == o.target {
                return Ok(());
            }
            o.target = t;
            "target"
        }
    };
    s.nontrivial();
    s.label(what);
    s.note(|| format!("{} with another {what}", hex(&b)));
    s.sample(|| format!("{} with another {what}", hex(&b)));
    let (a, c) = (
        h.hash().map_err(|e| format!("{e:?}"))?,
        o.hash().map_err(|e| format!("{e:?}"))?,
    );
    check!(a != c, "the same hash after changing the {what}");
    let le = a.to_bytes_le();
    let mut be = le;
    be.reverse();
    check_eq!(a.to_bytes_be(), be, "big-endian bytes");
    check_eq!(H256Le::from_bytes_be(&be), a, "from big-endian bytes");
    check_eq!(H256Le::from_hex_le(&a.to_hex_le()), a, "little-endian hex");
    check_eq!(H256Le::from_hex_be(&a.to_hex_be()), a, "big-endian hex");
    check_eq!(a.as_u256(), U256::from_little_endian(&le), "as a number");
    check_eq!(a.as_u256(), U256::from_big_endian(&be), "as a number");
    Ok(())
}
