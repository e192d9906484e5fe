//! An independent model of the Bitcoin wire format: what the crate under test is compared with.
use bitcoin::{
    types::{H256Le, LockTime, Transaction, TransactionInput, TransactionInputSource, TransactionOutput},
    Script,
};
use pbt::Src;
use rust_bitcoin::hashes::{sha256d, Hash};

pub fn dsha(b: &[u8]) -> [u8; 32] {
    sha256d::Hash::hash(b).to_byte_array()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn short(b: &[u8]) -> String {
    if b.len() > 48 {
        format!("{}..({} bytes)", hex(&b[..48]), b.len())
    } else {
        hex(b)
    }
}

pub fn compact_size(out: &mut Vec<u8>, n: u64) {
    if n <= 252 {
        out.push(n as u8)
    } else if n <= 0xffff {
        out.push(0xfd);
        out.extend((n as u16).to_le_bytes())
    } else if n <= 0xffff_ffff {
        out.push(0xfe);
        out.extend((n as u32).to_le_bytes())
    } else {
        out.push(0xff);
        out.extend(n.to_le_bytes())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Src0 {
    Out([u8; 32], u32),
    /// the block height of a version 2 coinbase
    Coinbase(Option<u32>),
}

#[derive(Clone, Debug)]
pub struct MIn {
    pub source: Src0,
    /// for a coinbase: what follows the height
    pub script: Vec<u8>,
    pub sequence: u32,
    pub witness: Vec<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct MTx {
    pub version: i32,
    pub ins: Vec<MIn>,
    pub outs: Vec<(i64, Vec<u8>)>,
    pub lock: u32,
}

/// BIP-34: a length byte, then the height as a little-endian script number
pub fn bip34(height: u32) -> Vec<u8> {
    let mut n = vec![];
    let mut h = height as u64;
    while h > 0 {
        n.push((h & 0xff) as u8);
        h >>= 8;
    }
    if n.is_empty() {
        n.push(0);
    }
    if n.last().unwrap() & 0x80 != 0 {
        n.push(0);
    }
    let mut out = vec![n.len() as u8];
    out.extend(n);
    out
}

impl MTx {
    pub fn has_witness(&self) -> bool {
        self.ins.iter().any(|i| !i.witness.is_empty())
    }

    pub fn encode(&self, with_witness: bool) -> Vec<u8> {
        let w = with_witness && self.has_witness();
        let mut o = vec![];
        o.extend(self.version.to_le_bytes());
        if w {
            o.extend([0, 1]);
        }
        compact_size(&mut o, self.ins.len() as u64);
        for i in &self.ins {
            let mut script = vec![];
            match &i.source {
                Src0::Out(h, n) => {
                    o.extend(h);
                    o.extend(n.to_le_bytes());
                }
                Src0::Coinbase(h) => {
                    o.extend([0; 32]);
                    o.extend([0xff; 4]);
                    if let Some(h) = h {
                        script.extend(bip34(*h));
                    }
                }
            }
            script.extend(&i.script);
            compact_size(&mut o, script.len() as u64);
            o.extend(script);
            o.extend(i.sequence.to_le_bytes());
        }
        compact_size(&mut o, self.outs.len() as u64);
        for (v, s) in &self.outs {
            o.extend(v.to_le_bytes());
            compact_size(&mut o, s.len() as u64);
            o.extend(s);
        }
        if w {
            for i in &self.ins {
                compact_size(&mut o, i.witness.len() as u64);
                for e in &i.witness {
                    compact_size(&mut o, e.len() as u64);
                    o.extend(e);
                }
            }
        }
        o.extend(self.lock.to_le_bytes());
        o
    }

    pub fn txid(&self) -> [u8; 32] {
        dsha(&self.encode(false))
    }

    pub fn to_interbtc(&self) -> Transaction {
        Transaction {
            version: self.version,
            inputs: self
                .ins
                .iter()
                .map(|i| TransactionInput {
                    source: match &i.source {
                        Src0::Out(h, n) => TransactionInputSource::FromOutput(H256Le::from_bytes_le(h), *n),
                        Src0::Coinbase(h) => TransactionInputSource::Coinbase(*h),
                    },
                    script: i.script.clone(),
                    sequence: i.sequence,
                    witness: i.witness.clone(),
                })
                .collect(),
            outputs: self
                .outs
                .iter()
                .map(|(v, s)| TransactionOutput {
                    value: *v,
                    script: Script::from(s.clone()),
                })
                .collect(),
            lock_at: if self.lock < 500_000_000 {
                LockTime::BlockHeight(self.lock)
            } else {
                LockTime::Time(self.lock)
            },
        }
    }

    pub fn summary(&self) -> String {
        let ins: Vec<String> = self
            .ins
            .iter()
            .take(6)
            .map(|i| {
                let src = match &i.source {
                    Src0::Out(h, n) => format!("{}..:{n}", hex(&h[..4])),
                    Src0::Coinbase(h) => format!("coinbase {h:?}"),
                };
                let wit: Vec<usize> = i.witness.iter().map(|w| w.len()).collect();
                format!("({src} script {} bytes, sequence {:x}, witness {:?})", i.script.len(), i.sequence, wit)
            })
            .collect();
        let outs: Vec<String> = self
            .outs
            .iter()
            .take(6)
            .map(|(v, s)| format!("({v} to {})", short(s)))
            .collect();
        format!(
            "version {} lock {} {} inputs [{}] {} outputs [{}]",
            self.version,
            self.lock,
            self.ins.len(),
            ins.join(" "),
            self.outs.len(),
            outs.join(" ")
        )
    }
}

/// lengths, biased to where the compact size changes its form
pub fn len(s: &mut Src, max: u64) -> usize {
    let edges = [0u64, 1, 75, 76, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537];
    match s.weighted(&[40, 30, 12, 1]) {
        0 => s.uniform(0, max.min(40)) as usize,
        1 => s.uniform(0, max.min(120)) as usize,
        2 => {
            let e: Vec<u64> = edges.iter().copied().filter(|e| *e <= max && *e < 1000).collect();
            *s.pick(&e) as usize
        }
        _ => {
            let mut e: Vec<u64> = edges.iter().copied().filter(|e| *e <= max).collect();
            e.extend([max - 1, max]);
            *s.pick(&e) as usize
        }
    }
}

pub fn blob(s: &mut Src, max: u64) -> Vec<u8> {
    let n = len(s, max);
    if n > 300 {
        let seed = s.raw(8);
        (0..n).map(|i| seed[i % 8] ^ (i >> 3) as u8).collect()
    } else {
        s.raw(n)
    }
}

fn nonzero_hash(s: &mut Src) -> [u8; 32] {
    let mut h = s.arr::<32>();
    if s.ratio(1, 8) {
        // nearly zero: one set byte
        let i = s.idx(32);
        h = [0; 32];
        h[i] = 1 + s.below(255) as u8;
    }
    if h == [0; 32] {
        h[31] = 1;
    }
    h
}

pub fn script_pub_key(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[3, 3, 3, 3, 2, 2]) {
        0 => {
            let mut v = vec![0x76, 0xa9, 20];
            v.extend(s.raw(20));
            v.extend([0x88, 0xac]);
            v
        }
        1 => {
            let mut v = vec![0xa9, 20];
            v.extend(s.raw(20));
            v.push(0x87);
            v
        }
        2 => {
            let mut v = vec![0, 20];
            v.extend(s.raw(20));
            v
        }
        3 => {
            let mut v = vec![0, 32];
            v.extend(s.raw(32));
            v
        }
        4 => {
            let n = s.below(76) as usize;
            let mut v = vec![0x6a, n as u8];
            v.extend(s.raw(n));
            v
        }
        _ => blob(s, 10_000),
    }
}

pub fn tx(s: &mut Src) -> MTx {
    let version = 1 + s.below(2) as i32;
    let coinbase = s.ratio(1, 5);
    let witness = s.bool();
    let many = s.ratio(1, 60);
    let ins = if coinbase {
        let h = if version == 2 {
            Some(s.int(0, 0x7fff_ffff) as u32)
        } else {
            None
        };
        let max = 100u64;
        let script = blob(s, max);
        let wit = if witness { vec![s.raw(32)] } else { vec![] };
        vec![MIn {
            source: Src0::Coinbase(h),
            script,
            sequence: s.u32(),
            witness: wit,
        }]
    } else {
        let (lo, hi) = if many && s.bool() { (251, 256) } else { (1, 5) };
        let tiny = hi > 10;
        s.list(lo, hi, |s| MIn {
            source: Src0::Out(nonzero_hash(s), s.u32()),
            script: if tiny { vec![] } else { blob(s, 70_000) },
            sequence: s.u32(),
            witness: if witness && !tiny {
                match s.weighted(&[4, 3, 1]) {
                    0 => vec![],
                    1 => s.list(0, 4, |s| blob(s, 70_000)),
                    _ => {
                        // a stack as long as the one byte form allows, and longer
                        let n = 251 + s.idx(5);
                        vec![vec![7u8]; n]
                    }
                }
            } else if witness && s.ratio(1, 100) {
                vec![vec![]]
            } else {
                vec![]
            },
        })
    };
    let (lo, hi) = if many { (250, 257) } else { (0, 5) };
    let tiny = hi > 10;
    let outs = s.list(lo, hi, |s| {
        let v = match s.weighted(&[3, 3, 1]) {
            0 => s.int(0, 21_000_000 * 100_000_000) as i64,
            1 => s.int(0, 100_000) as i64,
            _ => s.i64(),
        };
        (v, if tiny { vec![0x51] } else { script_pub_key(s) })
    });
    let lock = match s.weighted(&[2, 2, 2]) {
        0 => 0,
        1 => s.uniform(499_999_990, 500_000_010) as u32,
        _ => s.u32(),
    };
    MTx {
        version,
        ins,
        outs,
        lock,
    }
}

/// a small transaction, different for every (seed, i)
pub fn small_tx(seed: u64, i: u64) -> MTx {
    let mut h = [0u8; 32];
    h[..8].copy_from_slice(&seed.to_le_bytes());
    h[8..16].copy_from_slice(&i.to_le_bytes());
    h[31] = 1;
    MTx {
        version: 2,
        ins: vec![MIn {
            source: Src0::Out(h, i as u32),
            script: vec![],
            sequence: 0,
            witness: vec![],
        }],
        outs: vec![(i as i64, vec![0x51])],
        lock: 0,
    }
}
