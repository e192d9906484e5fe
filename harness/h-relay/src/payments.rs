use crate::rt::*;
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    types::{FullTransactionProof, H256Le, LockTime, Transaction, TransactionInput, TransactionInputSource, TransactionOutput},
    Address, Script,
};
use pbt::{check_eq, fail, guarded, law, Prop, Src, R};
use sp_core::{H160, H256};

pub const PROP: Prop = Prop {
    id: "C18",
    rule: "the transaction is not the plain payment",
    assumptions: &["the merkle proof and the block are the business of C17: the check of inclusion is switched off here"],
    laws: &[law!("op_return", 15_000, 400_000, op_return), law!("deposit", 15_000, 400_000, deposit)],
    findings: &[],
};

/// an output as it was meant
#[derive(Clone, Debug, PartialEq)]
enum Out {
    To(usize),
    Return(Vec<u8>),
    Other(Vec<u8>),
}

fn addresses() -> Vec<Address> {
    let mut v = vec![];
    for i in 1..3u8 {
        v.push(Address::P2PKH(H160([i; 20])));
        v.push(Address::P2SH(H160([i; 20])));
        v.push(Address::P2WPKHv0(H160([i; 20])));
        v.push(Address::P2WSHv0(H256([i; 32])));
    }
    v
}
fn script(a: &Address) -> Vec<u8> {
    match a {
        Address::P2PKH(h) => [&[0x76, 0xa9, 0x14], h.as_bytes(), &[0x88, 0xac]].concat(),
        Address::P2SH(h) => [&[0xa9, 0x14], h.as_bytes(), &[0x87]].concat(),
        Address::P2WPKHv0(h) => [&[0, 0x14], h.as_bytes()].concat(),
        Address::P2WSHv0(h) => [&[0, 0x20], h.as_bytes()].concat(),
    }
}
fn proof(outs: &[(i64, Out)], addrs: &[Address]) -> FullTransactionProof {
    let transaction = Transaction {
        version: 2,
        inputs: vec![TransactionInput {
            source: TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[7; 32]), 0),
            script: vec![],
            sequence: 0,
            witness: vec![],
        }],
        outputs: outs
            .iter()
            .map(|(value, o)| TransactionOutput {
                value: *value,
                script: Script::from(match o {
                    Out::To(i) => script(&addrs[*i]),
                    Out::Return(d) => [&[0x6a, d.len() as u8][..], d].concat(),
                    Out::Other(s) => s.clone(),
                }),
            })
            .collect(),
        lock_at: LockTime::BlockHeight(0),
    };
    let p = PartialTransactionProof {
        transaction,
        tx_encoded_len: u32::MAX,
        merkle_proof: MerkleProof { block_header: Default::default(), flag_bits: vec![], transactions_count: 0, hashes: vec![] },
    };
    FullTransactionProof { user_tx_proof: p.clone(), coinbase_proof: p }
}
fn other(s: &mut Src) -> Vec<u8> {
    match s.below(4) {
        // pay to a taproot key, to a public key, to nobody; an empty script
        0 => [vec![0x51, 0x20], s.raw(32)].concat(),
        1 => [vec![0x21], s.raw(33), vec![0xac]].concat(),
        2 => vec![],
        _ => vec![0x51],
    }
}
fn open() -> sp_io::TestExternalities {
    fresh(&Opt { k: 1, para: 0, no_difficulty: true, no_inclusion: true })
}

fn op_return(s: &mut Src) -> R {
    open().execute_with(|| {
        let addrs = addresses();
        let recipient = s.idx(addrs.len());
        let id = s.arr::<32>();
        let due = match s.below(3) {
            0 => s.int(0, 10),
            1 => s.int(0, 2_100_000_000_000_000),
            _ => s.int(0, i64::MAX as u64),
        } as i64;
        let amount = |s: &mut Src, due: i64| match s.weighted(&[12, 2, 1, 1]) {
            0 => due,
            1 => (due as i128 + s.below(5) as i128 - 2).clamp(i64::MIN as i128, i64::MAX as i128) as i64,
            2 => s.i64(),
            _ => 0,
        };
        // near the plain form: a payment, the mark, perhaps the change
        let mut outs: Vec<(i64, Out)> = vec![];
        if !s.ratio(1, 12) {
            let v = amount(s, due);
            outs.push((v, Out::To(recipient)));
        }
        if !s.ratio(1, 12) {
            let mut d = id.to_vec();
            match s.weighted(&[12, 1, 1, 1]) {
                0 => {}
                1 => d[s.idx(32)] ^= 1 << s.below(8),
                2 => {
                    d.pop();
                }
                _ => d.push(0),
            }
            let v = if s.ratio(1, 12) { s.int(1, 1000) as i64 } else { 0 };
            outs.push((v, Out::Return(d)));
        }
        if s.bool() {
            let to = if s.ratio(1, 4) { recipient } else { s.idx(addrs.len()) };
            let v = s.int(0, 1_000_000) as i64;
            outs.push((v, Out::To(to)));
        }
        for _ in 0..s.weighted(&[14, 2, 1]) {
            let v = amount(s, due);
            outs.push(match s.below(4) {
                0 => (v, Out::To(s.idx(addrs.len()))),
                1 => (0, Out::Return(if s.bool() { id.to_vec() } else { s.raw(32) })),
                _ => {
                    let o = other(s);
                    (v, Out::Other(o))
                }
            });
        }
        // in any order
        for i in (1..outs.len()).rev() {
            let j = s.idx(i + 1);
            outs.swap(i, j);
        }
        let pays: Vec<(i64, usize)> = outs.iter().filter_map(|(v, o)| if let Out::To(a) = o { Some((*v, *a)) } else { None }).collect();
        let marks: Vec<&(i64, Out)> = outs.iter().filter(|(_, o)| matches!(o, Out::Return(_))).collect();
        let fine = outs.len() == pays.len() + marks.len()
            && marks.len() == 1
            && *marks[0] == (0, Out::Return(id.to_vec()))
            && (pays.len() == 1 || pays.len() == 2 && pays[0].1 != pays[1].1)
            && pays.contains(&(due, recipient));
        if !(fine && pays.len() == 1) {
            s.nontrivial();
        }
        s.label(if fine { "a payment" } else { "not a payment" });
        let text = || format!("{due} to {recipient} due, outputs {outs:?}");
        s.note(text);
        s.sample(text);
        let p = proof(&outs, &addrs);
        let got = guarded(|| {
            if s.bool() {
                BTCRelay::verify_and_validate_op_return_transaction::<u128>(p, addrs[recipient], due as u128, H256(id))
            } else {
                BTCRelay::verify_and_validate_op_return_transaction::<i64>(p, addrs[recipient], due, H256(id))
            }
        })?;
        if got.is_ok() != fine {
            fail!("{got:?}, it {} the payment asked for", if fine { "is" } else { "is not" });
        }
        Ok(())
    })
}

fn deposit(s: &mut Src) -> R {
    open().execute_with(|| {
        let addrs = addresses();
        let recipient = s.idx(addrs.len());
        let outs = s.list(0, 6, |s| {
            let v = match s.weighted(&[3, 3, 1]) {
                0 => s.int(0, 10) as i64,
                1 => s.int(0, 2_100_000_000_000_000) as i64,
                _ => s.i64(),
            };
            let o = match s.weighted(&[3, 3, 1, 1]) {
                0 => Out::To(recipient),
                1 => Out::To(s.idx(addrs.len())),
                2 => Out::Return(s.raw(32)),
                _ => Out::Other(other(s)),
            };
            (v, o)
        });
        let to: Vec<i64> = outs.iter().filter(|(_, o)| *o == Out::To(recipient)).map(|x| x.0).collect();
        if to.len() != 1 || outs.len() != 1 {
            s.nontrivial();
        }
        s.label(match to.len() {
            0 => "none",
            1 => "one",
            _ => "several",
        });
        let text = || format!("to {recipient}, outputs {outs:?}");
        s.note(text);
        s.sample(text);
        let got = guarded(|| BTCRelay::get_and_verify_issue_payment::<u128>(proof(&outs, &addrs), addrs[recipient]))?;
        match got {
            Ok(v) => {
                // of several payments, the relay counts the first
                if to.first().map(|x| *x as i128) != Some(v as i128) {
                    fail!("{v} is counted");
                }
            }
            Err(e) => {
                if to.first().map_or(false, |v| *v >= 0) {
                    fail!("the payment is refused: {e:?}");
                }
            }
        }
        let signed = guarded(|| BTCRelay::get_and_verify_issue_payment::<i64>(proof(&outs, &addrs), addrs[recipient]))?;
        check_eq!(signed.ok(), to.first().copied(), "as a signed amount");
        Ok(())
    })
}
