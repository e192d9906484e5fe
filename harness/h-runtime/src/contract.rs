//! What a contract is told of a payment.
use crate::chain::{pallet_contracts::chain_extension::*, Contract, Memory, FUNC};
use crate::net::kintsugi::world::*;
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    types::{FullTransactionProof, H256Le, LockTime, Transaction, TransactionInput, TransactionInputSource, TransactionOutput},
    Address, Script,
};
use codec::{Decode, Encode};
use sp_core::{H160, H256};

fn address(s: &mut Src) -> Address {
    let i = 1 + s.below(2) as u8;
    match s.below(4) {
        0 => Address::P2PKH(H160([i; 20])),
        1 => Address::P2SH(H160([i; 20])),
        2 => Address::P2WPKHv0(H160([i; 20])),
        _ => Address::P2WSHv0(H256([i; 32])),
    }
}
fn script(a: &Address) -> Vec<u8> {
    match a {
        Address::P2PKH(h) => [&[0x76, 0xa9, 0x14], h.as_bytes(), &[0x88, 0xac]].concat(),
        Address::P2SH(h) => [&[0xa9, 0x14], h.as_bytes(), &[0x87]].concat(),
        Address::P2WPKHv0(h) => [&[0, 0x14], h.as_bytes()].concat(),
        Address::P2WSHv0(h) => [&[0, 0x20], h.as_bytes()].concat(),
    }
}
pub fn payment(s: &mut Src) -> R {
    let proven = s.ratio(5, 6);
    open_with(proven, || {
        let outs: Vec<(i64, Address)> = s.list(0, 4, |s| (if s.ratio(1, 6) { s.i64() } else { s.int(0, 2_100_000_000_000_000) as i64 }, address(s)));
        let to = address(s);
        let p = PartialTransactionProof {
            transaction: Transaction {
                version: 2,
                inputs: vec![TransactionInput { source: TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[7; 32]), 0), script: vec![], sequence: 0, witness: vec![] }],
                outputs: outs.iter().map(|(value, a)| TransactionOutput { value: *value, script: Script::from(script(a)) }).collect(),
                lock_at: LockTime::BlockHeight(0),
            },
            tx_encoded_len: 100,
            merkle_proof: MerkleProof { block_header: Default::default(), flag_bits: vec![], transactions_count: 0, hashes: vec![] },
        };
        let proof = FullTransactionProof { user_tx_proof: p.clone(), coinbase_proof: p };
        let mut bytes = to.encode();
        let bad = s.ratio(1, 3);
        if bad {
            match s.below(3) {
                0 => drop(bytes.truncate(s.idx(bytes.len()))),
                1 => bytes[0] = 4 + s.below(250) as u8,
                _ => bytes = vec![],
            }
        }
        let mut input = (proof, bytes.clone()).encode();
        let broken = s.ratio(1, 8);
        if broken {
            let n = s.idx(input.len());
            input.truncate(n);
        }
        let func = if s.ratio(1, 10) { s.u32() as u16 } else { 1101 };
        FUNC.with(|f| *f.borrow_mut() = func);
        let room = if s.ratio(1, 8) { s.idx(10) } else { 64 };
        let mut c = Contract(Memory { input, room, output: None });
        let root = mockrt::storage_root();
        let got = guarded(|| super::rt::kintsugi::contracts::BtcRelayExtension::default().call(Environment { ext: &mut c, s: std::marker::PhantomData::<InitState> }))?;
        s.note(|| format!("{outs:?}, asked for {to:?} as {bytes:?}, proven: {proven}: {got:?} {:?}", c.0.output));
        check_eq!(mockrt::storage_root(), root, "storage");
        let pays = if proven { outs.iter().find(|o| o.1 == to).map(|o| o.0).filter(|v| *v >= 0).map(|v| v as u64) } else { None };
        if func != 1101 || broken || bad {
            check!(got.is_err() && c.0.output.is_none() || c.0.output == Some(None::<u64>.encode()), "{got:?} with {:?} for a call that is malformed", c.0.output);
            return Ok(());
        }
        let out = pays.encode();
        if room < out.len() {
            check!(got.is_err() && c.0.output.is_none(), "{got:?} with {:?} where there is no room", c.0.output);
            return Ok(());
        }
        check!(got == Ok(RetVal::Converging(0)), "the call gives {got:?}");
        let said = c.0.output.as_ref().and_then(|o| Option::<u64>::decode(&mut &o[..]).ok());
        check_eq!(said, Some(pays), "what the contract is told of a payment to {to:?}");
        if outs.len() > 1 && pays.is_some() {
            s.nontrivial();
        }
        Ok(())
    })
}
