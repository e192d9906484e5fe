//! C13: the swap contract, run in ink's off-chain engine with a stand-in for the runtime's payment verification
mod contract {
    include!(concat!(env!("OUT_DIR"), "/btc_swap.rs"));
    pub use btc_swap::BtcSwap;
}

use bitcoin::{
    merkle::PartialTransactionProof,
    types::{FullTransactionProof, TransactionBuilder, TransactionInputBuilder, TransactionInputSource, TransactionOutput},
    Address,
};
use contract::{BtcSwap, CustomEnvironment};
use ink::env::test;
use pbt::{check, check_eq, guarded, law, Prop, Src, R};
use primitive_types::{H160, H256};
use scale::{Decode, Encode};
use std::{cell::RefCell, collections::BTreeMap};

type Acc = <CustomEnvironment as ink::env::Environment>::AccountId;
const N: u8 = 4;

fn acc(i: u8) -> Acc {
    Acc::from([i + 1; 32])
}
fn contract_acc() -> Acc {
    Acc::from([99; 32])
}

/// the answer the runtime gives for a proof: what the address was paid
#[derive(Clone, Debug, PartialEq)]
enum Answer {
    /// the proof is not valid
    Failure,
    /// it is valid, and does not pay the address
    Nothing,
    Paid(u64),
}

thread_local! {
    /// what the runtime was asked, and what it is to answer: the payments of each known transaction to each address
    static PAYMENTS: RefCell<BTreeMap<u32, Vec<(Address, u64)>>> = RefCell::new(BTreeMap::new());
    static ASKED: RefCell<Vec<(u32, Vec<u8>, Answer)>> = RefCell::new(vec![]);
}

struct Verifier;
impl test::ChainExtension for Verifier {
    fn func_id(&self) -> u32 {
        1101
    }
    fn call(&mut self, input: &[u8], output: &mut Vec<u8>) -> u32 {
        let input = Vec::<u8>::decode(&mut &input[..]).expect("input");
        let (proof, address) = <(FullTransactionProof, Vec<u8>)>::decode(&mut &input[..]).expect("arguments");
        let id = proof.user_tx_proof.transaction.inputs[0].sequence;
        let answer = PAYMENTS.with(|p| match p.borrow().get(&id) {
            None => Answer::Failure,
            Some(outs) => {
                match outs.iter().find(|(a, _)| a.encode() == address) {
                    Some((_, n)) => Answer::Paid(*n),
                    None => Answer::Nothing,
                }
            }
        });
        ASKED.with(|a| a.borrow_mut().push((id, address, answer.clone())));
        match answer {
            Answer::Failure => return 1,
            Answer::Nothing => None::<u64>.encode_to(output),
            Answer::Paid(n) => Some(n).encode_to(output),
        }
        0
    }
}

fn proof(id: u32) -> FullTransactionProof {
    let tx = TransactionBuilder::new()
        .with_version(2)
        .add_input(
            TransactionInputBuilder::new()
                .with_sequence(id)
                .with_source(TransactionInputSource::FromOutput(Default::default(), 0))
                .build(),
        )
        .add_output(TransactionOutput::payment(1, &Address::P2PKH(H160::zero())))
        .build();
    let part = PartialTransactionProof { transaction: tx, tx_encoded_len: 100, merkle_proof: Default::default() };
    FullTransactionProof { user_tx_proof: part.clone(), coinbase_proof: part }
}

#[derive(Clone, Debug)]
enum Op {
    Create { who: u8, address: Address, min: u64, locked: u128 },
    Execute { caller: u8, of: u8, tx: u32 },
}

fn balance(a: Acc) -> u128 {
    test::get_account_balance::<CustomEnvironment>(a).unwrap_or(0)
}
fn balances() -> Vec<u128> {
    (0..N).map(|i| balance(acc(i))).chain([balance(contract_acc())]).collect()
}

/// a new engine with the starting balances
fn fresh() -> BtcSwap {
    test::run_test::<CustomEnvironment, _>(|_| Ok(())).unwrap();
    test::register_chain_extension(Verifier);
    for i in 0..N {
        test::set_account_balance::<CustomEnvironment>(acc(i), START);
    }
    test::set_account_balance::<CustomEnvironment>(contract_acc(), 0);
    test::set_callee::<CustomEnvironment>(contract_acc());
    BtcSwap::new()
}
const START: u128 = 1_000_000_000;

/// sends the message; an error is a trap, which the chain reverts
fn send(c: &mut BtcSwap, op: &Op) -> Result<(), String> {
    test::set_callee::<CustomEnvironment>(contract_acc());
    match op {
        Op::Create { who, address, min, locked } => {
            test::set_caller::<CustomEnvironment>(acc(*who));
            // the chain moves the transferred value before the message runs
            test::set_account_balance::<CustomEnvironment>(acc(*who), balance(acc(*who)) - locked);
            test::set_account_balance::<CustomEnvironment>(contract_acc(), balance(contract_acc()) + locked);
            test::set_value_transferred::<CustomEnvironment>(*locked);
            guarded(|| c.create_trade(*address, *min))
        }
        Op::Execute { caller, of, tx } => {
            test::set_caller::<CustomEnvironment>(acc(*caller));
            test::set_value_transferred::<CustomEnvironment>(0);
            guarded(|| c.execute_trade(acc(*of), proof(*tx)))
        }
    }
}

fn c13_history(s: &mut Src) -> R {
    let addresses: Vec<Address> = (0..4)
        .map(|i| match s.below(3) {
            0 => Address::P2PKH(H160::repeat_byte(i)),
            1 => Address::P2WPKHv0(H160::repeat_byte(i / 2)),
            _ => Address::P2WSHv0(H256::repeat_byte(i)),
        })
        .collect();
    let mins = [1, 2, 1000, 1001, u32::MAX as u64, u64::MAX];
    // the payments on the Bitcoin chain
    let mut pays: BTreeMap<u32, Vec<(Address, u64)>> = BTreeMap::new();
    for id in 1..=4u32 {
        let mut outs: Vec<(Address, u64)> = vec![];
        for a in s.list(0, 3, |s| *s.pick(&addresses)) {
            let n = *s.pick(&mins);
            let n = if s.bool() { n } else { n - s.below(2).min(n - 1) };
            if !outs.iter().any(|(b, _)| *b == a) {
                outs.push((a, n));
            }
        }
        pays.insert(id, outs);
    }
    s.note(|| format!("payments {pays:?}"));
    PAYMENTS.with(|p| *p.borrow_mut() = pays.clone());
    let mut c = fresh();
    let mut done: Vec<Op> = vec![];
    // the model: the open order of each account, and all balances (the contract's last)
    let mut orders: BTreeMap<u8, (Address, u64, u128)> = BTreeMap::new();
    let mut bal = vec![START; N as usize];
    bal.push(0);
    s.steps(1, 14, |s| {
        let op = if s.ratio(2, 5) {
            let who = s.below(N as u64) as u8;
            Op::Create {
                who,
                address: *s.pick(&addresses),
                min: if s.ratio(1, 12) { 0 } else { *s.pick(&mins) },
                locked: s.u128(bal[who as usize].min(1000)),
            }
        } else {
            let of = s.below(N as u64) as u8;
            // mostly a transaction that pays the order
            let good: Vec<u32> = orders
                .get(&of)
                .map(|(a, min, _)| {
                    pays.iter().filter(|(_, o)| o.iter().any(|(b, n)| b == a && n >= min)).map(|(i, _)| *i).collect()
                })
                .unwrap_or_default();
            let tx = if !good.is_empty() && s.ratio(2, 3) { *s.pick(&good) } else { s.below(6) as u32 };
            Op::Execute { caller: s.below(N as u64) as u8, of, tx }
        };
        s.note(|| format!("{op:?}"));
        ASKED.with(|a| a.borrow_mut().clear());
        let got = send(&mut c, &op);
        let asked = ASKED.with(|a| a.borrow().clone());
        match &op {
            Op::Create { who, address, min, locked } => {
                if *min == 0 {
                    check!(got.is_err(), "an order without a price was accepted");
                    s.label("no price");
                } else {
                    check!(got.is_ok(), "an order was refused: {got:?}");
                    orders.insert(*who, (*address, *min, *locked));
                    bal[*who as usize] -= locked;
                    bal[N as usize] += locked;
                }
            }
            Op::Execute { caller, of, tx } => {
                let paid = orders.get(of).and_then(|(a, min, locked)| {
                    let sats = pays.get(tx)?.iter().find(|(b, _)| b == a)?.1;
                    (sats >= *min).then_some(*locked)
                });
                match paid {
                    Some(n) => {
                        s.nontrivial();
                        s.label("paid");
                        check!(got.is_ok(), "a paid order was refused: {got:?}");
                        check!(asked.len() == 1, "payment verified {} times", asked.len());
                        bal[*caller as usize] += n;
                        bal[N as usize] -= n;
                        orders.remove(of);
                    }
                    None => {
                        s.label("unpaid");
                        check!(got.is_err(), "an order was paid out without its payment; asked {asked:?}");
                    }
                }
            }
        }
        if got.is_ok() {
            done.push(op);
        } else {
            // a trapped message leaves no trace: the engine has no rollback, so the history is run again
            c = fresh();
            for op in &done {
                send(&mut c, op).map_err(|e| format!("not repeatable: {e}"))?;
            }
        }
        check_eq!(balances(), bal, "balances (the contract's last)");
        Ok(())
    })
}

fn main() {
    pbt::main(&[Prop {
        id: "C13",
        rule: "Cases are histories of up to 14 messages of four accounts: orders with any price and amount, replaced orders, and \
executions with right, wrong, too small, already used or invalid payments. Non-trivial: at least one order is paid out; distinct by generator choices.",
        assumptions: &[
            "ink's off-chain engine stands for the contracts pallet; a stand-in answers the runtime's payment verification (C06, P-properties of the relay decide that verification itself)",
            "an order replaced before it is executed forfeits what it locked: the documented flaw of this proof of concept is not asserted away",
        ],
        laws: &[law!("history", 60_000, 150_000, c13_history)],
        findings: &[],
    }])
}
