mod chain;
#[path = "codec.rs"]
mod wire;
mod keys;
mod model;
mod stored;

use pbt::{law, Prop};

const WIRE: &str = "Cases are transactions (or headers) built field by field: both versions, coinbase with and without height, \
witnesses, lock times on both sides of the threshold, scripts and lists with lengths around the points where the compact \
size changes its form. Non-trivial: the transaction has a witness, a coinbase input, or more than two inputs and outputs; \
distinct by the sequence of generator choices.";

fn main() {
    pbt::main(&[
        Prop {
            id: "C01",
            rule: WIRE,
            assumptions: &[
                "versions 1 and 2, at least one input, output scripts up to 10000 bytes, coinbase scripts up to 100 bytes, heights below 2^31: the domain the parser documents",
                "rust-bitcoin 0.30.1 and a model written from the wire format documentation are the references",
            ],
            laws: &[
                law!("wire", 360_000, 3_600_000, wire::c01_wire),
                law!("compat", 240_000, 2_400_000, wire::c01_compat),
                law!("builder", 180_000, 1_800_000, wire::c01_builder),
                law!("truncated", 240_000, 2_400_000, wire::c01_truncated),
            ],
            findings: &[],
        },
        Prop {
            id: "C02",
            rule: WIRE,
            assumptions: &["SHA-256 of rust-bitcoin is the reference; no two generated encodings collide"],
            laws: &[
                law!("ids", 300_000, 3_000_000, wire::c02_ids),
                law!("bound", 360_000, 3_600_000, wire::c02_bound),
                law!("sensitive", 360_000, 3_600_000, wire::c02_sensitive),
            ],
            findings: &[],
        },
        Prop {
            id: "C03",
            rule: "Cases are byte strings: valid encodings with up to six edits (bytes set, bits flipped, compact sizes of any \
value put in, parts removed, repeated or inserted), coinbase transactions and merkle proofs with arbitrary sizes in every length field, and \
arbitrary bytes. Non-trivial: an edited encoding, or more than 12 arbitrary bytes; distinct by generator choices.",
            assumptions: &["the harness is built with overflow checks, as a panic is what overflow is in a debug build"],
            laws: &[
                law!("tx", 450_000, 4_500_000, wire::c03_tx),
                law!("coinbase", 375_000, 3_750_000, wire::c03_coinbase),
                law!("any", 750_000, 7_500_000, wire::c03_any),
                law!("proof", 450_000, 4_500_000, wire::c03_proof),
            ],
            findings: &[],
        },
        Prop {
            id: "C04",
            rule: "Cases are 80 byte headers with any version, hashes, time, nonce and a canonical compact target, and pairs of \
headers differing in one field. Every case is non-trivial; distinct by generator choices.",
            assumptions: &["targets are canonical (what a node would write): other forms are rewritten by design"],
            laws: &[
                law!("header", 1_200_000, 12_000_000, wire::c04_header),
                law!("hash", 1_200_000, 12_000_000, wire::c04_hash),
            ],
            findings: &[],
        },
        Prop {
            id: "C05",
            rule: "Cases are blocks of 1 to 1100 distinct transactions (biased to small numbers and to the neighbours of powers \
of two) with one or more transactions to prove. Non-trivial: more than one transaction; distinct by generator choices.",
            assumptions: &["transactions of a block are distinct, as Bitcoin requires"],
            laws: &[
                law!("complete", 45_000, 450_000, chain::c05_complete),
                law!("wire", 45_000, 450_000, chain::c05_wire),
                law!("builder", 18_000, 180_000, chain::c05_builder),
            ],
            findings: &[],
        },
        Prop {
            id: "C06",
            rule: "Cases are honest proofs with up to four adversarial edits of flags, hashes, the number of transactions, the \
declared length and the transaction shown, and paths in trees of any claimed size. Non-trivial: at least one edit; distinct by \
generator choices.",
            assumptions: &[
                "the reference is a port of Bitcoin Core's CPartialMerkleTree without its rejection of equal siblings; where equal siblings occur, rejecting is not required",
                "with a changed number of transactions only membership is asserted, not the position",
            ],
            laws: &[
                law!("sound", 900_000, 9_000_000, chain::c06_sound),
                law!("limit", 450_000, 4_500_000, chain::c06_limit),
            ],
            findings: &[],
        },
        Prop {
            id: "C07",
            rule: "Cases are 32 bit compact targets (biased to the sizes and mantissas where overflow and sign begin), 256 bit \
values of every length, and retargets of any permitted target over any pair of times (biased to both limits of the time span). \
Non-trivial: the value is not zero; distinct by generator choices.",
            assumptions: &["previous targets are at most the largest permitted one, as every stored target is"],
            laws: &[
                law!("decode", 2_250_000, 22_500_000, chain::c07_decode),
                law!("encode", 2_250_000, 22_500_000, chain::c07_encode),
                law!("retarget", 1_500_000, 15_000_000, chain::c07_retarget),
                law!("numbers", 1_200_000, 12_000_000, chain::c07_numbers),
            ],
            findings: &[],
        },
        Prop {
            id: "C08",
            rule: "Cases are addresses of the four kinds, pairs of addresses, scripts within three edits of an address's script, \
and OP_RETURN payloads of 0 to 84 bytes with one edit of the script. Every case is non-trivial; distinct by generator choices.",
            assumptions: &[],
            laws: &[
                law!("address", 1_800_000, 18_000_000, keys::c08_address),
                law!("distinct", 1_800_000, 18_000_000, keys::c08_distinct),
                law!("script", 2_400_000, 24_000_000, keys::c08_script),
                law!("op_return", 2_400_000, 24_000_000, keys::c08_op_return),
            ],
            findings: &[],
        },
        Prop {
            id: "C09",
            rule: "Cases are a vault's secret key and a request id; pairs that differ in one bit of the id or in the sign of the \
key; and byte strings that are nearly public keys. Every case is non-trivial; distinct by generator choices.",
            assumptions: &[
                "the curve library at the pinned git revision is replaced by its 0.27 release (the same C code); the reference multiplies secrets, the code under test multiplies points",
            ],
            laws: &[
                law!("derive", 240_000, 2_400_000, keys::c09_derive),
                law!("distinct", 240_000, 2_400_000, keys::c09_distinct),
                law!("invalid", 450_000, 4_500_000, keys::c09_invalid),
            ],
            findings: &[],
        },
        Prop {
            id: "C54",
            rule: "Cases are transactions of 1 to 65540 inputs of one kind (of up to 15 keys) and any mixture of the four kinds of output. Non-trivial: more than one input and more than one output; distinct by generator choices.",
            assumptions: &["keys of 33 bytes, signatures of 72 bytes and data of 32 bytes"],
            laws: &[law!("size", 20_000, 200_000, chain::c54_size)],
            findings: &[],
        },
        Prop {
            id: "C55",
            rule: "Cases are proofs, transactions, headers, hashes, addresses and keys with arbitrary fields, and edited encodings of proofs. Every case is non-trivial; distinct by generator choices.",
            assumptions: &["the forms in use on the chain: SCALE in the order of the fields, hashes and keys by their bytes"],
            laws: &[
                law!("proof", 100_000, 1_000_000, stored::c55_proof),
                law!("value", 400_000, 4_000_000, stored::c55_value),
                law!("submitted", 200_000, 2_000_000, stored::c55_submitted),
            ],
            findings: &[],
        },
    ])
}
