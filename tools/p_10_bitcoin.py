T = 'property-based testing: '
B = 'crates/bitcoin/src/'

def define(prop):
    prop('C01', 'h-bitcoin', 'Transactions are written and read in Bitcoin\'s own encoding',
         'Writing any supported transaction yields byte for byte Bitcoin\'s consensus encoding, reading that encoding yields the same transaction whatever bytes follow, and no truncation of it is accepted. Converting to and from the standard Bitcoin library loses nothing.',
         ['inputs'], 'every transaction of version 1 or 2 with at least one input: any number and size of scripts, witnesses, values, lock times, coinbase heights below 2^31',
         'The tests round-trip a handful of recorded transactions; none has a list or script near the lengths where the encoding changes its form.',
         [B + 'parser.rs', B + 'formatter.rs', B + 'compat.rs', B + 'types.rs', B + 'script.rs'],
         [('TryFormat for Transaction, CompactUint', B + 'formatter.rs'), ('Parsable for Transaction, parse_transaction', B + 'parser.rs'), ('impl_bidirectional_conversions', B + 'compat.rs')],
         T + 'round trip and differential against an independent encoder and rust-bitcoin',
         'Random search over structured transactions against two independent encoders; trusts rust-bitcoin 0.30 and the harness model.')
    prop('C02', 'h-bitcoin', 'Transaction ids are Bitcoin\'s, and ignore witnesses only',
         'The id of a transaction is the double SHA-256 of its encoding without witnesses and its witness id that of the full encoding; changing any other field changes the id. An id computed under a length bound is that same id, and is refused exactly when the encoding is longer than the bound.',
         ['inputs'], 'every supported transaction, every pair differing in one field, every bound',
         'Tests check ids of a few recorded transactions and one bound; a mistake for some shape (witness position, list length, bound off by one) stays unseen.',
         [B + 'types.rs', B + 'formatter.rs', B + 'utils.rs'],
         [('tx_id, tx_id_bounded, hash, size_no_witness', B + 'types.rs'), ('BoundedWriter', B + 'formatter.rs'), ('sha256d', B + 'utils.rs')],
         T + 'differential (rust-bitcoin ids) and metamorphic (one field changed)',
         'Random search; trusts SHA-256 of rust-bitcoin.')
    prop('C03', 'h-bitcoin', 'Decoding untrusted Bitcoin bytes never panics or misreads',
         'Reading any byte string as a transaction, block header, merkle proof, compact integer, address script or OP_RETURN script ends with a value or an error, never with a panic. A transaction that is accepted re-encodes to bytes that read as the same transaction, and where the standard Bitcoin library also accepts the bytes both read the same transaction; supported transactions it accepts are not rejected.',
         ['inputs'], 'every byte string, in particular valid encodings with any length field replaced by any value',
         'Tests feed valid samples and a few hand-made errors; the space of malformed lengths is what attackers of a bridge use.',
         [B + 'parser.rs', B + 'merkle.rs', B + 'script.rs', B + 'address.rs'],
         [('BytesParser::read and parse', B + 'parser.rs'), ('parse_transaction_input', B + 'parser.rs'), ('MerkleProof::parse', B + 'merkle.rs')],
         T + 'fuzzing of encodings (structure-aware mutation; coverage-guided in the thorough tier) with panic, round-trip and differential oracles',
         'Random and coverage-guided search; the harness is compiled with overflow checks.')
    prop('C04', 'h-bitcoin', 'A block header is what its 80 bytes say, and its hash is Bitcoin\'s',
         'Reading 80 header bytes gives exactly the version, previous hash, merkle root, time, target and nonce they contain and the double SHA-256 of the bytes as hash; writing it gives the bytes back, and any other length is refused. Headers differing in any field have different hashes, and only versions of at least 4 pass the version gate.',
         ['inputs'], 'every header with a canonically written target',
         'Tests decode three recorded headers.',
         [B + 'types.rs', B + 'parser.rs', B + 'formatter.rs'],
         [('parse_block_header, BlockHeader::from_bytes', B + 'parser.rs'), ('BlockHeader::hash, update_hash, ensure_version', B + 'types.rs')],
         T + 'round trip and differential (rust-bitcoin header), metamorphic (one field changed)',
         'Random search; trusts rust-bitcoin 0.30.')
    prop('C05', 'h-bitcoin', 'Every transaction of a block has an inclusion proof that verifies',
         'For every block and every transaction in it, the proof built for it verifies and yields the block\'s merkle root, the transaction\'s id, its position and the number of transactions; this survives Bitcoin\'s wire format, in which the proof equals the one the standard Bitcoin library builds. Blocks built here commit to their transactions with Bitcoin\'s merkle root. A block is written as its header, the number of its transactions and each of them.',
         ['inputs'], 'every number of transactions up to the limit, every position, every set of matched transactions',
         'Tests verify a few recorded proofs and small built blocks; odd widths at each level of the tree are where such code goes wrong.',
         [B + 'merkle.rs', B + 'types.rs', B + 'formatter.rs'],
         [('traverse_and_build, traverse_and_extract, verify_proof', B + 'merkle.rs'), ('Block::merkle_proof, BlockBuilder', B + 'types.rs'), ('TryFormat for MerkleProof', B + 'formatter.rs')],
         T + 'completeness over generated blocks, differential against rust-bitcoin\'s MerkleBlock',
         'Random search over block sizes 1..1100.')
    prop('C06', 'h-bitcoin', 'An inclusion proof verifies only for a transaction under the root',
         'Whatever flags, hashes, claimed number of transactions, declared length and transaction an adversary submits, verification succeeds only if Bitcoin Core\'s own rules find the proof well formed, the shown transaction hashes to a matched leaf, and the returned root and position are the ones that leaf implies. In particular a transaction that is not in a block is never shown to be under that block\'s root; more than 16666 claimed transactions are always refused.',
         ['inputs'], 'every proof within a few adversarial edits of an honest one, every claimed block size',
         'Tests have a few malformed proofs; soundness is a statement about all of them.',
         [B + 'merkle.rs', B + 'types.rs'],
         [('PartialTransactionProof::verify_proof', B + 'merkle.rs'), ('MerkleProof::traverse_and_extract', B + 'merkle.rs')],
         T + 'adversarial mutation of proofs against a reference port of Bitcoin Core\'s extraction',
         'Random search; reference model without Core\'s rejection of equal siblings, which the bridge does not implement.')
    prop('C07', 'h-bitcoin', 'Compact targets and difficulty adjustment match Bitcoin',
         'Every 32-bit compact target reads as the number Bitcoin gives it, or is refused when negative or above 256 bits; every number is written as its canonical truncation. The next difficulty is the previous target scaled by the elapsed time, limited to a factor of four either way and to the largest target. A hash is the number whose little-endian bytes it is, and reads and shows the same in either order; logarithms to base 2 and 256 are rounded up.',
         ['inputs'], 'every 32-bit value, every 256-bit number, every permitted previous target and pair of times',
         'Tests compare about twenty constants and five retargets.',
         [B + 'math.rs', B + 'pow.rs', B + 'utils.rs', B + 'types.rs'],
         [('GetCompact, SetCompact', B + 'math.rs'), ('calculate_next_work_required', B + 'pow.rs')],
         T + 'differential against byte-wise big number arithmetic and rust-bitcoin',
         'Random search biased to the limits.')
    prop('C08', 'h-bitcoin', 'Addresses and output scripts determine each other; data outputs read back',
         'Each address has exactly one output script, which is Bitcoin\'s for that kind, and reading that script gives the address back; distinct addresses have distinct scripts, and no other script is read as an address. Data of up to 81 bytes put in an OP_RETURN output reads back unchanged, and nothing but a well-formed one is read as data.',
         ['inputs'], 'every address of the four kinds, every script, every payload',
         'Tests cover one or two addresses of each kind and one payload.',
         [B + 'address.rs', B + 'script.rs', B + 'compat.rs', B + 'types.rs'],
         [('Address::to_script_pub_key, from_script_pub_key', B + 'address.rs'), ('Script::op_return, extract_op_return_data', B + 'script.rs')],
         T + 'round trip, mutation of scripts, differential against rust-bitcoin payloads',
         'Random search.')
    prop('C09', 'h-bitcoin', 'Only the vault can spend from a derived deposit address',
         'The deposit key derived from a vault\'s public key and a request id is the public key of the vault\'s secret multiplied by SHA-256 of key and id, so the vault can always spend; its hash is the RIPEMD-160 of SHA-256 of the key. Different ids or keys give different deposit keys, and bytes that are no curve point give an error.',
         ['inputs'], 'every vault key and every request id, every 33 byte string',
         'Tests derive a few keys.',
         [B + 'address.rs'],
         [('PublicKey::new_deposit_public_key', B + 'address.rs'), ('PublicKey::to_hash', B + 'address.rs')],
         T + 'differential: point multiplication against multiplication of the secret',
         'Random search; the curve library is the 0.27 release of the same C code.')
    prop('C54', 'h-bitcoin', 'The estimated size of a transaction is that of one written out',
         'The virtual size computed for a number of inputs of one kind and numbers of outputs of each kind is the size of such a transaction as Bitcoin writes and weighs it, rounded up: never less than it, but for the number of elements of each witness input, which is counted once for all of them, and never more.',
         ['inputs'], 'every number of inputs of each kind and of outputs of each kind, every multisignature script',
         'Tests compare a few transactions of one kind of output, with the same constants the code uses; sizes change where counts and scripts need longer length fields.',
         [B + 'utils.rs'],
         [('virtual_transaction_size, transaction_weight', B + 'utils.rs'), ('var_int_size, script_length_size', B + 'utils.rs')],
         T + 'differential against the length of a transaction written out byte by byte',
         'Random search over counts, biased to the limits of the length fields.')
    prop('C55', 'h-bitcoin', 'What the chain stores and takes of Bitcoin has one lossless form',
         'Proofs, transactions, headers, hashes, addresses and public keys are stored on the chain and submitted to it in one form each, the fields in their order and kinds by their number, which reads back as the same value from exactly its own bytes; a shorter form is refused, bytes that are read are the one form of what is read, and nothing is longer than it declares. Addresses and keys show as JSON by kind and hex and read back; addresses are ordered by kind, then by hash.',
         ['inputs', 'histories'], 'every value of these types, every byte string',
         'Tests keep no stored forms at all; a field or kind moved changes what every stored request and every client means.',
         [B + 'types.rs', B + 'merkle.rs', B + 'address.rs', B + 'script.rs'],
         [('FullTransactionProof, Transaction, BlockHeader, H256Le', B + 'types.rs'), ('PartialTransactionProof, MerkleProof', B + 'merkle.rs'), ('Address, PublicKey', B + 'address.rs')],
         T + 'differential against an encoder written by hand, round trip, edited encodings',
         'Random search.')
