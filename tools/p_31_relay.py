T = 'property-based testing: '
BR = 'crates/btc-relay/src/lib.rs'
BT = 'crates/btc-relay/src/types.rs'
SE = 'crates/security/src/lib.rs'

def define(prop):
    prop('C16', 'h-relay', 'The Bitcoin relay follows the right chain and only settled blocks count',
         'Whatever tree of headers is submitted in whatever order, every header stays known; the main chain grows by blocks on its tip and is replaced only by a fork that is longer by the required confirmations when it is extended. A block counts only if it is on the main chain, has the confirmations asked for in Bitcoin and parachain blocks, and no other chain is within the required confirmations of the tip. Known headers and ones with unknown parents are refused without effect.',
         ['histories', 'inputs'], 'every tree of headers (forks of forks included), every order of submission, every number of confirmations',
         'The pallet\'s tests fix a few small forks; mis-sorted chains need several forks of particular heights.',
         [BR], [('_store_block_header, reorganize_chains, swap_main_blockchain, insert_sorted', BR),
                ('verify_block_header_inclusion, check_bitcoin_confirmations, ensure_no_ongoing_fork', BR)],
         T + 'stateful model-based testing against a plain tree of blocks',
         'Random trees of up to 70 blocks, one to four confirmations.',
         state=[('Chains, ChainsIndex, ChainsHashes, BlockHeaders', 'the chains sorted by height', BR)])
    prop('C17', 'h-relay', 'A payment counts only when proved to be in a settled Bitcoin block',
         'A transaction is accepted as included only if the proof shows it under the merkle root of a settled main-chain block, together with that block\'s first transaction, which must be a coinbase, in a proof of the same block and the same number of transactions; every such proof is accepted and the very transaction given back. Looking at a proof changes nothing.',
         ['inputs', 'histories'], 'every block, transaction, proof and change to a proof, every fork situation',
         'The pallet\'s tests mock the merkle proof or use one real block; each missing comparison shows only for a proof made to differ in just that.',
         [BR, 'crates/bitcoin/src/merkle.rs'], [('_verify_transaction_inclusion', BR), ('PartialTransactionProof::verify_proof', 'crates/bitcoin/src/merkle.rs')],
         T + 'generated blocks and proofs with generated tampering, against ground truth',
         'Random search; blocks of up to 11 transactions.')
    prop('C18', 'h-relay', 'Only the exact payment asked for is accepted as payment',
         'A transaction pays a redeem or replace request exactly if it has at most three outputs, all of them payments to addresses or OP_RETURNs, with just one OP_RETURN, of value zero and of exactly the request\'s 32 bytes, and one or two payments to different addresses, one of them of exactly the amount to the recipient. For an issue the amount is that of the first output to the deposit address, and there must be one.',
         ['inputs'], 'every list of outputs, recipient, amount and request id',
         'The pallet\'s tests cover a few shapes; an accepted near miss lets a vault take money back or pay less.',
         [BR, BT], [('OpReturnPaymentData::try_from, ensure_valid_payment_to', BT), ('get_issue_payment, validate_op_return_transaction', BR)],
         T + 'generated near misses against an independent specification of the accepted form',
         'Random search over up to six outputs.')
    prop('C19', 'h-relay', 'A Bitcoin header is stored only with the work and target its chain demands',
         'A submitted header is stored exactly if it is signed for by an account, of version 4 or later, unknown, on a known parent, its real hash is below its target, its target is that of its parent, or at each 2016th block the one that the timestamps of its own chain\'s period demand, and the bound on forks covers the chains there are and a new one; the hash given along does not matter. A refused header changes nothing. The relay is initialized once, at the start of a difficulty period. With difficulty checks switched off, targets may be any.',
         ['inputs', 'histories'], 'every header, every chain of headers over a difficulty period, every fork near its end',
         'The pallet\'s tests mock the target or use a few real headers; forks across a retarget were never tried (and failed).',
         [BR, 'crates/bitcoin/src/pow.rs'], [('store_block_header, _validate_block_header, verify_block_header, compute_new_target, get_last_retarget_time', BR)],
         T + 'stateful model-based testing with mined headers, and against an independent target computation',
         'Random search; easy targets where headers are mined; forks start within 12 blocks of the retarget.')
    prop('C20', 'h-relay', 'Requests expire by both clocks, and identifiers never repeat',
         'The count of active parachain blocks grows by one each block while it is switched on, which only root can change. A request opened at some point for some period has expired exactly when more than that period of active blocks has gone by and more Bitcoin blocks than the period rounded up to full Bitcoin blocks; overflows are refused, never wrapped. No two request identifiers given out are the same.',
         ['histories', 'inputs'], 'every history of both clocks, every opening time and period up to the limits of the types',
         'The pallets\' tests compute two or three examples; an off-by-one at the border punishes a vault that still had time.',
         [BR, SE], [('has_request_expired, bitcoin_expiry_height', BR), ('increment_active_block, parachain_block_expired, get_secure_id', SE)],
         T + 'stateful model-based testing, and boundary-biased inputs against exact arithmetic',
         'Random search.')
