T = 'property-based testing: '
def define(prop):
    F = [f'crates/{c}/rpc/src/lib.rs' for c in ('oracle', 'btc-relay', 'issue', 'redeem', 'replace', 'escrow', 'reward', 'vault-registry', 'loans', 'dex-general', 'dex-stable')]
    prop('C63', 'h-rpc', 'A node\'s servers ask the runtime what was asked, and tell what it says',
         'Each question to a node (oracle, relay, issue, redeem, replace, escrow, rewards, vaults, loans, pairs, stable pools) is put to the runtime by its own name, with the arguments given in their order, at the block given, or else at the best block; the runtime\'s answer is told whole, numbers by their value and lists in their order; an error of the runtime, a trap or a thing not there is told as an error, never as an answer (the relay\'s verdict on a block is itself the answer). The index of a currency and one admin balance are read from the runtime\'s lists. Each question has one name, made of its server\'s and its own.',
         ['inputs'], 'every question with every arguments, block and answer',
         'The servers have no tests; a mixed-up argument, block or field compiles wherever the types agree, as most are balances and accounts.',
         F, [('the implementations of the servers', f) for f in F[:1] + F[7:]],
         T + 'generated questions and scripted answers against what was asked and answered', 'The macros of the missing crates are expanded by the build script; the servers\' sources and the interfaces\' declarations are compiled as they are.')
