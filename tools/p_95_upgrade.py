T = 'property-based testing: '
def define(prop):
    prop('C64', 'h-vaults', 'An upgrade keeps every request to issue as it was',
         'After the upgrade of the issue pallet\'s storage from its first version every request stored, open or not, is there under its own id with each of its parts (vault, requester, amounts, fee, collateral, times, address, key, status) as it was, its collateral being of the network\'s collateral for griefing; nothing else stored changes but the version. At any other version, and made again, it changes nothing.',
         ['inputs', 'histories'], 'every set of stored requests, and every version of the storage',
         'The one test upgrades a single request at its default status and looks at nothing else in the storage.',
         ['crates/issue/src/migration.rs', 'primitives/src/lib.rs'], [('v1::Migration::on_runtime_upgrade', 'crates/issue/src/migration.rs')],
         T + 'generated storage of the old layout, written byte by byte, against all that should be stored afterwards', 'The old layout is written by the harness itself, at keys of its own making.')
    prop('C65', 'h-gov', 'An upgrade keeps every proposal, referendum and vote as it was',
         'After the upgrade of the democracy pallet\'s storage from its first version each public proposal and each referendum, open or finished, is there under its own index with its proposer, end, threshold, delay and tally as they were, and its proposal known by the same hash; the old preimages and the old item of the version are gone; deposits, votes and all else stored stay. At any other version, and made again, it changes nothing.',
         ['inputs', 'histories'], 'every set of stored proposals, referenda and preimages, and every version of the storage',
         'The one test, which is behind a feature that is not tested, upgrades one referendum of each kind and two proposals.',
         ['crates/democracy/src/migrations.rs'], [('v1::Migration::on_runtime_upgrade', 'crates/democracy/src/migrations.rs')],
         T + 'generated storage of the old layout, written byte by byte, against all that should be stored afterwards', 'No more proposals are stored than the pallet allows (more are cut off, which the source says).')
