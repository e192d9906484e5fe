T = 'property-based testing: '
DL = 'crates/dex-general/src/lib.rs'
DS = 'crates/dex-general/src/swap/mod.rs'
DR = 'crates/dex-general/src/fee/mod.rs'
NOTE = 'Random histories of three to four accounts in pairs of four currencies, with amounts from dust to 1e30; the real dex-general pallet on a shim of the FRAME it needs.'

def define(prop):
    prop('C40', 'h-dex', 'A swap takes in and pays out exactly the constant-product amounts, or nothing',
         'A swap over a path gives, pair by pair, exactly what the constant-product formula with the pair\'s fee gives, rounded in the pair\'s favour: for an exact input the largest whole output, for an exact output an input that suffices. What is paid in reaches the first pair, what is paid out the recipient, and between pairs the same amount moves from one account to the next. No swap lowers the product of a pair\'s reserves. A swap past the deadline, outside the limits the caller set, over a path that is not all trading pairs, or that would take a pair\'s whole reserve is refused, and a call that fails changes nothing. The amounts quoted are those a swap gives.',
         ['histories', 'inputs'], 'every history of swaps and liquidity, every amount, path, fee and limit',
         'The pallet\'s tests swap a few round amounts in fresh pairs; a path over the same pair twice took its reserves below their product.',
         [DL, DS], [('swap_exact_assets_for_assets, swap_assets_for_exact_assets', DL), ('get_amount_out, get_amount_in, get_amount_out_by_path, get_amount_in_by_path, inner_swap_exact_assets_for_assets, inner_swap_assets_for_exact_assets', DS)],
         T + 'stateful model-based testing against exact rational reserves, and a product invariant', NOTE)
    prop('C41', 'h-dex', 'Shares of a pair are minted and burned for their part of the reserves',
         'The first to add liquidity gets shares of the square root of the product; whoever adds later is taken no more of either currency than wanted, in the proportion of the reserves rounded, and gets the smaller part of the shares in existence; removing burns shares and pays their part of both reserves, rounded down. The protocol gets, before shares are counted for a call, its part of the growth of the root of the product since the last. The worth of a share never falls but by the protocol\'s part. Minimum and maximum amounts and the deadline are kept. Only shares of active pairs can be had; events tell what happened. A call that fails changes nothing.',
         ['histories', 'inputs'], 'every history of adding, removing and swapping, every amount and fee',
         'The pallet\'s tests add and remove a few amounts; the protocol\'s part taken after the shares were counted shows only in the last unit of unusual histories.',
         [DL, DS], [('add_liquidity, remove_liquidity, set_fee_receiver, set_fee_point, set_exchange_fee', DL), ('inner_add_liquidity, inner_remove_liquidity, calculate_liquidity, calculate_share_amount, mint_protocol_fee', DS)],
         T + 'stateful model-based testing against an exact reference of pairs', NOTE)
    prop('C42', 'h-dex', 'A bootstrap takes contributions to its limits and shares them out by part',
         'Before its end block a bootstrap takes contributions from those who hold the limits it asks for, cut to what is left of its capacities, and books them. From the end block on anyone may end it into a trading pair, exactly if both targets are met: the pair holds all that was contributed, and every contributor may claim, once, the part of the shares that the contribution is of the whole, and the same part of the rewards charged. If a target was missed every contributor gets back exactly what was given, once, also after root has made the pair tradable or started the bootstrap again. Root alone starts and changes a bootstrap, in the states that allow it, and may withdraw the rewards. The account of bootstraps always holds what is owed to contributors. Events tell what happened; a call that fails changes nothing.',
         ['histories', 'inputs'], 'every history of contributions, targets, times, rewards and limits',
         'The pallet\'s tests run a few bootstraps of two contributors with round amounts; parts are rounded, and calls come in any order.',
         [DL, DS], [('bootstrap_create, bootstrap_contribute, bootstrap_claim, bootstrap_end, bootstrap_update, bootstrap_refund, bootstrap_charge_reward, bootstrap_withdraw_reward', DL), ('do_bootstrap_contribute, do_bootstrap_claim, do_end_bootstrap, do_bootstrap_refund', DS)],
         T + 'stateful model-based testing against an exact reference of the bootstrap', NOTE)
    SL, SB, SM, SU = ['crates/dex-stable/src/' + f for f in ('lib.rs', 'base_pool.rs', 'meta_pool.rs', 'utils.rs')]
    ST, SR, RT = 'crates/dex-stable/src/traits.rs', 'crates/dex-stable/src/rpc.rs', 'crates/dex-swap-router/src/lib.rs'
    SN = 'Random histories of five accounts in up to three stable pools, also pools on pools, with currencies of zero to eighteen decimals, A from 1 to 999 999 and amounts from dust to the whole; the invariant D and the balances y are solved exactly in integers and compared within the rounding of the pallet\'s iteration; pools so lopsided that the iteration is not known to come to rest are only judged by what is booked.'
    prop('C43', 'h-dex', 'A stable swap pays what the curve and the fees leave, and no more',
         'A swap in a stable pool takes the amount given, and pays out what the StableSwap curve through the pool\'s balances leaves, less the swap fee, rounded in the pool\'s favour by no more than the iteration\'s last digits; of the fee the admin\'s part is put aside, and exactly what left the curve is taken off the booked balances. In a pool on a pool the base shares count at their remembered price, which is renewed exactly when it is older than ten hours. The pool\'s account always holds at least what is booked; withdrawing the admin fee pays the difference to the receiver and nothing else. Swaps past the deadline, of a currency with itself or one the pool has not, or below the caller\'s minimum are refused; nothing a swap needs is refused otherwise; a call that fails changes nothing and no input makes it panic. What is quoted for swaps, for shares and for amounts added is what the call then gives.',
         ['histories', 'inputs'], 'every history, every amount, A, fee, decimals and price age',
         'The pallet\'s tests compare a handful of swaps with recorded numbers; quotes of pools on pools used the wrong price without any test noticing.',
         [SB, SM, SU], [('swap, withdraw_admin_fee', SL), ('base_pool_swap, calculate_base_swap_amount', SB), ('meta_pool_swap, calculate_meta_swap_amount, meta_pool_update_virtual_price', SM), ('get_d, get_y', SU), ('stable_amm_calculate_*', ST)],
         T + 'stateful testing against the curve solved exactly in big integers, and quote/call differential', SN)
    prop('C44', 'h-dex', 'Stable pool shares are minted and burned for their part of the curve',
         'The first to add to a stable pool gives of all its currencies and gets shares of the invariant D; later additions mint, and removals of given amounts or in one currency burn, the part of the shares by which D grows or shrinks once the fee on what is out of balance is taken off; a removal in proportion pays exactly the part of each balance, rounded down, with no fee. The booked balances change by what was moved and the admin\'s part of the fees. No swap, addition or removal lowers the worth of the shares of those who stay (beyond the last digits). Minimum and maximum and the deadline are kept, more shares than one has cannot be burned, and a call that fails changes nothing.',
         ['histories', 'inputs'], 'every history of adding, removing and swapping, every amount, A and fee',
         'The pallet\'s tests add and remove a few amounts and compare with recorded numbers.',
         [SL, SB, SM, SU], [('add_liquidity, remove_liquidity, remove_liquidity_one_currency, remove_liquidity_imbalance', SL), ('base_pool_add_liquidity, base_pool_remove_liquidity*, calculate_base_remove_liquidity_one_token', SB), ('meta_pool_add_liquidity, meta_pool_remove_liquidity*', SM), ('get_d, get_yd, calculate_fee_per_token', SU)],
         T + 'stateful testing against the curve solved exactly in big integers, and an invariant on the worth of a share', SN)
    prop('C45', 'h-dex', 'A call on a pool and its base pool does what its parts do',
         'Adding to a pool and its base pool, removing from both (in proportion or in one currency), swapping from and to the base pool, and swapping between any two underlying currencies do exactly what the calls on the single pools do one after the other: the same amounts move, the same shares are minted and burned, and only the last part goes to the recipient and has to reach the caller\'s minimum. They are refused exactly when a part is refused, or the base pool does not belong to the pool; no index or amount makes them panic. What is quoted for a swap of underlying currencies is what it gives, but for the estimate of the base pool\'s fee.',
         ['histories', 'inputs'], 'every history, every pair of pools, every index, amount and minimum',
         'The pallet\'s tests look at single composed calls; one returned zero for what it paid, and one ignored the minimum and the recipient.',
         [SL, SM], [('add_pool_and_base_pool_liquidity, remove_pool_and_base_pool_liquidity, remove_pool_and_base_pool_liquidity_one_currency, swap_pool_from_base, swap_pool_to_base, swap_meta_pool_underlying', SL), ('meta_pool_swap_underlying, calculate_meta_swap_underlying', SM)],
         T + 'differential testing of composed calls against their parts run one by one on the same state', SN)
    prop('C46', 'h-dex', 'The parameters of a stable pool change only by root and within their bounds',
         'Pools are created, and their fee, admin fee, fee receiver and A changed, by root alone and within the bounds: swap fee at most one in a hundred, admin fee at most the whole, A from 1 to 999 999, no change of A more than tenfold or within a day of the last, and none faster than a day. In between A moves in a straight line from the value it had to the one it is to have, and stopping it leaves it where it is. A new pool has the currencies, multipliers, fees and base price given, the next id and the shares of that id; nothing else changes any of them. What is told of a pool (currencies, multipliers, balances, A, price of a share, fees put aside) is what is so.',
         ['histories', 'inputs'], 'every history of times and parameters, every creation',
         'The pallet\'s tests ramp A between a few values; telling the currency by its index never worked and no test noticed.',
         [SL, SB, SU, SR], [('create_base_pool, create_meta_pool, update_fee_receiver, set_swap_fee, set_admin_fee, ramp_a, stop_ramp_a', SL), ('inner_create_base_pool', SB), ('get_a_precise', SU), ('get_*', SR)],
         T + 'stateful model-based testing of parameters over time against an exact reference', SN)
    prop('C47', 'h-dex', 'A route does what its hops do one after the other, or nothing',
         'A swap along a route of pairs and stable pools does exactly what its hops do one after the other: each takes what the one before gave, all but the last pay the caller, the last pays the recipient, and every balance ends as if the hops had been called by themselves. The route is refused exactly if the deadline is past, a hop does not start with what the one before ends in, a hop by itself is refused, or the last gives less than the caller\'s minimum; then nothing has changed. No route makes it panic.',
         ['histories', 'inputs'], 'every state of the pools, every route, amount and minimum',
         'The pallet\'s tests take a few fixed routes of at most three hops.',
         [RT], [('swap_exact_tokens_for_tokens, validate_routes, stable_swap', RT)],
         T + 'differential testing of routes against their hops run one by one on the same state', NOTE)
    MP = 'crates/multi-transaction-payment/src/lib.rs'
    prop('C57', 'h-dex', 'A fee can be paid in another currency, and the call within is none the wiser',
         'Taking a fee for a call made through a swap path first swaps what the path asks for the whole fee, tip included, no more than the caller\'s limit, and then takes exactly the fee in the native currency: the caller\'s native balance does not change. It is refused, with the reason given to the pool, exactly if the path does not end in the native currency, there is no such swap, it takes more than the limit, or the caller has not enough; then nothing has changed. A fee of nothing swaps and takes nothing; a call not made through a path pays in the native currency alone. The call within does what it does alone, for the same caller and under the same restrictions: the same state, error, price and class, with the weight of the swap added to what it is said to weigh and to what it weighed. Afterwards what was taken too much comes back in the native currency, the rest is handed on as fee and tip, and the native currency in existence is what it was.',
         ['inputs', 'histories'], 'every state of the pairs, every path, fee, tip, limit, correction and call',
         'The pallet\'s tests take round fees from one deep pair; longer paths, limits met exactly, switched-off calls and corrections of each amount are not reached.',
         [MP], [('with_fee_swap_path', MP), ('withdraw_fee, correct_and_deposit_fee', MP)],
         T + 'differential testing against the call made alone, and against exact reserves of the pairs',
         'Fees of all sizes on states reached by random histories of the pairs; the transaction-payment pallet is a stand-in with its currency adapter, whose fee steps the harness runs itself.')
