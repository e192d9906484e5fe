T = 'property-based testing: '
P = 'primitives/src/lib.rs'

def define(prop):
    prop('C10', 'h-primitives', 'Currency identifiers have one stable, lossless encoding',
         'Every currency identifier has exactly the stored bytes and the JSON its kind, token code and number determine, reads back from both unchanged, and no other bytes are read as a currency; codes, tickers, names and decimals of the listed tokens agree with each other. Clients that encode by the published type description produce the same bytes.',
         ['inputs'], 'every currency identifier, every byte string, every ticker',
         'There are no tests here; a shifted code or variant silently re-labels every balance in storage.',
         [P], [('create_currency_id!, TokenSymbol, CurrencyId, LpToken', P)],
         T + 'round trip and differential against an independent encoder and decoder',
         'Random search; the table of token codes at the pinned commit is part of the specification.')
    prop('C11', 'h-primitives', 'A pair of currencies has exactly one sorted pool token',
         'Two currencies that can be pooled (tokens, foreign assets, stable pool tokens) join to a pool token naming exactly those two; after sorting, either order gives the same pool token and distinct pairs give distinct ones; other currencies have none. Currencies are totally ordered by kind, then by code or number, and are equal exactly when stored alike.',
         ['inputs'], 'every pair and triple of currencies, in both orders',
         'There are no tests here; exchanges identify a pool by this sorted pair.',
         [P], [('CurrencyId::join_lp_token, sort, is_lp_token', P), ('From<LpToken> for CurrencyId', P)],
         T + 'metamorphic (swapped pair, sorted twice) and model-based (order)',
         'Random search.')
    prop('C12', 'h-primitives', 'Requests and amounts keep their value in every stored and exchanged form',
         'Issue, redeem and replace requests are stored with their fields in the agreed order and read back unchanged from storage and from JSON, where each amount of up to 128 bits is a decimal string; texts that are no such number are refused without a panic. Turning an amount into a fixed point number is exact or refused, and taking the whole part rounds towards zero.',
         ['inputs'], 'every request, every 128 bit amount, every fixed point number',
         'There are no tests here; a lossy field (a number above 2^53 in JSON) shows only for large amounts.',
         [P], [('IssueRequest, RedeemRequest, ReplaceRequest', P), ('serialize_as_string, deserialize_from_string', P), ('BalanceToFixedPoint, TruncateFixedPointToInt', P)],
         T + 'round trip and differential against an independent encoder',
         'Random search; field order and names at the pinned commit are part of the specification.')
    prop('C13', 'h-swap', 'The swap contract pays each order once, and only for its payment',
         'The swap contract pays out an order only when the runtime has verified a Bitcoin payment of at least the order\'s price to the order\'s own address; it pays exactly what that order locked, to the caller, once. Every other message is refused without moving funds, in any history of orders and executions.',
         ['inputs', 'histories'], 'every history of messages of several accounts, every set of Bitcoin payments',
         'The contract has no tests.',
         ['contracts/btc_swap/lib.rs'], [('create_trade, execute_trade', 'contracts/btc_swap/lib.rs')],
         T + 'stateful model-based testing in the off-chain contract engine',
         'Random histories; the runtime\'s verification is a stand-in that answers from a table of payments.')
