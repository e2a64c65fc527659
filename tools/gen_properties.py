#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
C = "contracts/oraiswap-v3/src/"
EX, CO, QU = C+"entrypoints/execute.rs", C+"entrypoints/common.rs", C+"entrypoints/query.rs"
IF, ST, CL, LG = C+"interface.rs", C+"state.rs", C+"math/clamm.rs", C+"math/log.rs"
PO, PS, TI, TM = C+"storage/pool.rs", C+"storage/position.rs", C+"storage/tick.rs", C+"storage/tickmap.rs"
SP, FG = C+"math/types/sqrt_price.rs", C+"math/types/fee_growth.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, obs, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=obs, hook_needed=hook)))
H, I, K = "histories", "inputs", "configurations"

prop("C01", "Solvency: every depositor and fee owner can always be paid in full",
 "After any history of operations the tokens held by the contract cover, in every order of leaving, the withdrawal and claimable fees of every open position and the accrued protocol fees of every pool, and each of these withdrawals succeeds. The tokens brought in by one pool's users are never needed to pay claims on another pool. Once everybody has left, only rounding dust is left behind, provided no fee counter has run through its whole range between two claims.",
 [H, K], "all operation sequences of several liquidity providers and traders over one or two pools, and from every reached state all exit orders",
 "a test exits one hand-built scenario in one order; insolvency by a rounding unit or a double-counted fee only shows after particular interleavings of deposits, crossings, claims and exits",
 [EX, CO, PS, PO, TI, CL, FG], [("position close", PS+" Position::remove"), ("fee growth", FG), ("amount rounding", CL+" get_delta_x/get_delta_y"), ("payout", IF+" Asset::transfer")],
 [("pool", "price, active liquidity, fee growth, protocol fees", ST+" POOLS"), ("positions", "per-owner open positions", ST+" POSITIONS")],
 ["execute entry point", "messages emitted to bank / token contracts", "contract token balances"])

prop("C02", "Opening and closing a position without trades never profits and costs dust",
 "If no trade moves the pool in between, closing a position returns for each token no more than its opening took, and less by at most rounding dust, whatever other users do with their own positions meanwhile. The opening takes the curve amounts for the range at the current price rounded up, the closing pays them rounded down, and a range entirely above or below the price takes only one of the two tokens.",
 [H, I], "every reachable pool state, every range and liquidity of the alphabet, every interleaving of other users' position operations",
 "tests check a few amounts at round prices; the dangerous cases are prices on or next to a range boundary, one-sided ranges and extreme ticks or liquidities",
 [EX, PS, PO, CL, SP], [("deposit/withdraw amounts", CL+" calculate_amount_delta"), ("rounding", CL+" get_delta_x, get_delta_y")],
 [("pool price and tick", "where the deposit is valued", ST+" POOLS")],
 ["tokens moved by opening and closing a position"])

prop("C03", "No account can extract value from a pool for free",
 "From any reachable state, no sequence of swaps, position openings, closings and fee claims in one pool by one account that ends with every position it opened closed leaves that account with at least as much of every token as before and strictly more of one, as long as nobody else acts.",
 [H], "all bounded operation sequences of one attacking account against pools with passive liquidity",
 "an exploit is a particular multi-step sequence (cross, add, claim, cross back ...) and tests never search for one",
 [EX, CO, PS, PO, CL, FG, IF], [("swap", CO+" calculate_swap"), ("rounding against the caller", CL), ("refunds", IF+" Asset::transfer_from")],
 [("pool", "price, liquidity, fee growth", ST+" POOLS")],
 ["attacker's token balances before and after"])

prop("C04", "Swap amounts and resulting price follow the liquidity curve exactly",
 "For every pool state and swap request the amounts exchanged, the fee charged and the resulting price and tick are those of walking the liquidity of the open positions segment by segment in the trade direction, where each segment ends at the nearest initialized tick, the search horizon or the price limit, takes its input rounded up, pays its output rounded down and charges the pool's fee on the input rounded up. Liquidity changes at, and only at, the initialized ticks crossed. A request that the price limit and the available liquidity allow succeeds, and any other request fails.",
 [H, I, K], "all reachable pool states of the bounded alphabets, both directions, exact-in and exact-out, amounts from one unit to several crossings, several fees and tick spacings",
 "tests pin a dozen swaps; an off-by-one at a tick boundary, search horizon or rounding step shows only for particular combinations of price, ranges and amounts",
 [CO, PO, TI, ST, CL, LG], [("swap loop", CO+" calculate_swap"), ("segment", CL+" compute_swap_step"), ("next limit", ST+" get_closer_limit"), ("crossing", PO+" update_tick, "+TI+" cross")],
 [("pool", "price, tick, active liquidity", ST+" POOLS"), ("ticks", "net liquidity at each boundary", ST+" TICKS")],
 ["swap execution results", "pool query after the swap"])

prop("C05", "Traders and depositors get what they asked for or nothing happens",
 "A successful swap by input amount takes exactly that amount, a successful swap by output amount delivers exactly that amount, the trader always receives something, and the price moves only in the direction of the trade and never past the caller's price limit. A limit on the wrong side of the price, a zero amount, or an amount that would need to go past the limit makes the swap fail. A position opens exactly when the pool price lies within the caller's two inclusive slippage bounds, the range is ordered, aligned to the tick spacing and within the tick bounds, the liquidity is non-zero and the liquidity per tick stays below its cap.",
 [H, I], "every reachable state times every request of a grid that includes limits equal to, one unit around and far from the actual price path",
 "tests use far-away limits; equality and one-unit-off limits, limits exactly on a tick and partially consumable amounts are not covered",
 [CO, EX, PS, CL], [("limit checks", CO+" calculate_swap"), ("slippage bounds", PS+" Position::create"), ("tick checks", CL+" check_tick")],
 [("pool price", "compared with limits", ST+" POOLS")],
 ["outcome, token movements and price of swap and position opening"])

prop("C06", "Active liquidity and tick bookkeeping always match the open positions",
 "At every reachable state a pool's active liquidity is the sum of the liquidities of its positions whose range contains the current tick (lower bound inclusive, upper exclusive), a tick exists and is marked in the tick map exactly when some open position starts or ends there, and its gross and net liquidity are the sums over those positions. The current tick is aligned, and the price lies between the price of that tick and the price one spacing above.",
 [H], "all operation sequences (open, close, transfer, swap across ticks in both directions, claim) up to the depth bound",
 "the relation has to hold after every history, including shared boundaries, closing while out of range and stopping exactly on a tick",
 [EX, CO, PS, PO, TI, ST, TM], [("tick update", TI+" update, cross"), ("tick create/remove", CO+" create_tick, remove_tick_and_flip_bitmap"), ("pool liquidity", PO+" update_liquidity")],
 [("ticks", "gross/net liquidity", ST+" TICKS"), ("bitmap", "which ticks are initialized", ST+" BITMAP")],
 ["pool, tick, tick map and position queries"])

prop("C07", "Trading fees go exactly to the liquidity in range when they were paid",
 "The fee of every swap segment, minus the protocol's share, is credited to the positions whose range contains the segment, in proportion to their liquidity and rounded down, and to nobody else, so what a position can claim or is paid on closing is exactly the sum of its shares since it was opened or last claimed, as long as that sum fits the fee counter (2^128 / 10^28 tokens per unit of liquidity). Claiming pays it once: a second claim with no trade in between pays nothing. Openings, closings, claims and transfers of any position do not change what any other position can claim.",
 [H, K], "all interleavings of swaps crossing range boundaries with openings, closings, claims and transfers of several overlapping positions",
 "the fee-outside bookkeeping is path dependent: whether a tick was created above or below the price, crossed an odd or even number of times, re-created after removal; tests follow a few paths",
 [PS, PO, TI, FG, EX], [("fee accrual", PO+" add_fee"), ("fee inside", FG+" calculate_fee_growth_inside"), ("outside flip", TI+" cross, create"), ("claim", PS+" claim_fee, update")],
 [("fee growth", "global and per tick outside", ST+" POOLS, TICKS"), ("position fee growth", "snapshot", ST+" POSITIONS")],
 ["tokens paid by claim and close"])

prop("C08", "Protocol fees: exact share, paid once, only to the fee receiver",
 "Every swap segment that trades against liquidity adds to the pool's protocol fee of the input token exactly the configured share of the charged fee, rounded up, and no other operation adds to it. A withdrawal by the pool's current fee receiver pays exactly the accrued amounts of both tokens to that receiver and resets them to zero; anybody else's attempt fails. A new pool's fee receiver is the admin at creation time, and changing the share affects later swaps only.",
 [H, K], "all sequences of swaps, share changes, receiver changes and withdrawals by every account, with shares including zero and 100%",
 "tests check one swap and one withdrawal; mixed token directions, withdrawal twice, share changes between segments and receivers changed mid-way are not enumerated",
 [PO, EX, CO], [("accrual", PO+" add_fee"), ("withdraw", EX+" withdraw_protocol_fee"), ("receiver", EX+" change_fee_receiver")],
 [("protocol fee", "accrued per token", ST+" POOLS"), ("share", "config", ST+" CONFIG")],
 ["pool query", "withdrawal payments"])

prop("C09", "Only the current admin governs and governance touches nothing else",
 "Changing the admin, the protocol fee share, a pool's fee receiver or the list of fee tiers succeeds only for the current admin, takes effect exactly as requested, and leaves pools, positions, balances and all other settings unchanged. After the admin role is handed over, the previous admin can do none of this. No operation available to other accounts changes any of these settings. Migrating the contract to this code keeps every setting, pool, position and grant.",
 [H], "all sequences of governance and user messages by every account, including after admin hand-over chains",
 "tests try one unauthorized caller per message from the initial state; hand-over histories and side effects of other messages are not enumerated",
 [EX, C+"contract.rs", C+"storage/config.rs"], [("admin checks", EX+" change_admin, change_protocol_fee, change_fee_receiver, add_fee_tier, remove_fee_tier")],
 [("config", "admin, fee share, fee tiers", ST+" CONFIG")],
 ["governance messages and config queries"])

prop("C10", "Position tokens move only with the owner's consent",
 "A position can be transferred, sent or burned as a token only by its owner, an account holding an unexpired approval for that very position, or an unexpired operator of the owner; approvals are granted and revoked only by the owner or an unexpired operator, and operators only by the owner for himself. A transfer hands over exactly the named position and clears its approvals; a send moreover notifies the receiving contract once, with the caller, the token and the message given; a burn by an authorized account closes exactly the named position and pays its owner. Already expired grants are rejected, revoked or expired grants give no rights, and the access queries report exactly the grants in force.",
 [H], "all sequences of approve, revoke, approve-all, revoke-all, transfer, send, burn, position transfer, close and clock advance by owner, spender, operator and stranger over several positions",
 "tests check a handful of grant/transfer pairs; rights surviving a transfer, an index reuse after a close, or an expiry at the exact boundary need particular histories",
 [EX, CO, QU, ST], [("authorization", CO+" check_can_send, check_can_approve"), ("approvals", CO+" update_approvals"), ("transfer", CO+" transfer_nft"), ("burn", EX+" handle_burn")],
 [("approvals", "per position", ST+" POSITIONS"), ("operators", "per owner", ST+" OPERATORS")],
 ["NFT messages and owner/approval queries", "tokens paid by burn"])

prop("C11", "The position list never loses, duplicates or alters a position",
 "For every account, the positions listed are exactly those it opened or received and has not closed or handed on, numbered without gaps from zero, and the reported count agrees. Opening or receiving appends at the end; closing or handing on removes exactly the chosen one and moves at most the last one into its place; all other positions of all accounts keep their pool, range, liquidity, fee entitlement and approvals. Acting on an index that does not exist fails, and so does handing a position by the position transfer message to a receiver that is not an address.",
 [H], "all sequences of open, close, transfer, token transfer, send and burn by several accounts, including transfers to oneself",
 "the swap-with-last compaction is only exercised for a few indices; combinations of removal position, list length, approvals and receiver need enumeration",
 [ST, EX, CO], [("list compaction", ST+" remove_position, add_position"), ("transfer", EX+" transfer_position"), ("token transfer", CO+" transfer_nft")],
 [("positions", "owner index list", ST+" POSITIONS, POSITIONS_LENGTH")],
 ["position, positions, count and token queries"])

prop("C12", "Token movements match each operation and excess native coins come back",
 "For every operation the tokens actually moved between the caller and the contract equal the amounts the operation reports or computes, nobody else's balance changes, and every payout goes to the caller, except that a burn by an authorized other account pays the owner. When native coins are attached to a position opening, swap or routed swap, exactly the amount the operation needs is kept, everything attached beyond that is returned to the caller exactly once, and the operation fails if less than needed is attached. A failed operation moves nothing.",
 [H, I, K], "all operations from reachable states over every native/cw20 combination of the pair, with attached funds below, equal to and above what is needed, including coins of the other token, several hops and one-sided deposits",
 "tests use cw20 pairs and exact funds; over-attached funds over several hops or with a zero requirement are not covered",
 [IF, EX, CO], [("pull", IF+" Asset::transfer_from"), ("pay", IF+" Asset::transfer"), ("hops", CO+" swap_internal, swap_route_internal")],
 [("attached funds", "coins sent with the message", IF)],
 ["messages emitted and resulting balances of all accounts"])

prop("C13", "A quote equals the execution that follows it and changes nothing",
 "In every reachable state a quote for a swap, and a quote for a route that uses each pool at most once, succeeds exactly when the execution of the same request would, and reports the same amounts, final price and crossed ticks with the values they have after the execution. Asking for a quote or any other query changes nothing.",
 [H, I], "every reachable state times the swap and route requests of the alphabet",
 "tests compare one quote; equality has to hold at tick boundaries, limits, zero output and failing requests alike",
 [QU, CO], [("quote", QU+" quote, quote_route"), ("shared computation", CO+" calculate_swap, route")],
 [("pool and ticks", "read by quote, written by swap", ST)],
 ["quote queries and swap execution from the same state"])

prop("C14", "A routed swap is its hops in order, all or nothing, above the minimum",
 "A routed swap has the same effect on every pool and on the caller's balances as swapping hop by hop, each hop by input amount with the previous hop's output, and it succeeds only if every hop succeeds and the last output is at least the expected output reduced by the slippage, rounded up. Otherwise it fails and changes nothing.",
 [H, I, K], "all routes up to the hop bound over three tokens and several pools (also revisiting a pool), all expected outputs around the actual one, several slippages",
 "tests run one two-hop route; the minimum at exact equality and one unit above, repeated pools, direction mixes and failing later hops are not covered",
 [EX, CO, CL], [("route", CO+" swap_route_internal"), ("minimum", CL+" calculate_min_amount_out")],
 [("pools", "each hop's pool", ST+" POOLS")],
 ["route execution vs chained swaps from the same state"])

prop("C15", "Pools and fee tiers are validated, unique, order-free and isolated",
 "A pool can be created only for two different tokens, a currently listed fee tier, an aligned in-bounds initial tick and a price belonging to that tick, and at most once per unordered token pair and fee tier; both token orders name the same pool, whose first token is the lexicographically smaller. A fee tier can be listed only with a tick spacing from 1 to 100 and a fee below 100%, at most once, and removing it blocks new pools while existing pools keep working unchanged. No operation on one pool changes another pool.",
 [H, I], "all sequences of tier additions/removals, pool creations in both token orders and operations on the pools, over grids of tick, price, spacing and fee boundaries",
 "tests try single invalid values; duplicates after removal and re-addition, boundary prices one unit off a tick, and cross-pool effects of shared tokens need enumeration",
 [EX, C+"storage/pool_key.rs", C+"storage/fee_tier.rs", PO, SP, ST], [("create pool", EX+" create_pool"), ("tiers", EX+" add_fee_tier, remove_fee_tier"), ("price-tick relation", SP+" check_tick_to_sqrt_price_relationship"), ("keys", C+"storage/pool_key.rs")],
 [("fee tiers", "allowed tiers", ST+" CONFIG"), ("pools", "by key", ST+" POOLS")],
 ["pool creation, fee tier messages and pool queries"])

prop("C16", "Tick and price conversions are accurate, monotone and mutually inverse",
 "For every valid tick the price derived from it is strictly increasing in the tick and within 2 parts in 10^11, plus 2 parts in 10^14 per tick of distance from zero, plus two units of the twelfth decimal, of the exact power sqrt(1.0001)^tick. For every valid price and tick spacing the tick derived from it is the largest aligned tick whose price does not exceed that price. Ticks or prices outside the valid range are rejected.",
 [I], "all 443,637 ticks; for every tick the prices at, one unit below and one unit above it, for every tick spacing class; spacing 1..100 on the boundary ticks",
 "tests sample some ticks; a wrong multiplier bit or logarithm correction shows only for some of the 443,637 ticks or one unit around them",
 [LG, SP], [("tick to price", SP+" calculate_sqrt_price"), ("price to tick", LG+" get_tick_at_sqrt_price")],
 [], ["conversion functions used by pool creation and swaps"])

prop("C17", "Tick search and tick queries see exactly the initialized ticks",
 "From any aligned tick, the search in either direction finds the nearest initialized tick within the search horizon (including the starting tick when going down, excluding it when going up), or none, for every set of initialized ticks. The mapping between ticks and tick map slots is one to one over the whole tick range for every tick spacing. The tick count, tick listing and initialized-tick queries report exactly the initialized ticks of the asked range, which includes both ends, and the tick map query returns every chunk the range touches that holds initialized ticks, whole and in the asked direction.",
 [I, K], "all sets of up to three initialized ticks on slot, chunk, horizon and range boundaries, all starting points around them, both directions, all tick spacings for the mapping",
 "tests use a few tick sets; errors hide at chunk edges, bit 63, exactly 256 steps away and at the ends of the tick range",
 [ST, TM, QU], [("search", ST+" next_initialized, prev_initialized, get_closer_limit"), ("mapping", TM+" tick_to_position, position_to_tick"), ("queries", QU+" get_tickmap, get_liquidity_ticks, get_liquidity_ticks_amount")],
 [("bitmap", "64-tick chunks", ST+" BITMAP")],
 ["search functions and tick queries"])

prop("C18", "Fixed-point operations round the stated way and never wrap silently",
 "Every arithmetic operation of the fixed-point library returns the exact rational result rounded down, or rounded up in the variants that say so, for every pair of operand values and scales, and an operation whose result does not fit reports an error or aborts instead of returning a wrong value. Conversions between scales, integer conversion and the wide-value variants do the same.",
 [I], "all operand pairs of 8-bit decimals over several scale pairs, and full products of boundary values for the 128-bit types used by the contract",
 "tests check a few values per operation; rounding and overflow behaviour must hold for all operands",
 ["packages/decimal/src/lib.rs", "packages/decimal/src/uint.rs", "packages/decimal-core/src/ops.rs", "packages/decimal-core/src/big_ops.rs", "packages/decimal-core/src/others.rs", "packages/decimal-core/src/factories.rs", "packages/decimal-core/src/by_number.rs", "packages/decimal-core/src/checked_ops.rs"],
 [("operators", "packages/decimal-core/src/ops.rs"), ("wide operators", "packages/decimal-core/src/big_ops.rs"), ("factories", "packages/decimal-core/src/factories.rs")],
 [], ["library operations on decimal types"])

prop("C19", "The client SDK computes what the contract does",
 "For every reachable pool state, the SDK's swap simulation fed with the pool, tick map and ticks returned by the contract's queries reports the amounts, fee, final price and crossed ticks of the contract's own swap, and flags insufficient liquidity exactly where the contract refuses for that reason; it gives up, and says so, only when more ticks are crossed than its published maximum. The SDK's fee calculation equals what claiming pays, and its tick, price, amount, minimum-output and tick map functions agree with the contract's on every input.",
 [H, I], "every reachable state times swap requests, plus the full tick domain and boundary grids for the mathematical functions",
 "SDK and contract are separate copies of the same formulas; tests never run them against each other",
 ["wasm/swap.rs", "wasm/clamm.rs", "wasm/custom.rs", "wasm/math.rs", "wasm/log.rs", "wasm/collections/tickmap.rs", "wasm/storage/pool.rs", "wasm/storage/tick.rs", "wasm/types/sqrt_price.rs", "wasm/types/fee_growth.rs", CO, CL],
 [("simulation", "wasm/swap.rs simulate_swap"), ("claimable fee", "wasm/custom.rs calculate_fee"), ("math mirror", "wasm/clamm.rs")],
 [("pool and tick data", "as returned by queries", QU)],
 ["SDK functions vs contract queries and execution"], "a stand-in for the JavaScript value decoding crate in the harness, so that the swap simulation can be called natively")

prop("C20", "Liquidity computed from a token amount is affordable and near maximal",
 "For every token amount, range and price, opening a position with the liquidity that the helper functions of contract and SDK compute from that amount never requires more of that token than the amount given, and the computed liquidity is the largest affordable one up to the precision of the price arithmetic. The amount of the other token they report is what the opening requires, up to rounding and the fractional part of the liquidity. Helpers called with a range in which that token is not needed fail.",
 [I], "full product of boundary ticks, prices at and one unit around range bounds, and amounts from one unit to the representable maximum",
 "tests check a few ranges at price one; affordability has to hold for every combination",
 [C+"logic/math.rs", "wasm/math.rs", CL], [("liquidity by x / by y", C+"logic/math.rs, wasm/math.rs")],
 [], ["helper functions vs amounts required to open the position"])

prop("C21", "Listing queries are complete, ordered and page without gaps or repeats",
 "For every page size and starting point, the pages of the pool, position, operator and token listings concatenate to the complete list, each entry exactly once, in a fixed order and with the values that the single-item queries report; pool listings for a pair return every pool of the pair on a listed tier once. The position tick listing returns lower and upper tick of each position from the given offset. Starting points past the end give empty pages or a clean error, and page sizes up to the maximum value are accepted.",
 [H, I], "every state reached by sequences of registrations, times all page sizes and starting points around the list length and the integer maximum",
 "tests page through one list with one size; off-by-one at page boundaries and arithmetic limits need enumeration",
 [QU, ST, C+"storage/pool_key.rs"], [("pagination", ST+" get_pools, get_all_positions, get_all_position_keys, "+QU+" query_all_approvals, query_all_tokens")],
 [("lists", "pools, positions, operators", ST)],
 ["listing queries"])

prop("C22", "Time-in-range counters measure how long the price was in the range",
 "For any two initialized ticks, the time counters reported for them determine the time the pool's current tick spent at or above the lower and below the upper tick since both were initialized: its growth between any two moments equals the real time spent in the range, whatever crossings happened. A new tick's counter starts with the age of the pool if the tick is at or below the current one, else with zero, and counters of ticks that are not crossed do not change. A pool remembers its creation time and the time of the latest tick crossing, opening, closing or fee claim in it.",
 [H], "all interleavings of clock advances with swaps crossing ticks in both directions, tick creation and removal",
 "tests never advance the clock between crossings",
 [TI, CO, QU], [("seconds outside", TI+" create, cross")],
 [("tick time counter", "time on the other side of the tick", ST+" TICKS")],
 ["tick and position tick queries"])

prop("C23", "Swap and liquidity arithmetic never favours the user and never overshoots",
 "For any two prices and any liquidity, the token amount rounded up is at least, and the amount rounded down at most, the exact amount the curve assigns to that price range, and neither differs from it by more than rounding and the precision of the price product explain. One swap step, for every price, target, liquidity, amount and fee, moves the price toward the target and never past it, takes at least the exact input and pays at most the exact output of that price move, charges at least the fee rate on the input, takes no more than the given amount when swapping by input and pays no more than it when swapping by output, and either reaches the target or uses the amount up. It fails only for amounts close to the limits of the integer types.",
 [I], "product of prices over the whole range (at and between ticks), targets from one unit to the search horizon away in both directions, liquidities from one unit to 2^126, fees from zero to almost one, and amounts at and around the one that exactly reaches the target",
 "tests check a few steps near price one; the precision of the formulas depends on the price, and near the lower end of the range amounts are off by many units unless every rounding is right",
 [CL, C+"math/types/sqrt_price.rs", C+"math/types/token_amount.rs"], [("step", CL+" compute_swap_step"), ("amounts", CL+" get_delta_x, get_delta_y"), ("next price", CL+" get_next_sqrt_price_x_up, get_next_sqrt_price_y_down")],
 [], ["results of the step and amount functions used by swaps, quotes and position changes"])

prop("C24", "Every message reports truthfully what it did",
 "The attributes of every successful message tell what happened, so that a service following them is never misled. The action names the operation that was carried out (the burning and minting of a position token are reported as the removal and creation of the position). Creating and removing a position report its owner, liquidity and both ticks, and the pool's square root price at that moment, also when an authorized account burns it for the owner. A swap reports the amounts actually taken and paid, a routed swap the amount paid by its last hop, and a fee claim the amounts paid of both tokens. Token messages report the caller and the recipient, spender or operator, and a change of admin the new admin. Figures are exact decimal numbers.",
 [H], "all sequences of all messages by several accounts from several pools, with approvals and operators acting for the owner",
 "tests read two amounts of one claim; whether the reported price, owner and amounts are the ones after the operation depends on the history and on who acts",
 [EX, C+"contract.rs"], [("attributes", EX+" create_position, remove_position, swap, swap_route, claim_fee, handle_burn, handle_mint"), ("decimal text", "packages/decimal-core/src/others.rs Display")],
 [], ["attributes of the response of every message"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
