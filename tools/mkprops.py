#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "contracts/oraiswap-v3/src/"
H = "every sequence of transactions (any senders, pools, ranges, amounts, prices, attached coins, block times) accepted or rejected by the contract"
PROPS = []
def p(id, title, statement, why, files, mech, over=("histories", "inputs"), text=H, state=(), kind="h"):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=["execute/query entry points", "token balances of contract and accounts"] if kind == "h" else ["the public functions themselves"],
                     hook_needed=None)))

p("C01", "The contract can always pay everybody out",
  "After any history, the contract holds at least everything it owes: every liquidity position can be withdrawn with its principal and fees, and all protocol fees can be paid, in whatever order people leave. No withdrawal, burn, fee claim or protocol-fee withdrawal that is due ever fails for lack of funds or because the books no longer add up.",
  "Tests withdraw one or two positions after a fixed script; insolvency needs particular crossings, limits and rounding, and shows only when the last one leaves.",
  [C+"entrypoints/execute.rs", C+"entrypoints/common.rs", C+"storage/pool.rs", C+"storage/tick.rs", C+"math/clamm.rs"],
  [("liquidity, fee growth and protocol fee bookkeeping", C+"storage/pool.rs"), ("remove_position pays before forgetting", C+"entrypoints/execute.rs")],
  state=[("holdings", "token balances of the contract", "cw20 / bank"), ("debts", "claims of all positions plus protocol fees", C+"state.rs")])
p("C02", "Rounding never favours the user: no operation makes the pool poorer",
  "No single transaction (deposit, withdrawal, swap, route, claim) reduces what the contract holds beyond what it owes to all remaining positions and to the protocol; in particular no sequence of small operations, and no swap there and back, extracts value. Every amount a user pays is rounded up and every amount paid to a user is rounded down.",
  "A one-unit loss in one operation passes every assertion about typical amounts and appears only at particular prices, liquidities and tick positions.",
  [C+"math/clamm.rs", C+"entrypoints/common.rs", C+"storage/pool.rs", C+"storage/position.rs", C+"math/types/sqrt_price.rs"],
  [("rounding flags of the delta functions", C+"math/clamm.rs"), ("fee rounding", C+"storage/pool.rs")])
p("C03", "What users pay in is owed to somebody: no value is stuck or destroyed",
  "Apart from rounding dust bounded by a few units per price range walked, and apart from coins of unrelated denominations attached to a message, every transaction leaves the contract owing its users and the protocol exactly as much more as it received. Fees and deposits never become unclaimable.",
  "Tests look at the amounts of the account that acts; value that silently stops being owed to the other positions is not asserted anywhere.",
  [C+"storage/pool.rs", C+"storage/tick.rs", C+"storage/position.rs", C+"entrypoints/execute.rs", C+"entrypoints/common.rs"],
  [("fee growth and protocol fee accumulators", C+"storage/pool.rs"), ("tick crossing flips fee growth outside", C+"storage/tick.rs")])
p("C04", "A pool's active liquidity is that of the positions in range",
  "At all times the liquidity a pool trades with equals the sum of the liquidity of exactly those positions whose range contains the pool's current tick (lower bound included, upper bound excluded). Creating, removing, swapping across range ends in either direction, stopping exactly on a range end, and empty ranges all preserve this.",
  "The tests cross at most a few ticks from hand-picked prices; stopping exactly on a tick, tiny remainders and changes of direction at a tick are combinations no script samples.",
  [C+"storage/pool.rs", C+"storage/tick.rs", C+"state.rs", C+"entrypoints/common.rs"],
  [("update_tick / cross", C+"storage/pool.rs"), ("get_closer_limit", C+"state.rs")], state=[("liquidity", "active liquidity of a pool", C+"storage/pool.rs")])
p("C05", "Tick records mirror the positions that end on them",
  "A tick of a pool is recorded, and marked as initialised for the swap search, exactly while at least one position has it as an end; its gross liquidity is the total of those positions and its net liquidity is the total starting there minus the total ending there. After the last such position is gone the tick leaves no trace.",
  "Quantifies over all interleavings of deposits and withdrawals sharing range ends; tests use two or three positions.",
  [C+"storage/tick.rs", C+"state.rs", C+"storage/tickmap.rs", C+"entrypoints/execute.rs", C+"entrypoints/common.rs"],
  [("Tick::update", C+"storage/tick.rs"), ("flip_bitmap", C+"state.rs"), ("removal when gross is zero", C+"entrypoints/execute.rs")])
p("C06", "Price and current tick of a pool always belong together",
  "At all times a pool's price lies within the supported range, its current tick is a multiple of the tick spacing within bounds, and the price lies between the price of the current tick and the price of the next one (the upper end only right after that tick was crossed downwards). Only swaps change price or tick.",
  "The relation involves a logarithm approximation and four separate code paths that set the tick; tests compare a handful of end states.",
  [C+"math/log.rs", C+"storage/pool.rs", C+"math/types/sqrt_price.rs", C+"math/clamm.rs", C+"entrypoints/execute.rs"],
  [("get_tick_at_sqrt_price", C+"math/log.rs"), ("update_tick", C+"storage/pool.rs")])
p("C07", "A swap trades along the concentrated-liquidity curve, range by range",
  "A swap moves the price from range to range, in each using the liquidity active there, and charges and pays for each range exactly the amounts the constant-product formula gives for that range (input rounded up, output rounded down); the amounts it reports are the amounts the trader pays and receives. A swap that the liquidity, limits and amounts allow is carried out and any other is rejected.",
  "Exact amounts depend on all initialised ticks between start and end price; tests check a few fixed configurations.",
  [C+"entrypoints/common.rs", C+"math/clamm.rs", C+"state.rs", C+"storage/pool.rs"],
  [("calculate_swap loop", C+"entrypoints/common.rs"), ("compute_swap_step", C+"math/clamm.rs")])
p("C08", "Swaps respect the trader's amount and price limit",
  "A swap never moves the price past the limit the trader gave, nor in the other direction than asked; an exact-input swap takes exactly the given input and an exact-output swap delivers exactly the asked output, or the transaction fails as a whole. A swap that would give the trader nothing, has a zero amount, or a limit on the wrong side is rejected.",
  "The limit can fall anywhere relative to ticks, search ranges and rounding; tests use limits far away or one mid-range value.",
  [C+"entrypoints/common.rs", C+"math/clamm.rs", C+"state.rs"],
  [("limit checks", C+"entrypoints/common.rs"), ("get_closer_limit", C+"state.rs")])
p("C09", "Every swap pays the pool's fee, split exactly between protocol and positions",
  "On top of what the positions take in, a swap pays the pool's fee rate of it (rounded up) and no more than that beyond rounding; of this fee the configured protocol share, rounded up, is booked for the protocol in the input token and the rest is credited to the active liquidity. Nothing is booked in the output token.",
  "The split is computed per range step with different liquidity and rounding each time; tests check totals of a few swaps.",
  [C+"storage/pool.rs", C+"math/clamm.rs", C+"math/types/fee_growth.rs", C+"entrypoints/common.rs"],
  [("Pool::add_fee", C+"storage/pool.rs"), ("FeeGrowth::from_fee", C+"math/types/fee_growth.rs")])
p("C10", "Fees go to the positions in range, in proportion, and are paid once",
  "The fee of each part of a swap is earned by the positions whose range contains the price there, in proportion to their liquidity, and by nobody else. A claim pays exactly what the position earned since its last payout, rounded down; claiming again pays nothing, and no deposit, withdrawal, claim, transfer or re-use of a tick by others changes what a position has earned.",
  "Involves wrapping fee-growth counters inside and outside of ticks over arbitrary histories of tick creation, crossing and removal.",
  [C+"storage/tick.rs", C+"storage/position.rs", C+"storage/pool.rs", C+"math/clamm.rs", C+"entrypoints/execute.rs"],
  [("calculate_fee_growth_inside", C+"math/types/fee_growth.rs"), ("Position::claim_fee / modify", C+"storage/position.rs"), ("Tick::cross", C+"storage/tick.rs")])
p("C11", "Deposits cost and withdrawals return the value of the range at the current price",
  "Creating a position takes from its owner exactly the two token amounts that its liquidity is worth at the current price within its range (only one token if the price is outside), rounded up; removing it pays its owner the same valuation at the then current price, rounded down, plus all unclaimed fees. Invalid ranges, zero liquidity and unpayable deposits are rejected.",
  "Quantifies over all prices, ranges and liquidities including range ends on the current tick and extreme prices.",
  [C+"math/clamm.rs", C+"storage/position.rs", C+"entrypoints/execute.rs", C+"math/types/sqrt_price.rs"],
  [("calculate_amount_delta", C+"math/clamm.rs"), ("Position::modify / remove", C+"storage/position.rs")])
p("C12", "The list of an owner's positions is exact",
  "Each owner's positions are numbered without gaps from zero; creating appends one, removing or transferring takes exactly the named one out (the last one takes over its number) and alters no other position's pool, range, liquidity or fees. Counts, single lookups, pages and token listings always agree with each other.",
  "Needs arbitrary interleavings of create, remove and transfer by several owners; tests use short fixed sequences.",
  [C+"state.rs", C+"entrypoints/execute.rs", C+"entrypoints/query.rs"],
  [("add_position / remove_position swap-with-last", C+"state.rs")])
p("C13", "Positions move or end only with their owner's consent",
  "A position is removed, burned or transferred only by its owner or by an account that holds a current approval for that very position or for all of the owner's positions; the position acted on is the one named, its tokens go to its owner, and a transferred position arrives unchanged with its approvals cleared. Every other attempt is rejected without effect.",
  "Quantifies over all combinations of senders, approvals, expiries, index shifts after removals; tests cover single transfers.",
  [C+"entrypoints/execute.rs", C+"entrypoints/common.rs", C+"state.rs", C+"contract.rs"],
  [("check_can_send / check_can_approve", C+"entrypoints/common.rs"), ("handle_transfer_nft, handle_burn, handle_send_nft", C+"entrypoints/execute.rs")])
p("C14", "Only the admin changes the configuration",
  "The admin, the protocol fee, the list of fee tiers and a pool's fee receiver change only in a transaction sent by the current admin, to the values it names; after handing over, the former admin has no power and the new one has all of it. The admin can always make these changes.",
  "Authorisation must hold for every sender in every reachable configuration, including after several hand-overs.",
  [C+"entrypoints/execute.rs", C+"contract.rs", C+"storage/config.rs"],
  [("admin checks", C+"entrypoints/execute.rs")])
p("C15", "Protocol fees are paid in full, once, to the pool's fee receiver",
  "The protocol fees of a pool leave its books only when the pool's current fee receiver withdraws them; it then receives exactly the booked amounts of both tokens and the books return to zero. No other pool, position or account is affected.",
  "Needs histories with changing receivers, admins and several pools sharing tokens.",
  [C+"entrypoints/execute.rs", C+"storage/pool.rs"], [("withdraw_protocol_fee", C+"entrypoints/execute.rs")])
p("C16", "One pool per token pair and fee tier, created only with valid parameters",
  "A pool can be created by anybody for two different tokens and a registered fee tier, once, regardless of the order in which the tokens are named, at a price and tick that belong together and lie in range; it starts empty with the admin as fee receiver. Creating never changes an existing pool, and a pool is found under either token order.",
  "Quantifies over token orders, tiers, prices at tick boundaries and existing pools.",
  [C+"entrypoints/execute.rs", C+"storage/pool_key.rs", C+"storage/pool.rs", C+"math/log.rs"],
  [("PoolKey::new ordering", C+"storage/pool_key.rs"), ("Pool::create, check_tick_to_sqrt_price_relationship", C+"storage/pool.rs")])
p("C17", "The fee-tier registry holds valid, distinct tiers",
  "The registered fee tiers are always distinct, each with a fee below 100 % and a tick spacing between 1 and 100; adding an invalid or registered tier and removing an unregistered one are rejected, and removing a tier affects neither other tiers nor existing pools. Lookups and listing agree.",
  "Order-dependent add/remove sequences and boundary values.",
  [C+"entrypoints/execute.rs", C+"storage/fee_tier.rs", C+"storage/config.rs"], [("add_fee_tier / remove_fee_tier", C+"entrypoints/execute.rs")])
p("C18", "A quote is what the swap executes",
  "For any state and parameters, the quote for a swap gives exactly the input, output and final price that the same swap executed immediately afterwards yields, and fails exactly when that swap would fail for reasons of price or liquidity; a route quote over distinct pools gives the route's output. Quoting changes nothing.",
  "Equality of two code paths for all pools, amounts, directions and limits.",
  [C+"entrypoints/query.rs", C+"entrypoints/common.rs"], [("quote and swap share calculate_swap", C+"entrypoints/common.rs")])
p("C19", "A route is the composition of its hops, all or nothing, with minimum output",
  "A multi-hop swap has exactly the effect of swapping hop by hop, each with the full output of the previous one, charging the trader the input of the first hop and delivering the output of the last; if any hop fails, or the final output is below the expected amount less the allowed slippage, nothing at all changes.",
  "Quantifies over all chains of pools (including repeated pools, native and cw20 tokens) and failures at any hop.",
  [C+"entrypoints/execute.rs", C+"entrypoints/common.rs", C+"logic/math.rs"], [("swap_route_internal", C+"entrypoints/common.rs"), ("calculate_min_amount_out", C+"math/clamm.rs")])
p("C20", "Attached native coins pay exactly the amount due",
  "Where a pool token is a native coin, a deposit, swap or route succeeds only if the sender attached at least the amount due; exactly that amount is kept and the rest of that coin is returned in the same transaction. The same coins never pay twice, and a sender who attached more pays no more.",
  "Needs combinations of native and cw20 tokens, over- and underpayment, zero amounts due and several hops.",
  [C+"interface.rs", C+"entrypoints/execute.rs", C+"entrypoints/common.rs"], [("Asset::transfer_from / refunds", C+"interface.rs")])
p("C21", "Operations affect nobody and nothing else, and conserve tokens",
  "A transaction changes only the pools, positions and balances it is about: other pools (even over the same tokens), other owners' positions and third parties' balances stay as they were, and the total of each token never changes. A rejected transaction changes nothing.",
  "A frame condition over the whole state for every operation; tests look only at what the operation is meant to change.",
  [C+"entrypoints/execute.rs", C+"entrypoints/common.rs", C+"state.rs", C+"interface.rs"],
  [("storage keys composed from pool key and owner", C+"state.rs"), ("transaction rollback on error", C+"contract.rs")])
p("C24", "Queries report the contract's true state",
  "Every query (pools, pools of a pair, ticks, tick map, liquidity ticks and their count, positions and pages of them, position ticks, fee tiers, NFT ownership, tokens, approvals) answers from the current state completely and without duplicates, for any valid page parameters, and pages joined together give the whole list.",
  "Quantifies over all states and paging parameters; tests query fixed states.",
  [C+"entrypoints/query.rs", C+"state.rs", C+"contract.rs"], [("query handlers", C+"entrypoints/query.rs"), ("bitmap chunk iteration", C+"storage/tickmap.rs")])
p("C28", "Time bookkeeping of pools and ticks is consistent",
  "A pool remembers when it was created and when it was last used, in block time; the time a tick records as spent on its other side is never more than the pool's age, starts as the pool's age for ticks at or below the price and zero for others, and is mirrored at every crossing.",
  "Depends on block times between creation, crossings and re-creation of ticks.",
  [C+"storage/tick.rs", C+"storage/pool.rs", C+"entrypoints/common.rs"], [("Tick::create / cross", C+"storage/tick.rs")])
p("C29", "The liquidity referencing a tick stays below its limit",
  "No tick ever carries total liquidity at or above the maximum per tick for the pool's spacing; a deposit that would exceed it is rejected without effect, one that stays below is not rejected on this account, and reaching high totals never corrupts or overflows the pool's liquidity.",
  "Boundary behaviour near 128-bit limits after arbitrary deposits and withdrawals.",
  [C+"storage/tick.rs", C+"math/clamm.rs", C+"storage/position.rs"], [("calculate_max_liquidity_per_tick", C+"math/clamm.rs"), ("Tick::update", C+"storage/tick.rs")])
p("C30", "A deposit respects the depositor's price bounds",
  "A position is created only if the pool's price lies within the lower and upper price bounds the depositor gave (both included); otherwise the transaction is rejected without effect. Creating a position never moves the price.",
  "Bounds may coincide with the price or be inverted, at any price.",
  [C+"entrypoints/execute.rs", C+"storage/position.rs"], [("slippage check in Position::create", C+"storage/position.rs")])
p("C31", "Approvals and operators: given by the owner, limited, revocable, expiring",
  "Only a position's owner or one of its operators can grant or revoke approvals, and only an owner names or dismisses its operators; an approval that has expired, was revoked or belonged to a previous owner confers nothing, and an expiry already past is refused. Queries show exactly the approvals and operators in force (or also the expired ones when asked).",
  "Quantifies over block heights and times, repeated grants, revocations and transfers.",
  [C+"entrypoints/common.rs", C+"entrypoints/execute.rs", C+"entrypoints/query.rs", C+"state.rs"],
  [("update_approvals, OPERATORS", C+"entrypoints/common.rs")])

A = "all arguments of the functions (every tick, price, liquidity, amount, fee, rounding direction)"
p("C22", "Ticks and prices are consistent inverses over the whole range",
  "The price of a tick is 1.0001^(tick/2) to the twelve decimals it is kept with, strictly increasing over all supported ticks, and undefined outside them; the tick of a price is the greatest multiple of the tick spacing whose price does not exceed it, for every supported price, and an error for any other. Greatest and least tick, their prices and the check that tick and price belong together agree with this.",
  "443,637 ticks and astronomically many prices between them; the logarithm is an approximation with an accuracy argument that a few samples cannot settle.",
  [C+"math/log.rs", C+"math/types/sqrt_price.rs", C+"storage/tickmap.rs"], [("get_tick_at_sqrt_price", C+"math/log.rs"), ("calculate_sqrt_price, check_tick_to_sqrt_price_relationship", C+"math/types/sqrt_price.rs")],
  over=("inputs",), text=A, kind="f")
p("C23", "The search for the next tick finds exactly the nearest initialised one",
  "For every set of initialised ticks, current tick and tick spacing, the search upwards yields the least initialised tick above, the search downwards the greatest at or below the current tick, within the search range of 256 spacings and the supported ticks, and nothing if there is none; a swap step's limit is that tick's price, or the end of the search range, or the trader's limit if nearer. Marking and unmarking a tick affects that tick of that pool only, and marking twice is refused.",
  "All bit patterns over all chunk boundaries, window ends and spacings.",
  [C+"state.rs", C+"storage/tickmap.rs"], [("next_initialized / prev_initialized / get_closer_limit / flip_bitmap", C+"state.rs"), ("tick_to_position, get_search_limit", C+"storage/tickmap.rs")],
  over=("inputs",), text="all sets of initialised ticks, current ticks, spacings, limits and directions", kind="f")
p("C25", "The SDK computes what the contract computes",
  "The SDK (wasm crate) agrees with the contract on every function they share: prices and ticks, amounts between prices, swap steps, amounts of a range, liquidity per tick, fee growth and unclaimed fees, tick search, minimum output; and its swap simulation on given pool and ticks reports the input, output, fee and final price of the swap the contract would execute, or says that it cannot be executed.",
  "Two separately maintained implementations that must agree for all arguments; the SDK has no tests of its own.",
  ["wasm/clamm.rs", "wasm/swap.rs", "wasm/log.rs", "wasm/storage/pool.rs", "wasm/storage/tickmap.rs", "wasm/types/sqrt_price.rs", "wasm/types/fee_growth.rs", "wasm/math.rs"],
  [("simulate_swap", "wasm/swap.rs"), ("compute_swap_step", "wasm/clamm.rs"), ("calculate_fee", "wasm/math.rs")], over=("inputs",), text=A + ", and all pools with given ticks for the simulation", kind="f")
p("C26", "The liquidity helpers never overestimate what given tokens can buy",
  "For a range and price, the liquidity computed from an amount of one token (or both) is the largest that the contract would give for no more than that amount, and the reported amount of the other token is what the contract would charge (rounded up) or pay out (rounded down). Amounts that cannot be deposited at that price (wrong side of the range) are an error, never a wrong number. Contract and SDK helpers agree.",
  "Rounding in two directions over all prices, including prices exactly at range ends.",
  [C+"logic/math.rs", "wasm/math.rs"], [("get_liquidity, get_liquidity_by_x, get_liquidity_by_y", C+"logic/math.rs"), ("the same", "wasm/math.rs")], over=("inputs",), text=A, kind="f")
p("C27", "Decimal arithmetic is exact: rounded as named, or an error",
  "Every operation of the decimal types gives the mathematically exact result rounded in the direction its name says (down, or up for _up), in the scale of its left operand, or fails (error or abort) when an operand is invalid or the result does not fit; it never wraps or truncates silently. This covers the plain, checked and wide variants, conversions between decimals of different scale, and printing.",
  "Quantifies over pairs of 128-bit values; overflow and rounding boundaries are not sampled by tests.",
  ["packages/decimal-core/src/ops.rs", "packages/decimal-core/src/big_ops.rs", "packages/decimal-core/src/by_number.rs", "packages/decimal-core/src/checked_ops.rs", "packages/decimal-core/src/factories.rs", "packages/decimal-core/src/others.rs", "packages/decimal/src/uint.rs", C+"math/types/sqrt_price.rs"],
  [("derived arithmetic of decimal types", "packages/decimal-core/src/lib.rs"), ("wide conversions", "packages/decimal/src/uint.rs")], over=("inputs",), text="all values of all decimal types used by the contract", kind="f")
p("C32", "One step of a swap and the value of a range follow the curve for all arguments",
  "For every pair of prices, liquidity, amount, fee rate and direction, the contract's formulas (amounts between prices, next price, swap step, value of a range, fee growth and its inverse, minimum output, liquidity cap per tick, time per liquidity) give the exact value rounded in the pool's favour or fail cleanly. A step never passes its target, never takes more than offered or gives more than asked, and always takes its fee.",
  "Full 128-bit argument space at extreme prices and liquidities, which no reachable test pool samples.",
  [C+"math/clamm.rs", C+"math/types/fee_growth.rs", C+"math/types/seconds_per_liquidity.rs", C+"math/types/token_amount.rs", C+"math/types/sqrt_price.rs"],
  [("compute_swap_step, get_delta_x, get_delta_y, calculate_amount_delta", C+"math/clamm.rs"), ("FeeGrowth", C+"math/types/fee_growth.rs")], over=("inputs",), text=A, kind="f")
p("C33", "Events announce exactly what was done",
  "Every transaction carried out announces itself in one event of the contract, named after what was done: opening or closing a position (also by mint and burn) with its owner, its two ticks, its liquidity and the pool's price; swaps, routes and fee claims with the amounts that really moved; approvals, transfers and the change of the admin with the accounts concerned. Upgrading the contract changes nothing.",
  "Indexers rebuild positions from events for every history; the tests hardly look at attributes, and only of plain cases (not of burns by an operator, of swapped list entries, or of amounts after several ranges).",
  [C+"entrypoints/execute.rs", C+"contract.rs"],
  [("event attributes", C+"entrypoints/execute.rs"), ("migrate", C+"contract.rs")])
PROPS.sort(key=lambda q: q["id"])

LEVEL = {}
def manifest():
    checks = []
    for q in PROPS:
        i = q["id"]
        fn = i in FUNCS
        checks.append(dict(property=i, quick_cmd=f"node tools/check.js {i}", thorough_cmd=f"node tools/check.js {i} --tier thorough",
            technique=("Quint specification of the functions; recorded calls of the real functions checked against it" if fn else
                       "Quint specification; small worlds of the specification carried out transition by transition on the real contract, and randomised histories of the real contract validated step by step against it, with the property's predicates evaluated on every observed state/step"),
            level="model_checking",
            level_note=("Bounded: sampled and boundary arguments; trusts the Quint specification and evaluator." if fn else
                        "Bounded: small worlds to some depth and seeded random histories (no exhaustive proof); every transition, state and answer of the real contract is compared with the specification. Trusts the specification, the Quint evaluator and cw-multi-test as environment.")))
    return dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NA, hooks=HOOKS,
                notes="All checks: node tools/check.js <id>; see DESIGN.md.")
FUNCS = {'C22','C23','C25','C26','C27','C32'}
HOOKS = dict(guard='cfg(verif_hooks)', enable='RUSTFLAGS="--cfg verif_hooks" (pure/build.sh)', source_commits=['3110ffe'])
NA = []
if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in PROPS: f.write(json.dumps(q, ensure_ascii=False) + "\n")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1); f.write("\n")
