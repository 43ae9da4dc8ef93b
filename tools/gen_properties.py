#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording lives in one reviewable place)."""
import json, os
P = []
EX = "exchange/src/exchange.rs"
VA = "exchange/src/exchange/virtual_margin_account.rs"
VP = "exchange/src/exchange/virtual_margin_pool.rs"
VO = "exchange/src/exchange/virtual_oracle.rs"
VC = "exchange/src/exchange/virtual_config.rs"
RQ = "exchange/src/exchange/requests.rs"
ACC = "account/src/margin_account.rs"
POOL = "pool/src/margin_pool.rs"
CFG = "config/src/config.rs"; CFGS = "config/src/config/structs.rs"
ORA = "oracle/src/oracle.rs"
REF = "referral_generator/src/referral_generator.rs"
FDI = "fee_distributor/src/fee_distributor.rs"
FDE = "fee_delegator/src/fee_delegator.rs"
TW = "token_wrapper/src/token_wrapper.rs"
PR = "permission_registry/src/permission_registry.rs"
TESTS = "The repository's stable tests only cover the 16-bit float helper; the ledger tests of the exchange do not run here, and each fixes one set of numbers. "

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every operation conserves the sum of all internal claims",
  "Any public operation of the exchange leaves unchanged the sum of the pool's virtual balance, every margin account's virtual balance, the undistributed protocol and treasury fees, the referral balances and the fee-delegator balance net of outstanding fee oaths. Base tokens that enter or leave the pool vault move one holder's claim and the pool's virtual balance by opposite amounts. No sequence of operations can therefore create or destroy a claim on the pool's base tokens.",
  ["inputs","histories","configurations"], "Every operation, every amount, price, time step, referral setting and configuration, from every reachable state of pool, account and fee components.",
  TESTS + "Conservation has to hold for every amount and on every branch (profit/loss, long/short, referral or not, bad debt), and one lost unit per trade is invisible to hand-picked numbers.",
  [EX, VA, VP, FDI, FDE],
  [("_settle_account / _settle_fees_basic / _settle_fees_referral", EX), ("_settle_funding", EX), ("collect_* / swap_protocol_fee", EX), ("distribute", FDI), ("update_virtual_balance", FDE)],
  [("virtual_balance", "pool, account and fee components' share of the pool's base tokens", POOL+", "+ACC+", "+FDI)],
  ["pool, account, fee distributor, fee delegator and referral getters; pool vault amount"])
p("C02", "Pool open interest and cost equal the sum over accounts' positions",
  "For every pair, the pool's long and short open interest always change by exactly what the accounts' long and short position sizes change, and the pool's recorded cost by exactly what the positions' recorded costs change. Open interest therefore never goes negative and no position exists without matching open interest.",
  ["inputs","histories"], "Every open, increase, partial or full close, flip, liquidation and auto-deleverage, for every amount, side and price.",
  TESTS + "The two books are updated at separate sites per branch (long/short, open/close, liquidate); only some branches are exercised by any sample.",
  [EX, VA, VP], [("_open_position", EX), ("_close_position", EX), ("_liquidate_positions", EX), ("position realization", VA+" realize; "+ACC+" update")])
p("C03", "Pool-wide skew and P&L totals always equal the sum over pairs",
  "After every operation the pool's total absolute skew and total unrealised trader P&L equal the sums of the per-pair values, and each pair touched by the operation is valued at the current price: absolute skew = |long - short| x price and P&L = recorded cost - skew. Pool value, LP price and the skew ratio derive from these totals.",
  ["inputs","histories"], "Every operation on one or several pairs, from any consistent pool state, for every price move.",
  TESTS + "A stale or doubly counted snapshot only shows for particular price moves and combinations of pairs.",
  [EX, VP], [("_update_pair", EX), ("_update_pair_snaps", EX), ("add_skew_abs_snap / add_pnl_snap", VP)])
p("C04", "Funding is zero-sum and every position pays it exactly once",
  "When a pair accrues funding over a period, what the paying side is charged equals what the receiving side is credited plus what accrues to the pool, up to rounding; the direction follows the sign of the funding rate, nothing accrues for a zero period or while one side is empty, and the amount scales with the elapsed time. A pair accrues its funding up to the present before one of its positions is settled. A position pays the index difference since its last settlement times its size exactly once, and the pool's unrealised funding is reduced by exactly that amount.",
  ["inputs","histories","configurations"], "All open interests, skews, prices, elapsed times, funding parameters and stored funding rates.",
  TESTS + "Rates depend on the product of skew, time and several parameters with different branches for decay and clamping; errors show only for specific signs and orderings.",
  [EX], [("_update_pair", EX), ("_settle_funding", EX), ("funding in _value_positions / _liquidate_positions", EX)],
  [("funding_long_index / funding_short_index", "cumulative funding per unit", POOL+" structs"), ("unrealized_pool_funding", "funding owed to the pool", POOL)])
p("C05", "Trading fees follow the published formula and stay within their bounds",
  "The fee of a trade is (base rate x value + impact rate x value x (2 x skew + value)) times the referral rebate, limited to between zero and the maximum-fee rate times the trade value. Every fee is split completely between pool, protocol, treasury and referrer by the configured shares, and the referrer's share is credited to the referrer of the trading account and to nobody else. A referral's fee share and rebate are what was last accepted and always lie between 0 and 10 %.",
  ["inputs","configurations"], "All trade sizes, sides, skews, prices, fee parameters and referral settings.",
  TESTS + "Clamping, sign of the impact term and the rebate interact; a sampled trade sees one combination.",
  [EX, VA], [("_calculate_fee", EX), ("_settle_fees_referral", EX), ("_settle_fees_basic", EX), ("fee_rebate / reward_referral", VA)])
p("C06", "No user action leaves an account below initial margin",
  "After any collateral withdrawal, position increase or fee-oath settlement, the account's value (collateral at its discount, unrealised P&L net of fees and funding, and balance) is at least the initial margin of all its positions plus the collateral margin; otherwise the operation is rejected in full.",
  ["inputs","histories","configurations"], "All account states with several positions and collaterals, all prices, amounts and margin parameters.",
  TESTS + "The comparison aggregates several products over positions and collaterals; the boundary is never hit by chance.",
  [EX], [("_assert_account_integrity", EX), ("_value_positions / _value_collateral", EX), ("_settle_fee_oath, _remove_collateral, _open_position", EX)])
p("C07", "Only accounts below maintenance margin are liquidated, and completely",
  "Liquidation succeeds only if the account's value is below its maintenance requirement; it then closes every position, pays out all its configured collateral to the liquidator against at least its discounted value, never leaves the account with a negative balance, and invalidates all its earlier requests. The liquidator gets back exactly what was paid above the discounted value.",
  ["inputs","histories","configurations"], "All account states, prices, payments and margin parameters.",
  TESTS + "Eligibility and settlement depend on P&L, funding, fees, discount and rounding together.",
  [EX, VA], [("_liquidate", EX), ("_liquidate_positions / _liquidate_collateral", EX), ("update_valid_requests_start", VA)])
p("C08", "Auto-deleverage fires only above the skew cap and reduces the skew",
  "Auto-deleveraging succeeds only when the skew ratio exceeds its cap and the position's relative profit (value minus cost, relative to the size of the cost, for long and short alike) exceeds the published threshold for that ratio; it closes that position entirely at the current price with the normal fee, and must strictly reduce the skew ratio.",
  ["inputs","histories","configurations"], "All pool skews, positions, prices and deleverage parameters.",
  TESTS + "The threshold is a cubic in the skew ratio and the guards are strict inequalities.",
  [EX], [("_auto_deleverage", EX), ("_skew_ratio", EX), ("_close_position", EX)])
p("C09", "Configured risk and size limits can never be exceeded",
  "No accepted operation leaves a pair's open interest on the side it increased above its maximum, an account above its maximum number of positions, collaterals or active requests after adding to them, or the pool's skew ratio at or above its cap unless the trade reduced the skew; orders below the minimum trade size, withdrawals with too many claims and orders affecting too many other requests are rejected.",
  ["inputs","histories","configurations"], "All states, amounts and limits, including states exactly at a limit.",
  TESTS + "Limits fail by one at a boundary or on one branch (short side, second collateral, dormant requests).",
  [EX, VA], [("_assert_pool_integrity", EX), ("oi_max asserts in _open_position", EX), ("_assert_position_limit / _assert_collaterals_limit / _assert_active_requests_limit", EX), ("trade_size_min and length asserts", EX)])
p("C10", "Orders execute exactly as requested: side, size, price and slippage limits",
  "A processed order first closes opposite exposure up to the full position and opens the remainder only if it is not reduce-only, so the position changes by exactly the requested amount, or by the closable part for reduce-only orders. It executes only if the current price satisfies the price limit and the fee paid does not exceed the slippage limit, and the realised P&L is size x price minus the proportional cost and fee.",
  ["inputs","histories"], "All existing positions, order amounts, prices, price limits and slippage limits.",
  TESTS + "Close/open splitting has sign and boundary cases (exact close, flip, zero) that samples miss.",
  [EX, RQ], [("_margin_order", EX), ("_close_position / _open_position", EX), ("PriceLimit::compare / SlippageLimit::compare", RQ)])
p("C11", "Requests run at most once, only inside their window, and only if valid",
  "A request is executed at most once, only after its submission time and before its expiry, only while active and not before the account's first valid request; an expired one is only ever marked expired, without any other effect. Finished requests (executed, cancelled, expired) never change state again, and new requests get consecutive indexes with submission = now + delay and expiry = submission + lifetime.",
  ["inputs","histories"], "All request states, indexes, clock values, delays, lifetimes and sequences of processing and cancelling.",
  TESTS + "It is a temporal property over every clock value and request status.",
  [VA, ACC, EX], [("process_request", VA), ("push_request", VA), ("cancel_requests", VA), ("update", ACC)],
  [("status / submission / expiry / valid_requests_start", "life cycle of keeper requests", ACC+" structs")])
p("C12", "Linked take-profit and stop-loss orders activate and cancel each other",
  "Executing an order activates exactly its listed dormant requests and cancels exactly its listed active or dormant requests, and touches no other request; nothing finished is revived. A combined order creates dormant reduce-only orders of the opposite size whose price limits trigger on the right side for long and short, activated by the parent and each cancelling the other.",
  ["inputs","histories"], "All statuses of the listed requests, all index references (absolute and relative), both sides, and every combination of take-profit and stop-loss.",
  TESTS + "Index arithmetic and status transitions across several requests are history-dependent.",
  [VA, EX, RQ], [("try_set_keeper_requests_status", VA), ("margin_order_tp_sl_request", EX), ("RequestIndexRef::resolve", RQ)])
p("C13", "Account actions need the account's own authorisation at the right level",
  "Changing authorisation rules or creating a recovery key needs the account's level-1 rule, requesting a withdrawal level 2, and placing or cancelling orders or adding collateral with delegated fees level 3; a caller who satisfies only another level or another account's rule is rejected with no effect.",
  ["inputs","configurations"], "All combinations of rules per level and of badges presented by the caller, for every account operation.",
  TESTS + "The absence of an unauthorised path has to be shown for every operation and every set of badges.",
  [EX, VA], [("verify_level_1_auth / verify_level_2_auth / verify_level_3_auth", VA), ("user methods", EX)])
p("C14", "Internal component state changes only through the exchange's authority",
  "No caller without the authority badge (or the respective owner/admin badge where one is defined) can change pool, account, configuration, oracle prices, permission registry, fee balances, referral codes or wrapper settings, nor create accounts, nor withdraw tokens from any of them. Every exchange entry point is limited to its declared role, and owner/admin operations are refused to ordinary users.",
  ["inputs","configurations"], "Every externally callable mutating method of every component, for every set of badges a caller may present.",
  TESTS + "It quantifies over all methods and all callers; tests call as the owner.",
  [EX, ACC, POOL, CFG, ORA, PR, FDI, FDE, REF, TW, "env_registry/src/env_registry.rs", "faucet/src/lib.rs"],
  [("enable_method_auth / enable_function_auth tables", "all blueprints"), ("roles! at instantiation", "all blueprints")])
p("C15", "The permission registry mirrors the accounts' actual access rules",
  "After account creation and after every change of an account's rules, the registry lists the account at a level under exactly the rule currently set for that level and each alternative of an any-of rule, and no longer under the previous rule and its alternatives, while other accounts' entries stay as they were. The rule enforced on the account is the one requested (or the previous rule or-ed with the added one).",
  ["inputs","histories","configurations"], "All old and new rules (single, any-of, overlapping alternatives), all three levels, other accounts sharing rules.",
  TESTS + "Overlap between the old and new rules' alternatives and rules shared with other accounts are not sampled.",
  [EX, VA, PR], [("_set_level_1_auth / _set_level_2_auth / _set_level_3_auth", EX), ("create_account / create_recovery_key / add_auth_rule", EX), ("set_permissions", PR)])
p("C16", "Oracle prices come only from signed data and never go back in time",
  "A pushed price list is accepted only with a valid signature by the registered key it names over exactly that data; each pair then holds the newest timestamped quote seen, and a price with an equal or older timestamp never replaces a stored one. Prices of other pairs are unaffected, and queries return exactly the stored quotes for exactly the requested pairs.",
  ["inputs","histories"], "All price lists (including repeated pairs), timestamps, keys, signatures and stored prices.",
  TESTS + "Ordering of timestamps within and across lists and invalid key/signature combinations are not covered.",
  [ORA], [("_push_and_get_prices", ORA), ("add_key / remove_key / remove_price", ORA)])
p("C17", "Trades, withdrawals and liquidations never use stale or bad prices",
  "Every price used to process a request, swap debt, liquidate, deleverage or update a pair is positive and strictly younger than the maximum age configured for that pair, and for a collateral's feed the stricter of the pair's and the collateral's maximum age; otherwise the operation is rejected. Each pair and each collateral is valued with its own feed.",
  ["inputs","configurations"], "All timestamps, clock values, maximum ages, prices, and shared feeds between pairs and collaterals.",
  TESTS + "Freshness is a strict inequality per feed; samples use fresh prices.",
  [VO, EX, VC], [("VirtualOracle::new", VO), ("_pair_feeds / collateral_feeds", EX+", "+VC)])
p("C18", "Liquidity providers enter and leave at fair value",
  "Adding liquidity mints the paid amount net of the fee divided by the pre-deposit LP price, removing pays the burned share of the pool value net of the fee, and neither lowers the value per LP token of the remaining providers beyond rounding. While LP tokens are outstanding, adding and immediately removing never returns more than was paid in; the first provider receives one LP token per unit.",
  ["inputs","histories","configurations"], "All pool values (including negative components), LP supplies, amounts, fees and orders of operations.",
  TESTS + "Fairness must hold for all pool states, including unrealised loss larger than the deposit.",
  [EX], [("_add_liquidity / _remove_liquidity", EX), ("_pool_value", EX)])
p("C19", "Debt swaps never overpay, over-withdraw or overshoot the debt",
  "Swapping debt is possible only while the account's balance is negative; it credits the account exactly what is paid into the pool, never more than its debt, and hands out at most the collateral this buys at the discounted price and at most what the account holds. The caller gets the unused payment back.",
  ["inputs","configurations"], "All debts, payments, collateral amounts, prices and discounts.",
  TESTS + "Capping by debt, payment and available collateral creates branches with rounding in both directions.",
  [EX], [("_swap_debt", EX), ("withdraw_collateral_batch", VA)])
p("C20", "Collateral is kept per account and leaves only to its named target",
  "Tokens deposited as collateral are credited in full to that account (base tokens to its balance), recorded balances always equal the tokens held, and a processed withdrawal takes exactly the claimed amounts, rounded down to the token's precision, from that account and deposits them into the target named in the request and nowhere else. Withdrawing more than is held is rejected, and only configured collaterals are accepted.",
  ["inputs","histories"], "All token kinds including several of the same kind, amounts, divisibilities, repeated claims and account states.",
  TESTS + "Repeated resources, base tokens mixed with collateral and rounding are not sampled.",
  [EX, ACC, VA, "common/src/vaults.rs"], [("_add_collateral / _remove_collateral", EX), ("deposit_collateral_batch / withdraw_collateral_batch", ACC), ("Vaults", "common/src/vaults.rs")])
p("C21", "Referral codes are fully funded, unique and claimable a limited number of times",
  "Every code or allocation is backed by tokens covering all its claims, a code can be claimed at most its allowed number of times and each claim pays exactly its listed tokens, codes are never overwritten, and an allocation never yields more codes than it was created with. The number of referrals granted to a referrer never exceeds the limit, and unused tokens are returned in full.",
  ["inputs","histories"], "All claims, counts, token bundles (including repeated resources), hashes and sequences of creation and claiming.",
  TESTS + "Backing must hold for arbitrary combinations and histories.",
  [REF, EX], [("add_allocation / create_referral_codes / create_referral_codes_from_allocation / claim_referral_code", REF), ("referral limits", EX)])
p("C22", "Wrapped base tokens stay fully backed and flash loans are repaid",
  "Base tokens are minted by wrapping only against an equal deposit of an accepted token, and unwrapping burns base tokens and nothing else for at most as many child tokens, so the base supply never exceeds the wrapped deposits. A flash loan can only be closed by burning at least the borrowed amount together with the matching oath, and only the excess is returned.",
  ["inputs","histories"], "All amounts, token kinds offered, child tokens and divisibilities.",
  TESTS + "Nothing tests the wrapper; wrong-token and rounding inputs decide the property.",
  [TW], [("wrap / unwrap", TW), ("flash_loan / repay_flash_loan", TW)])
p("C23", "Stored configuration equals the accepted configuration up to rounding",
  "Every accepted exchange, pair or collateral configuration lies within its documented bounds and is returned field by field with the same value up to the relative precision of the compact format (never larger in magnitude, exact for three significant digits), integers and durations exactly. What is stored still satisfies the documented bounds, and no other pair or collateral changes.",
  ["inputs","configurations"], "All field values within and outside the bounds, all pairs and collaterals already stored.",
  "The existing loop enumerates only values the format represents exactly; truncation, wrap-around of durations and mixed-up fields need all values.",
  ["common/src/d_float.rs", CFG, CFGS], [("DFloat16 From<Decimal> / Into<Decimal>", "common/src/d_float.rs"), ("validate / compress / decompress", CFGS), ("HashList", "common/src/hash_list.rs")])
p("C24", "Delegated network fees are always charged to the account that used them",
  "Locking a delegated fee issues an oath worth the locked amount at the configured price, limited in total by the maximum, and increases the delegator's claim by exactly that value. The oath can only be burned by the exchange against an account, which is charged exactly its value and must remain sufficiently margined; no other token is accepted as an oath.",
  ["inputs","histories"], "All amounts, multipliers, limits, tokens presented and account states, for every operation that accepts an oath.",
  TESTS + "Each operation has its own oath path; skipping the charge on one is invisible elsewhere.",
  [FDE, EX], [("lock_fee", FDE), ("_settle_fee_oath", EX), ("oath handling in the user methods", EX)])
p("C25", "Keepers are rewarded exactly for work that was done",
  "Processing a request, liquidating and auto-deleveraging mint exactly the configured keeper reward once and only if they succeed. Updating pairs rewards exactly those distinct pairs whose price moved by at least the threshold ratio or whose last update is at least the reward period old, and updating again at once earns nothing.",
  ["inputs","histories","configurations"], "All pairs lists (including repeats), price moves, elapsed times, thresholds and rewards.",
  TESTS + "Reward thresholds are boundary conditions over time and price.",
  [EX], [("process_request / liquidate / auto_deleverage / update_pairs", EX), ("_update_pair", EX)])
p("C26", "List, keyed-list and vault containers behave like their abstract models",
  "The append-only list, the insertion-ordered map and the multi-token vault used to store requests, configurations and collateral return exactly what was last stored for every key or index, keep order and length, reject out-of-range updates, and never lose or duplicate an item or a token.",
  ["inputs","histories"], "All sequences of operations up to the stated length with arbitrary keys, indexes and amounts.",
  "No test exercises these containers at all, and defects depend on operation order and repeated keys.",
  ["common/src/list.rs","common/src/hash_list.rs","common/src/vaults.rs"], [("List", "common/src/list.rs"), ("HashList", "common/src/hash_list.rs"), ("Vaults", "common/src/vaults.rs")])
p("C27", "Fee, treasury and referral collections pay exactly what was accrued, once",
  "Collecting the protocol fees (against the required token burn), treasury, delegated-fee or referral balance pays out exactly the recorded balance, resets it to zero, leaves all other balances untouched, and fails if the pool cannot pay. A second collection without new accruals pays nothing.",
  ["inputs","histories"], "All balances, pool token amounts and payments.",
  TESTS + "Order of reset and payout and the equality of the amounts must hold for all balances.",
  [EX, FDI, FDE], [("collect_treasury / collect_fee_delegator / swap_protocol_fee / collect_referral_rewards", EX), ("update_*_virtual_balance", FDI)])
p("C28", "Reported account, pool and pair details match the stored state",
  "The public detail queries report exactly the stored positions, balances, collaterals, requests and pool totals, with positions valued and with margins (size times the pair's ratio), funding, LP price and skew ratio computed by the same rules the exchange enforces, and they never change any state. Paged queries return each stored entry at most once, in order, and only within the requested window.",
  ["inputs","histories"], "All account, pool and configuration states and all page sizes and starts.",
  TESTS + "Paging boundaries and derived values over all states are not sampled.",
  [EX, ACC, CFG], [("_account_details / _pool_details / _pair_details", EX), ("get_requests / get_requests_tail", ACC), ("get_pair_configs", CFG)])

p("C29", "The environment registry reports exactly what its owner last stored",
  "Asking the environment registry for variables reports exactly the asked keys, each with the value its owner stored last, or empty if it was never set or has been removed; within one call the last entry for a key counts. Only the owner changes variables, reading changes nothing, and another registry is never affected.",
  ["inputs","histories"], "All sequences of setting and removing up to the stated length, with repeated keys, for the owner and for others.",
  "No test exercises the registry; repeated keys and removed entries decide the property.",
  ["env_registry/src/env_registry.rs"], [("set_variables / remove_variables / get_variables", "env_registry/src/env_registry.rs")])
p("C30", "The test-token faucet hands out exactly the configured amounts",
  "Drawing free tokens gives exactly the configured amount of every token whose amount is positive and creates nothing else. Only the owner changes the amounts, mints on request (only the faucet's own tokens and exactly the asked amount) and decides who may draw or mint; nobody mints past the faucet, and there is a single owner token.",
  ["inputs","histories"], "All amounts including zero and negative, all tokens, callers and repeated draws.",
  "No test exercises the faucet; non-positive amounts and repeated changes are not sampled.",
  ["faucet/src/lib.rs"], [("free_tokens / update_mint_amount / admin_mint_token", "faucet/src/lib.rs")])
p("C31", "Events report exactly what an operation changed",
  "Every successful operation emits its own event exactly once, and the event names the affected account and pair and carries the amounts, prices, P&L, funding and fees that were actually executed, credited or distributed. Every pair and every request whose stored state changed is reported once with its stored content, and so is a moved start of the valid requests. An observer who only follows the events therefore knows the stored positions of pairs and the requests of accounts.",
  ["inputs","histories","configurations"], "Every operation of the exchange, for all amounts, prices, states, request links and configurations.",
  TESTS + "Events are assembled by hand next to each operation; a swapped or stale field never disturbs the state that tests look at.",
  [EX, VA, VP, "exchange/src/exchange/events.rs"], [("event structures", "exchange/src/exchange/events.rs"), ("realize", VA), ("realize", VP), ("emit_event at the end of each operation", EX)],
  None, ["emitted events of each transaction"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
