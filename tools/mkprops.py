"""writes properties.jsonl"""
import json, os
R = "programs/token-bonding-curve/src/"
def P(id, title, statement, over, text, why, files, mech, observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[R + f for f in files], mechanism=[dict(name=n, where=R + w) for n, w in mech], observe_at=list(observe), hook_needed=None))
props = [
P("P01", "Fixed-point arithmetic is exact to its documented rounding and overflow rules",
  "Every operation of the 18-decimal fixed-point number returns exactly the mathematically rounded result: conversion from an integer, addition, subtraction and the comparisons are exact; floor and ceiling go to the neighbouring whole number; multiplication and conversion to an integer round to nearest; division is the quotient of the dividend plus half a unit. Where the exact intermediate product does not fit 256 bits, multiplication and division fall back to the documented coarser scaling. An operation fails (never wraps, never panics) exactly when its result or intermediate does not fit 256 bits, a subtraction would go below zero, a divisor is zero, or a converted value exceeds 128 bits.",
  ["inputs"], "all pairs of 256-bit fixed-point values, all 128-bit integers",
  "Unit tests check a dozen hand-picked values; the domain is 2^512 pairs and errors live at carry, halfway and overflow boundaries.",
  ["dfs_precise_number.rs"], [("DFSPreciseNumber arithmetic", "dfs_precise_number.rs")], ["results of the fixed-point operations"]),
P("P02", "Fixed-point square root is directed: never above the root down, never below it up",
  "The fixed-point square root always returns a value and never panics; rounding down it is never above the true square root, rounding up it is never below it. In both directions it is within one part in 2^31 of the true root plus one last decimal place, so it keeps nine significant digits at any magnitude.",
  ["inputs"], "every 256-bit fixed-point value and both rounding directions",
  "Tests take about ten values and compare to 9 digits with a symmetric tolerance, so they cannot see the direction of the error, nor a panic on a value whose leading bits are all ones.",
  ["dfs_precise_number.rs"], [("sqrt_u64 and its integer Newton iteration", "dfs_precise_number.rs")], ["result of the square root"]),
P("P03", "Linear price curve: buying and selling back never makes a profit",
  "On a linear price curve, whoever buys bonded tokens, in one purchase or in any number of consecutive ones, and then sells part or all of what was received back into the same pool never gets back more collateral than was paid, also when a purchase exhausts the remaining supply. This holds for every start price, every amount of collateral already locked, every remaining supply and every payment, on curves with a slope of at least 10^-17 for as long as the price does not exceed 10^17. (On the flattest curves accepted, with slopes between 10^-18 and 10^-17, a round trip is known to gain single units of collateral; that is a recorded finding.)",
  ["inputs", "histories"], "all 64-bit curve parameters with slope at least 10^-17, all 64-bit reserves and payments at prices up to 10^17; histories of any number of purchases followed by a sale",
  "Tests sample a few parameter sets; a rounding error in the user's favour appears only at particular fractional parts of fixed-point square roots.",
  ["curve/linear_price.rs", "dfs_precise_number.rs"], [("rounding directions of the quadratic solution and of the integral", "curve/linear_price.rs")], ["amounts returned by the swap calculation"]),
P("P04", "Linear price trades never take more than offered; sales never pay more than the pool holds",
  "On the linear price curve a calculated trade never takes more than was offered, and takes all of it unless it pays out exactly the whole destination reserve. A sale never pays out more collateral than the pool holds. A trade that would take nothing or pay nothing is refused, never executed.",
  ["inputs"], "all curve parameters, reserves and amounts that fit 64 bits, both directions",
  "Tests use a handful of parameter sets; the violating inputs sit at the supply limit and at rounding boundaries.",
  ["curve/linear_price.rs"], [("swap_a_to_b / swap_b_to_a", "curve/linear_price.rs")], ["amounts returned by the swap calculation"]),
P("P05", "Depositing and withdrawing again never gains anything",
  "Whoever deposits into a pool and then withdraws against at most the pool tokens received never gets more than was put in. On the constant-product and stable curves this holds for each token of a two-sided deposit and withdrawal; on the constant-price curve it holds for the value at the curve's price, for every combination of one-sided and two-sided deposits and withdrawals, whichever tokens are put in and taken out and whatever the fees.",
  ["inputs", "histories"], "all 64-bit prices, reserves, supplies and amounts; deposit-then-withdrawal histories, whole and partial",
  "Gains of single units come from rounding at particular remainders of two nested divisions; tests compare a few numeric examples.",
  ["curve/constant_product.rs", "curve/constant_price.rs", "curve/calculator.rs", "curve/stable.rs"], [("pool_tokens_to_trading_tokens rounding", "curve/constant_product.rs"), ("conversions of the value", "curve/constant_price.rs")], ["amounts returned by the conversions"]),
P("P06", "Deposits and withdrawals never lower the value behind the others' pool tokens",
  "A deposit or a withdrawal never lowers what stands behind one pool token. On the constant-product and stable curves each reserve per pool token does not fall; on the constant-price curve the curve's own normalised value per pool token does not fall by two-sided operations (also when a payout is capped by the reserve), nor the total value per pool token by one-sided ones, whatever the fees. Deposits that would take nothing on one side are excluded (the operation refuses them).",
  ["inputs", "histories"], "all 64-bit prices, reserves, supplies and amounts; by induction every history of deposits and withdrawals of one kind",
  "The repository's property tests sample small ranges; a rounding in the wrong direction shows only for particular remainders.",
  ["curve/constant_product.rs", "curve/constant_price.rs", "curve/calculator.rs", "curve/stable.rs"], [("pool_tokens_to_trading_tokens rounding", "curve/constant_product.rs"), ("normalized_value, conversions of the value", "curve/constant_price.rs")], ["amounts returned by the conversions"]),
P("P07", "Linear price curve accepts only usable parameters and stays swap-only",
  "A linear price curve is accepted exactly if slope numerator, slope denominator and start-price denominator are non-zero and the slope is at least the smallest representable fixed-point value (10^-18). It must start with bonded tokens and no collateral; deposits are refused, and conversions between pool tokens and traded tokens yield nothing.",
  ["inputs", "configurations"], "all 64-bit parameter quadruples and initial amounts",
  "Tests check three or four parameter sets out of 2^256, none at the rounding threshold of the minimum slope.",
  ["curve/linear_price.rs"], [("is_curve_param_valid, validate_supply, allows_deposits", "curve/linear_price.rs")], ["acceptance of a new pool"]),
P("P08", "Constant price curve charges and pays exactly the fixed price",
  "On a constant-price curve a purchase takes exactly price times the whole number of tokens bought, never more than offered and leaving less than one price of the offer; a sale pays exactly price times the amount sold. A trade fails only if nothing would be bought or the amounts overflow, the price must be positive, and buying then selling back never profits.",
  ["inputs", "histories"], "all 64-bit prices, all 128-bit amounts and reserves, both directions; buy-then-sell histories",
  "Property tests in the repository sample small ranges; price and amounts at the ends of the range and exact multiples are never hit.",
  ["curve/constant_price.rs"], [("swap_without_fees, validate", "curve/constant_price.rs")], ["amounts returned by the swap calculation"]),
P("P09", "Constant product and offset curves never lose invariant and are maximally generous",
  "With non-empty reserves, a trade on the constant-product curve never lowers the product of the reserves (for the offset curve, of the first reserve and the offset second reserve), never takes more than offered, never empties the paying reserve, and pays the largest amount with these properties while taking no more than that amount costs. A trade fails only if nothing would be paid out or the amounts overflow; an offset of zero and unfunded pools are refused, and the offset curve refuses deposits.",
  ["inputs"], "all 128-bit amounts and reserves, all 64-bit offsets, both directions",
  "Tests sample a few reserves; off-by-one rounding errors need particular remainders of the division of the invariant.",
  ["curve/constant_product.rs", "curve/offset.rs"], [("swap with ceiling division", "curve/constant_product.rs"), ("offset added to the token B side", "curve/offset.rs")], ["amounts returned by the swap calculation"]),
P("P10", "Pool-token conversion is pro rata and rounded in the pool's favour",
  "Converting pool tokens into the two traded tokens gives each side its exact pro rata share of the reserve (offset reserve for the offset curve; for the constant-price curve half of the pool's value, itself rounded down, on each side), rounded down for withdrawals and, unless the share is below one unit, up for deposits. A withdrawal of at most the whole supply never exceeds the reserves, and the conversion fails only for an empty pool, a zero price, or overflow.",
  ["inputs"], "all 128-bit amounts, supplies and reserves, both rounding directions, every curve that supports deposits",
  "Tests pin one or two numeric examples per curve.",
  ["curve/calculator.rs", "curve/constant_product.rs", "curve/constant_price.rs", "curve/offset.rs", "curve/stable.rs"], [("pool_tokens_to_trading_tokens", "curve/constant_product.rs"), ("pool_tokens_to_trading_tokens of the value", "curve/constant_price.rs")], ["amounts returned by the conversion"]),
P("P11", "Constant price curve: single-sided deposits and withdrawals are fair to the pool",
  "On a constant-price curve a single-sided deposit mints exactly the deposited value's share of the pool value, rounded down, and a single-sided withdrawal burns that share rounded up. The calculation fails, and never panics, only for an empty pool, a withdrawal worth less than one pool token, or overflow.",
  ["inputs"], "all 64-bit prices, all 128-bit amounts, reserves and supplies, both sides",
  "Tests sample moderate sizes; the rounding direction and the behaviour on overflow are not observable there.",
  ["curve/constant_price.rs"], [("trading_tokens_to_pool_tokens", "curve/constant_price.rs")], ["pool-token amounts returned"]),
P("P12", "Fees are the configured fraction, rounded down but at least one unit",
  "Each of the four fees (trade, owner trade, owner withdraw, host) is the amount times its fraction rounded down, but at least one unit when both rate and amount are non-zero, and nothing when either is zero; it uses its own fraction and no other. Fee settings are accepted exactly when every fraction is below one or entirely zero, and under accepted settings a fee never exceeds the amount it is taken from.",
  ["inputs", "configurations"], "all eight 64-bit fee parameters, all 128-bit amounts",
  "Tests try a few fee settings; minimum-fee and fraction-mix-up errors need particular combinations.",
  ["curve/fees.rs"], [("calculate_fee and its four wrappers, validate", "curve/fees.rs")], ["fees charged"]),
P("P13", "A swap accounts for every unit: reserves, amounts and fees add up",
  "Whatever the curve, a swap deducts the trade fee and the owner fee from the offered amount before the curve sees it, and reports as taken exactly what the curve took plus both fees; the new source reserve is the old one plus that amount and the new destination reserve the old one minus what the curve paid. The result fails if the curve refuses, if the fees exceed the offer, or if a reserve would overflow or go below zero.",
  ["inputs", "configurations"], "all fee settings, amounts and reserves, any curve",
  "Tests look at one curve at a time with fixed fees; the bookkeeping identity must hold for every curve result.",
  ["curve/base.rs"], [("SwapCurve::swap", "curve/base.rs")], ["swap result"]),
P("P14", "Single-sided deposits and withdrawals pay the trade fee on half the amount",
  "A single-sided deposit or withdrawal is charged the trade fee of half the amount (but of at least one unit): a deposit converts into pool tokens only what the fee leaves of the amount, a withdrawal costs the pool tokens for the amount and for the fee on top. An amount of zero converts to zero without consulting the curve. The conversion fails whenever the fee or the curve's conversion fails, and cannot be used to swap fee-free.",
  ["inputs", "configurations"], "all fee settings, amounts, reserves and supplies, any curve, both directions",
  "Tests compare with a swap for a few parameter choices within a tolerance.",
  ["curve/base.rs"], [("SwapCurve::deposit_single_token_type, withdraw_single_token_type_exact_out", "curve/base.rs")], ["pool-token amounts"]),
P("P15", "Deployment constraints admit exactly the allowed curves and no cheaper fees",
  "Under deployment constraints a curve is accepted exactly if its type is listed. Fees are accepted exactly if trade and owner-trade fractions are no smaller than prescribed numerators over exactly the prescribed denominators, the withdraw fraction likewise, and the host fraction is exactly the prescribed one.",
  ["inputs", "configurations"], "all fee settings, all constraint fee settings, every curve type",
  "Tests check one valid and a few invalid settings.",
  ["constraints.rs"], [("SwapConstraints::validate_curve, validate_fees", "constraints.rs")], ["acceptance of a new pool"]),
P("P16", "Pool state survives storage unchanged",
  "Writing a pool's state and reading it back yields the same state: nonce, all seven account addresses, all fees, curve type and curve parameters, for every curve. The layout is fixed and has a version byte in front, and no two different states have the same encoding.",
  ["inputs", "configurations"], "all states: every byte of every key, all 64-bit parameters, every curve type",
  "Tests round-trip a few fixed states; a swapped or overlapping field with equal test values passes.",
  ["state.rs", "curve/base.rs", "curve/fees.rs", "curve/linear_price.rs", "curve/constant_price.rs", "curve/offset.rs", "curve/stable.rs"], [("Pack implementations", "state.rs"), ("SwapCurve pack", "curve/base.rs")], ["account data"]),
P("P17", "Malformed or uninitialised pool data is rejected, not misread",
  "Decoding pool data never panics. Stored data is accepted as an initialised pool exactly if it has the exact length, version byte 1, an initialised flag of exactly 1 and a known curve type; then every field is the one stored in its place and the calculator is of the stored type. Everything else, including data with any other flag byte, is rejected.",
  ["inputs"], "all byte strings of every length",
  "Tests try a couple of malformed buffers.",
  ["state.rs", "curve/base.rs"], [("SwapVersion::unpack, is_initialized", "state.rs"), ("curve type conversion", "curve/base.rs")], ["account data"]),
P("P18", "A pool is created only from a sound, unused set of accounts",
  "Initialisation succeeds only if the pool account is new, both reserves and the pool mint belong to the pool's derived authority, the two reserves are different mints, the user's pool-token and fee accounts are not owned by the authority, no delegates or close authorities exist, the pool mint has no supply and no freeze authority, and curve, supply, fees and deployment constraints all validate. It then records exactly the given accounts, fees and curve, and mints the curve's initial pool supply to the given destination.",
  ["inputs", "configurations"], "all account contents, keys, fee settings and curves",
  "The processor's tests are disabled in this repository, so nothing runs this code at all.",
  ["processor.rs"], [("process_initialize", "processor.rs")], ["pool account data", "token program calls"]),
P("P19", "Swaps touch only the pool's own accounts under the pool's authority",
  "A swap is executed only against the reserves, mint, fee account and token program recorded in the pool, with source and destination reserves different, neither being the user's account, and the supplied authority being the pool's derived authority; a host account, if given, must be a pool-token account. Anything else is rejected.",
  ["inputs", "configurations"], "all account sets and pool states",
  "The processor's tests are disabled in this repository, so nothing runs this code at all.",
  ["processor.rs"], [("process_swap, check_accounts", "processor.rs")], ["errors", "token program calls"]),
P("P20", "A swap moves exactly the calculated amounts and honours the minimum output",
  "A successful swap transfers from the user exactly the amount the curve took and pays exactly the amount the curve returned, in the right direction, both measured against the reserves' balances at that moment, and pays at least the requested minimum. Owner fees are minted as pool tokens, as many as a one-sided deposit of the fee would bring, shared with the host only if a host account is given; nothing else is moved.",
  ["inputs", "configurations"], "all amounts, balances, pool states and curve results",
  "The processor's tests are disabled in this repository, so nothing runs this code at all.",
  ["processor.rs"], [("process_swap", "processor.rs")], ["token program calls"]),
P("P21", "Two-sided deposits charge a pro rata share within the depositor's limits",
  "A two-sided deposit is possible only on curves that allow deposits and against the pool's own accounts; it takes from the depositor the curve's (rounded up) share of each reserve for the minted pool tokens, never zero on either side and never above the depositor's limits, and mints exactly the requested pool tokens (the initial supply's worth for an empty pool).",
  ["inputs", "configurations"], "all amounts, limits, balances and pool states",
  "The processor's tests are disabled in this repository, so nothing runs this code at all.",
  ["processor.rs"], [("process_deposit_all_token_types", "processor.rs")], ["token program calls"]),
P("P22", "Two-sided withdrawals pay at most the pro rata share and burn every pool token",
  "A two-sided withdrawal works only against the pool's own accounts, charges the owner withdraw fee on the pool tokens unless they come from the fee account itself, pays the (rounded down) share of each reserve capped by the reserve and no less than the requested minimum, burns exactly the remaining pool tokens from the user's account, and sends the fee to the fee account.",
  ["inputs", "configurations"], "all amounts, minimums, balances and pool states",
  "The processor's tests are disabled in this repository, so nothing runs this code at all.",
  ["processor.rs"], [("process_withdraw_all_token_types", "processor.rs")], ["token program calls"]),
P("P23", "Single-sided deposits take exactly the amount and mint at least the minimum",
  "A single-sided deposit is possible only on curves that allow deposits, against the pool's own accounts, for a token that is one of the two reserves; it takes exactly the stated amount into the matching reserve and mints exactly the calculated pool tokens, which are non-zero and at least the requested minimum.",
  ["inputs", "configurations"], "all amounts, minimums, balances and pool states",
  "The processor's tests are disabled in this repository, so nothing runs this code at all.",
  ["processor.rs"], [("process_deposit_single_token_type_exact_amount_in", "processor.rs")], ["token program calls"]),
P("P24", "Single-sided withdrawals pay exactly the amount and burn at most the maximum",
  "A single-sided withdrawal works only against the pool's own accounts, for a token that is one of the two reserves; it pays exactly the stated amount from the matching reserve, charges the calculated pool tokens plus the owner withdraw fee (unless taken from the fee account itself), never more than the user's maximum, burns the calculated part and sends the fee part to the fee account.",
  ["inputs", "configurations"], "all amounts, maximums, balances and pool states",
  "The processor's tests are disabled in this repository, so nothing runs this code at all.",
  ["processor.rs"], [("process_withdraw_single_token_type_exact_amount_out", "processor.rs")], ["token program calls"]),
P("P25", "Instructions hand their arguments and accounts on unchanged, with required signatures",
  "Every instruction of the program passes its amounts and its accounts to the matching operation in the right roles, requires the signatures that operation depends on, and the linear-price instruction creates a linear curve with all fees zero while the constant-price one creates a constant-price curve with exactly the given fees and price.",
  ["inputs", "configurations"], "all instruction arguments and account lists",
  "Only an on-chain TypeScript test exercises this path, with one account set; it cannot run here.",
  ["lib.rs", "instructions/initialize.rs", "instructions/swap.rs", "instructions/deposit_all_token_types.rs", "instructions/withdraw_all_token_types.rs", "instructions/deposit_single_token_type_exact_amount_in.rs", "instructions/withdraw_single_token_type_exact_amount_out.rs"], [("instruction handlers and account structs", "instructions")], ["arguments reaching the operations"]),
P("P26", "Product and offset curves: one-sided deposits and withdrawals are the fair share of the pool",
  "With twelve decimals of precision: on constant-product and offset curves, depositing s on one side with reserve R (offset included) at supply S mints S*(sqrt(1+s/R)-1) pool tokens, rounded down, and withdrawing s burns S*(1-sqrt(1-s/R)), rounded up; withdrawing the whole reserve burns the whole supply. The calculation never panics and fails only for an empty reserve or for a withdrawal of more than the reserve.",
  ["inputs"], "all 64-bit amounts, reserves, supplies and offsets, both sides",
  "The iterative square root and its rounding are sampled at a few ratios in the tests; the error bound has to hold for all.",
  ["curve/constant_product.rs", "curve/offset.rs", "curve/calculator.rs"], [("deposit_single_token_type, withdraw_single_token_type_exact_out", "curve/constant_product.rs"), ("OffsetCurve conversions", "curve/offset.rs")], ["pool-token amounts returned"]),
P("P27", "Swaps never lower the value behind a pool token",
  "A swap, together with the pool tokens minted for its owner fee, never lowers what stands behind one pool token, whatever the fees: on the constant-price curve the pool's total value at the curve's price per pool token does not fall; on constant-product and offset curves the product of the reserves (offset included) per squared pool-token supply does not fall, to twelve decimals of precision. The pool tokens minted are those a one-sided deposit of the owner fee would bring.",
  ["inputs", "histories"], "all 64-bit prices, offsets, reserves, supplies, amounts and fee settings, both directions; by induction every history of swaps",
  "Dilution by rounding shows only when a pool token is worth far more than the fee; no test mints owner fees at all.",
  ["processor.rs", "curve/base.rs", "curve/fees.rs", "curve/constant_price.rs", "curve/constant_product.rs", "curve/offset.rs"], [("owner fee conversion", "processor.rs process_swap"), ("SwapCurve::swap, deposit_single_token_type", "curve/base.rs")], ["reserves and pool tokens minted"]),
P("P28", "The stable curve never gives away its invariant",
  "A swap on the stable curve takes exactly the amount offered, pays no more than the reserve, and leaves the invariant behind: every whole amount D which the reserves before the swap support (D^3/(4xy) + (L-1)D <= L(x+y), L twice the amplifier) the reserves after it, with one more unit of the token paid out, support as well, whether or not the iterations converged. One-sided deposits mint exactly the growth of the curve's own value (rounded down) for the pool tokens outstanding, one-sided withdrawals burn its loss rounded up, to twelve decimals; nothing is converted into nothing.",
  ["inputs"], "all amplifiers, 64-bit reserves, amounts and supplies, both directions; every number of iterations",
  "The repository compares a few thousand random balanced pools with a model; the approximation's error depends on amplifier and balance, and shows far off balance or in the last unit.",
  ["curve/stable.rs"], [("compute_d, compute_new_destination_amount", "curve/stable.rs"), ("swap_without_fees, one-sided conversions", "curve/stable.rs")], ["amounts returned by the curve"]),
]
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
