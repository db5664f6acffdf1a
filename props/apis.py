"""The functions under contract and how their arguments are built."""
from mirv.spec import api
from mirv import solana, terms as T

C = "token_bonding_curve::curve::"
CALC = C + "calculator::CurveCalculator"
CURVES = {
    "cp": ("constant_price::ConstantPriceCurve", ["token_b_price"]),
    "xyk": ("constant_product::ConstantProductCurve", []),
    "off": ("offset::OffsetCurve", ["token_b_offset"]),
    "stb": ("stable::StableCurve", ["amp"]),
    "lin": ("linear_price::LinearPriceCurve", ["slope_numerator", "slope_denominator", "initial_token_a_price_numerator", "initial_token_a_price_denominator"]),
}
METHODS = {
    "swap": "swap_without_fees",
    "supply": "new_pool_supply",
    "p2t": "pool_tokens_to_trading_tokens",
    "dep1": "deposit_single_token_type",
    "wd1": "withdraw_single_token_type_exact_out",
    "validate": "validate",
    "vsupply": "validate_supply",
    "allows": "allows_deposits",
    "norm": "normalized_value",
}


def _mk(fields):
    n = len(fields)
    return lambda *a: [dict(zip(fields, a[:n]))] + list(a[n:])


for k, (path, fields) in CURVES.items():
    for m, fn in METHODS.items():
        full = f"<{C}{path} as {CALC}>::{fn}"

        api(f"{k}.{m}", full, _mk(fields))

FEES = ["trade_fee_numerator", "trade_fee_denominator", "owner_trade_fee_numerator", "owner_trade_fee_denominator", "owner_withdraw_fee_numerator", "owner_withdraw_fee_denominator", "host_fee_numerator", "host_fee_denominator"]
for k, fn in {"trade": "trading_fee", "owner": "owner_trading_fee", "wd": "owner_withdraw_fee", "host": "host_fee", "validate": "validate"}.items():
    api(f"fees.{k}", C + "fees::Fees::" + fn, _mk(FEES))

DFS = "token_bonding_curve::dfs_precise_number::DFSPreciseNumber::"
num = lambda v: dict(value=v)
api("dfs.new", DFS + "new")
for k, fn in {"imp": "to_imprecise", "floor": "floor", "ceil": "ceiling"}.items():
    api(f"dfs.{k}", DFS + fn, lambda a: [num(a)])
for k, fn in {"add": "checked_add", "sub": "checked_sub", "mul": "checked_mul", "div": "checked_div", "usub": "unsigned_sub", "lt": "less_than", "le": "less_than_or_equal", "gt": "greater_than", "ge": "greater_than_or_equal"}.items():
    api(f"dfs.{k}", DFS + fn, lambda a, b: [num(a), num(b)])
LINC = C + "linear_price::LinearPriceCurve"
LINF = CURVES["lin"][1]
# private functions of the linear price curve: anchored by name, or by place and type
LINSWAP = f"<{LINC} as {C}calculator::CurveCalculator>::swap_without_fees"
LINREF, NUMREF = "&curve::linear_price::LinearPriceCurve", "&dfs_precise_number::DFSPreciseNumber"
api("lin.bval", LINC + "::b_value_with_amt_a_locked_quadratic", lambda sn, sd, an, ad, a, up: [dict(zip(LINF, (sn, sd, an, ad))), dict(value=T.mul(a, 10**18)), up], alt=(LINSWAP, (LINREF, NUMREF, "bool")))
api("lin.amt", LINC + "::amt_a_locked_at_b_value_quadratic", lambda sn, sd, an, ad, b: [dict(zip(LINF, (sn, sd, an, ad))), dict(value=b)], alt=(LINSWAP, (LINREF, NUMREF)))
api("dfs.sqrt", DFS + "sqrt_u64", lambda a, up: [num(a), up])


def curve_val(kind, params):
    if kind == "mock":
        return ("dyn", "$mock", params[0])
    path, fields = CURVES[kind]
    return ("dyn", path.split("::")[-1], dict(zip(fields, params)))


def _sc(kind, *a):
    np = len(CURVES[kind][1])
    params, rest = a[:np], a[np:]
    fees, rest = rest[:8], rest[8:]
    # the type tag is not consulted by these calculations
    return [dict(curve_type="ConstantPrice", calculator=curve_val(kind, params))] + list(rest) + [dict(zip(FEES, fees))]


for k, fn in {"swap": "swap", "dep1": "deposit_single_token_type", "wd1": "withdraw_single_token_type_exact_out"}.items():
    api(f"sc.{k}", C + "base::SwapCurve::" + fn, _sc)


# the same over a curve about which nothing is known but one answer
def _scm(method, answer):
    def build(resp, *a):
        n = len(a) - 8 - answer
        val = a[:answer]
        if resp == "None":
            r = None
        elif method == "swap_without_fees":
            r = ("some", dict(source_amount_swapped=val[0], destination_amount_swapped=val[1]))
        else:
            r = ("some", val[0])
        fees, rest = a[answer : answer + 8], a[answer + 8 :]
        return [dict(curve_type="ConstantPrice", calculator=("dyn", "$mock", {method: r}))] + list(rest) + [dict(zip(FEES, fees))]

    return build


def _calls(I, st, args, r):
    return dict(ret=r, calls=st.ghost.get("calls", ()))


api("scm.swap", C + "base::SwapCurve::swap", _scm("swap_without_fees", 2), _calls)
api("scm.dep1", C + "base::SwapCurve::deposit_single_token_type", _scm("deposit_single_token_type", 1), _calls)
api("scm.wd1", C + "base::SwapCurve::withdraw_single_token_type_exact_out", _scm("withdraw_single_token_type_exact_out", 1), _calls)

CON = "token_bonding_curve::constraints::SwapConstraints::<'_>::"
CTYPES = ["ConstantProduct", "ConstantPrice", "Stable", "Offset", "LinearPrice"]
ZERO_FEES = {f: 0 for f in FEES}


def _concurve(t, allowed):
    l = [] if allowed == "-" else allowed.split(",")
    return [dict(owner_key=("str", ""), valid_curve_types=("slice", l), fees=ZERO_FEES), dict(curve_type=t, calculator=("dyn", "$mock", {}))]


api("con.curve", CON + "validate_curve", _concurve)
api("con.fees", CON + "validate_fees", lambda *a: [dict(owner_key=("str", ""), valid_curve_types=("slice", ["ConstantPrice"]), fees=dict(zip(FEES, a[:8]))), dict(zip(FEES, a[8:]))])
# the integer square root is private: anchored by name, or by its place and type
api("dfs.isqrt", DFS + "sqrt_babylonian", alt=(DFS + "sqrt_u64", ("u64", "bool")))

# the stable curve's approximations, private as well
_stb = lambda m: f"<{C}stable::StableCurve as {CALC}>::{m}"
api("stb.d", C + "stable::compute_d", alt=(_stb("deposit_single_token_type"), ("u64", "u128", "u128")))
api("stb.y", C + "stable::compute_new_destination_amount", alt=(_stb("swap_without_fees"), ("u64", "u128", "u128"), "stb.d"))

# -------------------------------------------------------------- pool state
ST = "token_bonding_curve::state::"
KEYS = ["token_program_id", "token_a", "token_b", "pool_mint", "token_a_mint", "token_b_mint", "pool_fee_account"]
KIND_TYPE = {"xyk": "ConstantProduct", "cp": "ConstantPrice", "stb": "Stable", "off": "Offset", "lin": "LinearPrice"}
KIND_TAG = {"xyk": 0, "cp": 1, "stb": 2, "off": 3, "lin": 30}
KIND_ADT = {k: v[0].split("::")[-1] for k, v in CURVES.items()}
LEN = 324


def state_val(init, bump, *a):
    """SwapV1 from: initialised, bump, 7 keys, 8 fees, curve kind, parameters"""
    keys, f, kind, par = a[:7], a[7:15], a[15], a[16:]
    d = dict(is_initialized=init, bump_seed=bump, fees=dict(zip(FEES, f)), swap_curve=dict(curve_type=KIND_TYPE[kind], calculator=curve_val(kind, par)))
    d.update(zip(KEYS, keys))
    return d


def _pack(*a):
    # last argument: what the buffer held before
    return [("SwapV1", state_val(*a[:-1])), ("bytes", buf(a[-1], LEN), LEN)]


def buf(v, n):
    from mirv.interp import Rope

    return v if isinstance(v, Rope) else Rope([(n, v)] if n else [])


def _packed(I, st, args, r):
    return dict(ret=r, buf=I.getmem(st, args[1].a))


api("st.pack", ST + "SwapVersion::pack", _pack, _packed)


def _bytes(n):
    """n bytes"""
    return lambda *a: [("bytes", buf(a[0], n), n)]


api("st.unpack", ST + "SwapVersion::unpack", lambda b: [("bytes", b, LEN if b.n() == LEN else None)])
GETTERS = ["is_initialized", "bump_seed", "token_program_id", "token_a_account", "token_b_account", "pool_mint", "token_a_mint", "token_b_mint", "pool_fee_account", "fees", "swap_curve"]
for g in GETTERS:
    api(f"st.get.{g}", f"<{ST}SwapV1 as {ST}SwapState>::{g}", lambda *a: [state_val(*a)])


def _raw(segs, length):
    from mirv.interp import Rope

    return [("bytes", Rope(segs), length)]


# SwapVersion::unpack / is_initialized on any bytes: the 324-byte case field by
# field, every other length with its first byte
W324 = [1, 1, 1] + [32] * 7 + [8] * 8 + [1] + [8] * 4


def _any(case, *a):
    if case == "exact":
        return _raw(list(zip(W324, a)), LEN)
    if case == "empty":
        return _raw([], 0)
    return _raw([(1, a[0])], a[1])


api("st.decode", ST + "SwapVersion::unpack", _any)
api("st.isinit", ST + "SwapVersion::is_initialized", _any)
