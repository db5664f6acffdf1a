"""Specifications of the pure calculations: fees, constant price, constant
product, offset, swap bookkeeping, production constraints."""
from .common import *

# ------------------------------------------------------------------ P08
def cp_swap_post(i, rs):
    r, p, s = rs[0], i.p, i.s
    if i.dir == "AtoB":
        # only whole tokens B are sold, and only what they cost is taken
        if r is None:
            return [("fails only if no whole token is bought", Or(eq(p, 0), lt(s, p)))]
        used, out = r[1]["source_amount_swapped"], r[1]["destination_amount_swapped"]
        return [
            ("price paid is exact", eq(used, mul(out, p))),
            ("takes no more than offered", le(used, s)),
            ("leaves less than one price unused", lt(s, add(used, p))),
            ("something is bought", ge(out, 1)),
        ]
    if r is None:
        return [("fails only for zero or overflow", Or(eq(p, 0), eq(s, 0), gt(mul(s, p), U128)))]
    used, out = r[1]["source_amount_swapped"], r[1]["destination_amount_swapped"]
    return [("pays exactly the price", eq(out, mul(s, p))), ("takes what was offered", eq(used, s)), ("something is paid", ge(out, 1))]


cp_swap = Spec(
    "constant price swap",
    [V("p", 64), V("s", 128), V("a", 128), V("b", 128), DIR],
    [lambda i, rs: ("cp.swap", i.p, i.s, i.a, i.b, i.dir)],
    cp_swap_post,
    cover=[SOME, NONE],
)


def cp_round(i, rs):
    if len(rs) < 2 or not some(rs[1]):
        return []
    return [("buying and selling back never pays out more than was paid", le(rs[1][1]["destination_amount_swapped"], rs[0][1]["source_amount_swapped"]))]


cp_roundtrip = Spec(
    "constant price round trip",
    [V("p", 64), V("s", 128), V("a", 128), V("b", 128)],
    [
        lambda i, rs: ("cp.swap", i.p, i.s, i.a, i.b, "AtoB"),
        lambda i, rs: ("cp.swap", i.p, rs[0][1]["destination_amount_swapped"], i.b, i.a, "BtoA") if some(rs[0]) else None,
    ],
    cp_round,
    cover=[("both legs", lambda i, rs: len(rs) == 2 and some(rs[1]))],
)
cp_validate = Spec("constant price validation", [V("p", 64, special=(0, 1))], [lambda i, rs: ("cp.validate", i.p)], lambda i, rs: [("price must be positive", Iff(okk(rs[0]), ge(i.p, 1)))], cover=[OK, ERR])
cp_vsupply = Spec("constant price initial supply", [V("p", 64), V("a", 64, special=(0,)), V("b", 64, special=(0,))], [lambda i, rs: ("cp.vsupply", i.p, i.a, i.b)], lambda i, rs: [("token A reserve must be funded", Iff(okk(rs[0]), ge(i.a, 1)))], cover=[OK, ERR])
prop("P08", [cp_swap, cp_roundtrip, cp_validate, cp_vsupply])


# ------------------------------------------------------------------ P09
def xyk_post(off):
    def post(i, rs):
        r = rs[0]
        S, D = i.src, i.dst
        if off:
            if i.dir == "AtoB":
                D = add(D, i.off)
            else:
                S = add(S, i.off)
        if r is None:
            # never refuses a trade that would pay out at least one unit
            return [("small trades that buy something succeed", Or(gt(mul(S, D), U128), gt(add(S, i.s), U128), gt(add(S, i.s), mul(S, D)), lt(mul(add(S, i.s), sub(D, 1)), mul(S, D)), gt(D, U128), gt(S, U128)))]
        used, out = r[1]["source_amount_swapped"], r[1]["destination_amount_swapped"]
        ns, nd = add(S, used), sub(D, out)
        return [
            ("invariant does not decrease", ge(mul(ns, nd), mul(S, D))),
            ("takes no more than offered", le(used, i.s)),
            ("never empties the reserve", ge(nd, 1)),
            ("something is bought", ge(out, 1)),
            ("no unit more could be paid out", lt(mul(add(S, i.s), sub(nd, 1)), mul(S, D))),
            ("no more is taken than the payout costs", lt(mul(sub(ns, 1), nd), mul(S, D))),
        ]

    return post


xyk_swap = Spec(
    "constant product swap",
    [V("s", 128), V("src", 128, lo=1), V("dst", 128, lo=1), DIR],
    [lambda i, rs: ("xyk.swap", i.s, i.src, i.dst, i.dir)],
    xyk_post(False),
    cover=[SOME, NONE],
    timeout=60,
)
off_swap = Spec(
    "offset swap",
    [V("off", 64), V("s", 128), V("src", 128, lo=1), V("dst", 128, lo=1), DIR],
    [lambda i, rs: ("off.swap", i.off, i.s, i.src, i.dst, i.dir)],
    xyk_post(True),
    cover=[SOME, NONE],
    timeout=60,
)
off_validate = Spec("offset validation", [V("off", 64, special=(0,))], [lambda i, rs: ("off.validate", i.off)], lambda i, rs: [("offset must be positive", Iff(okk(rs[0]), ge(i.off, 1)))], cover=[OK, ERR])
off_allows = Spec("offset refuses deposits", [V("off", 64)], [lambda i, rs: ("off.allows", i.off)], lambda i, rs: [("deposits are refused", Not(rs[0]))])
off_vsupply = Spec("offset initial supply", [V("off", 64), V("a", 64, special=(0,)), V("b", 64, special=(0,))], [lambda i, rs: ("off.vsupply", i.off, i.a, i.b)], lambda i, rs: [("token A reserve must be funded", Iff(okk(rs[0]), ge(i.a, 1)))], cover=[OK, ERR])
xyk_vsupply = Spec("constant product initial supply", [V("a", 64, special=(0,)), V("b", 64, special=(0,))], [lambda i, rs: ("xyk.vsupply", i.a, i.b)], lambda i, rs: [("both reserves must be funded", Iff(okk(rs[0]), And(ge(i.a, 1), ge(i.b, 1))))], cover=[OK, ERR])
prop("P09", [xyk_swap, off_swap, off_validate, off_allows, off_vsupply, xyk_vsupply])


# ------------------------------------------------------------------ P10
def prorata(rnd, got, pool, supply, den, reserve_num):
    """got ~ pool*reserve_num/(supply*den)"""
    d = mul(supply, den)
    n = mul(pool, reserve_num)
    if rnd == "Floor":
        return And(le(mul(got, d), n), gt(mul(add(got, 1), d), n))
    return And(Or(eq(got, 0), ge(mul(got, d), n)), lt(mul(sub(got, 1), d), n))


def p2t_post(off):
    def post(i, rs):
        r = rs[0]
        B = add(i.b, i.off) if off else i.b
        if r is None:
            return [("fails only for an empty pool or overflow", Or(eq(i.supply, 0), gt(mul(i.pt, i.a), U128), gt(mul(i.pt, B), U128), gt(B, U128)))]
        a, b = r[1]["token_a_amount"], r[1]["token_b_amount"]
        out = [
            ("token A amount is pro rata, rounded in the pool's favour", prorata(i.round, a, i.pt, i.supply, 1, i.a)),
            ("token B amount is pro rata, rounded in the pool's favour", prorata(i.round, b, i.pt, i.supply, 1, B)),
        ]
        if i.round == "Floor":
            out.append(("nobody withdraws more than the reserves", Imp(le(i.pt, i.supply), And(le(a, i.a), le(b, B)))))
        return out

    return post


P2T = [V("pt", 128), V("supply", 128), V("a", 128), V("b", 128), RND]
xyk_p2t = Spec("constant product pool tokens to trading tokens", P2T, [lambda i, rs: ("xyk.p2t", i.pt, i.supply, i.a, i.b, i.round)], p2t_post(False), cover=[SOME, NONE], timeout=60)
off_p2t = Spec("offset pool tokens to trading tokens", [V("off", 64)] + P2T, [lambda i, rs: ("off.p2t", i.off, i.pt, i.supply, i.a, i.b, i.round)], p2t_post(True), cover=[SOME, NONE], timeout=60)
stb_p2t = Spec("stable pool tokens to trading tokens", [V("amp", 64)] + P2T, [lambda i, rs: ("stb.p2t", i.amp, i.pt, i.supply, i.a, i.b, i.round)], p2t_post(False), cover=[SOME, NONE], timeout=60)


def cp_p2t_post(i, rs):
    r = rs[0]
    val = add(i.a, mul(i.b, i.p))
    W = div(val, 2)
    if r is None:
        return [("fails only for an empty pool, zero price or overflow", Or(eq(i.supply, 0), eq(i.p, 0), gt(mul(i.pt, W), U128), gt(val, U128), And(i.round == "Ceiling", lt(mul(i.pt, W), mul(i.p, i.supply)))))]
    a, b = r[1]["token_a_amount"], r[1]["token_b_amount"]
    out = [
        ("token A amount is half the value share, rounded in the pool's favour", prorata(i.round, a, i.pt, i.supply, 1, W)),
        ("token B amount is half the value share, rounded in the pool's favour", (lambda f: f)(prorata(i.round, b, i.pt, i.supply, i.p, W) if i.round == "Floor" else And(Or(eq(b, 0), ge(mul(mul(b, i.p), i.supply), mul(i.pt, W))), lt(mul(mul(sub(b, 1), i.p), i.supply), mul(i.pt, W))))),
    ]
    if i.round == "Floor":
        out.append(("value paid out is at most the pro rata share", le(mul(add(a, mul(b, i.p)), i.supply), mul(i.pt, val))))
    return out


cp_p2t = Spec("constant price pool tokens to trading tokens", [V("p", 64)] + P2T, [lambda i, rs: ("cp.p2t", i.p, i.pt, i.supply, i.a, i.b, i.round)], cp_p2t_post, cover=[SOME, NONE], timeout=60)
prop("P10", [xyk_p2t, off_p2t, stb_p2t, cp_p2t])


# ------------------------------------------------------------------ P11
def single_post(kind):
    def post(i, rs):
        r = rs[0]
        given = i.s if i.dir == "AtoB" else mul(i.s, i.p)
        total = add(i.a, mul(i.b, i.p))
        n = mul(i.supply, given)
        if r is None:
            return [("fails only for an empty pool, less than one pool token, or overflow", Or(eq(total, 0), gt(n, mul(U128, total)), gt(n, 2**256 - 1), And(kind == "wd", lt(n, total))))]
        t = r[1]
        if kind == "dep":
            return [("mints at most the value's share", le(mul(t, total), n)), ("mints the whole share", gt(mul(add(t, 1), total), n))]
        return [("burns at least the value's share", ge(mul(t, total), n)), ("burns at most one token more", lt(mul(sub(t, 1), total), n))]

    return post


ONE_SIDED = [V("p", 64), V("s", 128), V("a", 128), V("b", 128), V("supply", 128), DIR]
cp_dep1 = Spec("constant price single-sided deposit", ONE_SIDED, [lambda i, rs: ("cp.dep1", i.p, i.s, i.a, i.b, i.supply, i.dir)], single_post("dep"), cover=[SOME, NONE], timeout=60)
cp_wd1 = Spec("constant price single-sided withdrawal", ONE_SIDED, [lambda i, rs: ("cp.wd1", i.p, i.s, i.a, i.b, i.supply, i.dir)], single_post("wd"), cover=[SOME, NONE], timeout=60)
prop("P11", [cp_dep1, cp_wd1])


# ------------------------------------------------------------------ P12
RATE = {"trade": (0, 1), "owner": (2, 3), "wd": (4, 5), "host": (6, 7)}


def fee_value(a, n, d):
    q = div(mul(a, n), d) if not (isinstance(d, int) and d == 0) else 0
    return ite(Or(eq(a, 0), eq(n, 0)), 0, ite(lt(mul(a, n), d), 1, q))


def fee_post(k):
    def post(i, rs):
        r = rs[0]
        f = fv(i)
        n, d, a = f[RATE[k][0]], f[RATE[k][1]], i.x
        if r is None:
            return [("fails only for a zero denominator or overflow", And(ge(n, 1), ge(a, 1), Or(eq(d, 0), gt(mul(a, n), U128))))]
        t = r[1]
        z = Or(eq(a, 0), eq(n, 0))
        return [
            ("no rate or no amount, no fee", Imp(z, eq(t, 0))),
            ("at least one unit is charged", Imp(Not(z), ge(t, 1))),
            ("the fee is the rate of the amount, rounded down but at least one", Imp(Not(z), Or(And(eq(t, 1), lt(mul(a, n), d)), And(le(mul(t, d), mul(a, n)), gt(mul(add(t, 1), d), mul(a, n)))))),
            ("a valid fee never exceeds the amount", Imp(lt(n, d), le(t, a))),
        ]

    return post


fee_specs = [
    Spec(f"{k} fee", FV + [V("x", 128, special=(0, 1))], [lambda i, rs, k=k: (f"fees.{k}", *fv(i), i.x)], fee_post(k), cover=[SOME, NONE])
    for k in RATE
]


def frac_ok(n, d):
    return Or(And(eq(n, 0), eq(d, 0)), lt(n, d))


fee_validate = Spec(
    "fee validation",
    FV,
    [lambda i, rs: ("fees.validate", *fv(i))],
    lambda i, rs: [("accepted exactly when every fee is a fraction below one (or unset)", Iff(okk(rs[0]), And(*[frac_ok(fv(i)[j], fv(i)[j + 1]) for j in (0, 2, 4, 6)])))],
    cover=[OK, ERR],
    gen=lambda rng, d: dict(d, **{f: rng.choice((0, rng.randint(0, 3), d[f])) for f in FEES}) if rng.random() < 0.7 else None,
)
prop("P12", fee_specs + [fee_validate])
