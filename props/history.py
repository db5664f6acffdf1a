"""Histories of deposits and withdrawals (P05) and what they leave to the other
holders (P06)."""
from .common import *

AB = lambda r: (r[1]["token_a_amount"], r[1]["token_b_amount"])
# balances and supplies of tokens have 64 bits
POOL = [V("t", 64, lo=1), V("u", 64, lo=1), V("a", 64), V("b", 64)]
PRICE = [V("p", 64, lo=1)]
PAR = {"xyk": [], "stb": [V("amp", 64)], "cp": PRICE}
NAME = {"xyk": "constant product", "stb": "stable", "cp": "constant price"}


def pool_gen(rng, d):
    """amounts that do not overflow, most of the time"""
    if rng.random() < 0.85:
        k = rng.choice((4, 8, 16, 32, 62))
        for n in ("t", "u", "a", "b", "y", "s"):
            if n in d:
                d[n] = rng.randint(1, 2 ** rng.randint(1, k))
        if "p" in d:
            d["p"] = rng.randint(1, 2 ** rng.randint(1, min(k, 20)))
        if rng.random() < 0.3:
            d["u"] = max(1, rng.choice((d.get("t", 1), d["a"], 2 * d.get("t", 1), d["a"] + d["b"])) + rng.randint(-1, 1))
        if rng.random() < 0.3 and "y" in d and "t" in d:
            d["y"] = d["t"]
    if "y" in d and "t" in d:
        d["y"] = min(d["y"], d["t"])
    if "t" in d and "u" in d and d["t"] + d["u"] > U64:
        d.update({n: 1 for n in ("t", "u", "y") if n in d})
    return d


def par(i, k):
    return [getattr(i, x.name) for x in PAR[k]]


# ------------------------------------------- conversion, as far as it matters
FRESH = object()


def worth(k, i_par, a, b):
    """what both shares are taken of: (of A, of B, unit price of B)"""
    if k == "cp":
        W = div(add(a, mul(b, i_par[0])), 2)
        return W, W, i_par[0]
    return a, b, 1


def bounds(rnd, x, t, u, w, p=1):
    """x is t/u of w (at price p), rounded down; or up, and then 0 only if it is
    below one"""
    d = mul(u, p)
    if rnd == "Floor":
        return And(le(mul(x, d), mul(t, w)))
    return Or(ge(mul(x, d), mul(t, w)), And(eq(x, 0), lt(mul(t, w), d)))


def p2t_rel(k):
    n = len(PAR[k])

    def rel(*a, got=FRESH):
        t, u, ra, rb, rnd = a[n:]
        wa, wb, p = worth(k, a[:n], ra, rb)
        if got is not FRESH:
            if not some(got):
                return got is None
            xa, xb = AB(got)
        else:
            xa, xb = T.var("share.a", 0, U128), T.var("share.b", 0, U128)
        f = And(bounds(rnd, xa, t, u, wa), bounds(rnd, xb, t, u, wb, p))
        if got is not FRESH:
            return f
        return [(("some", dict(token_a_amount=xa, token_b_amount=xb)), [f]), (None, ())]

    return rel


for k in PAR:
    Contract(
        f"{k}.p2t~",
        f"{k}.p2t",
        PAR[k] + [V("t", 128), V("u", 128, lo=1), V("a", 128), V("b", 128), RND],
        rel=p2t_rel(k),
        pre=(lambda p, t, u, *a: And(ge(u, 1), ge(p, 1))) if k == "cp" else (lambda *a: ge(a[-4], 1)),
        timeout=60,
    )


# ------------------------------------------------------------------- P05
def fit(*x):
    """balances and supplies have 64 bits"""
    return And(*[le(v, U64) for v in x])


def after(i, rs):
    """reserves and supply after a two-sided deposit of t pool tokens"""
    ca, cb = AB(rs[0])
    return add(i.a, ca), add(i.b, cb), add(i.u, i.t)


def there_and_back(k):
    """t pool tokens are bought with both tokens, y <= t of them handed in again"""

    def back(i, rs):
        if not some(rs[0]):
            return None
        a, b, u = after(i, rs)
        # otherwise there is no such deposit: the balances would not fit
        return When(fit(a, b, u), (f"{k}.p2t", *par(i, k), i.y, u, a, b, "Floor"))

    def post(i, rs):
        if len(rs) < 2 or not some(rs[1]):
            return []
        (ca, cb), (xa, xb) = AB(rs[0]), AB(rs[1])
        if k == "cp":
            return [("no value is gained", le(add(xa, mul(i.p, xb)), add(ca, mul(i.p, cb))))]
        return [("no token A is gained", le(xa, ca)), ("no token B is gained", le(xb, cb))]

    def hints(i, rs, ghost):
        if len(rs) < 2 or not some(rs[1]):
            return []
        (ca, cb), (xa, xb) = AB(rs[0]), AB(rs[1])
        a, b, u = after(i, rs)
        if k != "cp":
            out = []
            for r, c, x, w in ((i.a, ca, xa, a), (i.b, cb, xb, b)):
                out += [("mul", sub(i.t, i.y), w), bounds("Ceiling", c, i.t, i.u, r), bounds("Floor", x, i.y, u, w), ("cancel", sub(c, x), u)]
            return out
        W, _, _ = worth(k, (i.p,), i.a, i.b)
        W2, _, _ = worth(k, (i.p,), a, b)
        pay, cost = add(xa, mul(i.p, xb)), add(ca, mul(i.p, cb))
        return [
            ("mul", sub(i.t, i.y), W2),
            bounds("Floor", xa, i.y, u, W2),
            bounds("Floor", xb, i.y, u, W2, i.p),
            bounds("Ceiling", ca, i.t, i.u, W),
            bounds("Ceiling", cb, i.t, i.u, W, i.p),
            ("mul", i.t, sub(add(a, mul(b, i.p)), mul(2, W2))),
            ("mul", i.t, sub(add(mul(2, W), 1), add(i.a, mul(i.b, i.p)))),
            ("cancel", sub(cost, pay), u),
        ]

    return Spec(
        f"{NAME[k]}: deposit, then withdrawal",
        PAR[k] + POOL + [V("y", 64, lo=1)],
        [lambda i, rs: (f"{k}.p2t", *par(i, k), i.t, i.u, i.a, i.b, "Ceiling"), back],
        post,
        pre=lambda i: And(le(i.y, i.t), le(add(i.t, i.u), U64)),
        uses=[f"{k}.p2t~"],
        hints=hints,
        gen=pool_gen,
        cover=[("both steps", lambda i, rs: len(rs) == 2 and some(rs[1]))],
        timeout=60,
    )


# one-sided deposits and withdrawals exist on the constant-price curve
def one_rel(ceil):
    def rel(p, s, a, b, u, d, got=FRESH):
        v = add(a, mul(b, p))
        g = s if d == "AtoB" else mul(s, p)
        if got is not FRESH and not some(got):
            return got is None
        x = got[1] if got is not FRESH else T.var("pool tokens", 0, U128)
        f = ge(mul(x, v), mul(u, g)) if ceil else le(mul(x, v), mul(u, g))
        return f if got is not FRESH else [(("some", x), [f]), (None, ())]

    return rel


for nm, ceil in (("dep1", False), ("wd1", True)):
    Contract(f"cp.{nm}~", f"cp.{nm}", [V("p", 64), V("s", 128), V("a", 128), V("b", 128), V("u", 128), DIR], rel=one_rel(ceil), timeout=60)


def any_fee(*a, got=FRESH):
    """some fee, or none that can be computed"""
    if got is not FRESH:
        return got is None or some(got)
    return [(("some", T.var("fee", 0, U128)), ()), (None, ())]


Contract("fee.any", "fees.trade", FV + [V("x", 128)], rel=any_fee)


def one_args(i, s, a, b, u, d):
    """a one-sided operation of a pool with any fees"""
    return ("cp", i.p, *fv(i), s, a, b, u, d)


def total(i):
    return add(i.a, mul(i.b, i.p))


def onesided(first, second):
    """a deposit on one or both sides, and what may be taken out again for at
    most the pool tokens it brought: w tokens of one side, or both for y pool
    tokens"""

    def go(i, rs):
        if first == "one":
            return ("sc.dep1", *one_args(i, i.s, i.a, i.b, i.u, i.dir))
        return ("cp.p2t", i.p, i.t, i.u, i.a, i.b, "Ceiling")

    def state(i, rs):
        if first == "one":
            d = i.dir == "AtoB"
            return (add(i.a, i.s) if d else i.a), (i.b if d else add(i.b, i.s)), add(i.u, rs[0][1]), rs[0][1]
        ca, cb = AB(rs[0])
        return add(i.a, ca), add(i.b, cb), add(i.u, i.t), i.t

    def back(i, rs):
        if not some(rs[0]):
            return None
        a, b, u, t = state(i, rs)
        if second == "one":
            return When(fit(a, b, u), ("sc.wd1", *one_args(i, i.w, a, b, u, i.out)))
        return When(And(fit(a, b, u), le(i.y, t)), ("cp.p2t", i.p, i.y, u, a, b, "Floor"))

    def gain(i, rs):
        if first == "one":
            c = i.s if i.dir == "AtoB" else mul(i.s, i.p)
        else:
            c = add(AB(rs[0])[0], mul(i.p, AB(rs[0])[1]))
        if second == "one":
            return c, (i.w if i.out == "AtoB" else mul(i.w, i.p))
        return c, add(AB(rs[1])[0], mul(i.p, AB(rs[1])[1]))

    def guard(i, rs):
        t = state(i, rs)[3]
        return le(rs[1][1], t) if second == "one" else le(i.y, t)

    def paid(i, rs):
        # a two-sided deposit takes something on each side
        return True if first == "one" else And(ge(AB(rs[0])[0], 1), ge(AB(rs[0])[1], 1))

    def post(i, rs):
        if len(rs) < 2 or not some(rs[1]):
            return []
        c, g = gain(i, rs)
        return [("no value is gained", Imp(And(guard(i, rs), paid(i, rs)), le(g, c)))]

    def hints(i, rs, ghost):
        if len(rs) < 2 or not some(rs[1]):
            return []
        a, b, u, t = state(i, rs)
        c, g = gain(i, rs)
        v2 = add(a, mul(b, i.p))
        ok = [guard(i, rs), paid(i, rs)]
        hs = []
        if second == "one":
            hs += [("mul", sub(t, rs[1][1]), v2)]
        else:
            W2 = div(v2, 2)
            hs += [("mul", sub(t, i.y), W2), ("mul", t, sub(v2, mul(2, W2)))]
        if first == "both":
            W = div(total(i), 2)
            hs += [("mul", t, sub(add(mul(2, W), 1), total(i)))]
        hs += [("cancel", sub(c, g), u)]
        f = Imp(And(*ok), le(g, c))
        return [("case", And(*ok), hs, [], f)]

    return Spec(
        f"constant price: {first}-sided deposit, then {second}-sided withdrawal",
        PRICE + FV + [x for x in POOL if first == "both" or x.name != "t"] + ([V("s", 64), DIR] if first == "one" else []) + ([V("w", 64), C("out", ["AtoB", "BtoA"])] if second == "one" else [V("y", 64)]),
        [go, back],
        post,
        pre=lambda i: le(add(i.t, i.u), U64) if first == "both" else True,
        uses=["cp.p2t~"] * ("both" in (first, second)) + ["cp.dep1~"] * (first == "one") + ["cp.wd1~"] * (second == "one") + ["fee.any"],
        hints=hints,
        gen=history_gen,
        refine=lambda rng, d, rs: near_gain(rng, d, rs, gain, state, second),
        cover=[("both steps", lambda i, rs: len(rs) == 2 and some(rs[1]))],
        timeout=60,
    )


def fee_gen(rng, d):
    for n, m in zip(FEES[::2], FEES[1::2]):
        d[n], d[m] = rng.choice(((0, 0), (0, 1), (1, 10), (1, 100), (25, 10000), (1, 3)))
    return d


def history_gen(rng, d):
    d = fee_gen(rng, pool_gen(rng, d))
    for n in ("w",):
        if n in d:
            d[n] = rng.randint(0, 2 ** rng.randint(1, 40))
    return d


def near_gain(rng, d, rs, gain, state, second):
    """what was put in is asked for again, give or take a unit"""
    if not rs or not some(rs[0]):
        return None
    i = Inp(dict(d))
    try:
        a, b, u, t = state(i, rs)
    except Exception:
        return None
    if second != "one":
        return dict(d, y=t) if 0 < t <= U64 else None
    c = gain(i, rs)[0]
    w = c if d["out"] == "AtoB" else -(-c // d["p"])
    w += rng.choice((0, 0, 1, 1, -1, 2, rng.randint(0, 1 + abs(w) // 1000)))
    return dict(d, w=w) if 0 < w <= U64 else None


prop("P05", [there_and_back(k) for k in ("xyk", "stb", "cp")] + [onesided(a, b) for a, b in (("one", "one"), ("one", "both"), ("both", "one"))])


# ------------------------------------------------------------------- P06
def per_token(k, rnd):
    """a two-sided deposit (withdrawal) of t pool tokens, u before: what the
    others' pool tokens stand for"""
    up = rnd == "Ceiling"

    def sides(i, r):
        xa, xb = AB(r)
        if up:
            return add(i.a, xa), add(i.b, xb), add(i.u, i.t)
        # the operation pays no more than there is
        return sub(i.a, ite(lt(i.a, xa), i.a, xa)), sub(i.b, ite(lt(i.b, xb), i.b, xb)), sub(i.u, i.t)

    def post(i, rs):
        r = rs[0]
        if not some(r):
            return []
        a, b, u = sides(i, r)
        guard = And(ge(AB(r)[0], 1), ge(AB(r)[1], 1)) if up else True
        if k == "cp":
            W, W2 = div(total(i), 2), div(add(a, mul(b, i.p)), 2)
            return [("the pool's value per pool token does not fall", Imp(guard, ge(mul(W2, i.u), mul(W, u))))]
        return [(f"token {n} per pool token does not fall", Imp(guard, ge(mul(y, i.u), mul(x, u)))) for n, x, y in (("A", i.a, a), ("B", i.b, b))]

    def hints(i, rs, ghost):
        r = rs[0]
        if not some(r) or k != "cp":
            return []
        a, b, u = sides(i, r)
        xa, xb = AB(r)
        W, W2 = div(total(i), 2), div(add(a, mul(b, i.p)), 2)
        n = mul(i.t, W)
        if up:
            q = div(add(n, sub(i.u, 1)), i.u)
            hs = [("cancel", sub(xa, q), i.u), ("cancel", sub(mul(xb, i.p), q), i.u), ("lin", ge(W2, add(W, q))), ("mul", sub(W2, add(W, q)), i.u)]
            g = And(ge(xa, 1), ge(xb, 1))
            return [("case", g, hs, [], Imp(g, ge(mul(W2, i.u), mul(W, u))))]
        q = div(n, i.u)
        return [("cancel", sub(q, xa), i.u), ("cancel", sub(q, mul(xb, i.p)), i.u), ("mul", i.p, sub(b, sub(i.b, xb))), ("lin", ge(W2, sub(W, q))), ("mul", sub(W2, sub(W, q)), i.u)]

    return Spec(
        f"{NAME[k]}: value of a pool token after a {'deposit' if up else 'withdrawal'}",
        PAR[k] + POOL,
        [lambda i, rs: (f"{k}.p2t", *par(i, k), i.t, i.u, i.a, i.b, rnd)],
        post,
        pre=lambda i: le(add(i.t, i.u), U64) if up else le(i.t, i.u),
        uses=[f"{k}.p2t~"],
        hints=hints,
        gen=pool_gen if up else (lambda rng, d: (lambda d: dict(d, t=min(d["t"], d["u"])))(pool_gen(rng, d))),
        cover=[SOME],
        timeout=60,
    )


def one_sided(dep):
    def post(i, rs):
        if not some(rs[0]):
            return []
        t = rs[0][1]
        g = i.s if i.dir == "AtoB" else mul(i.s, i.p)
        v = total(i)
        if dep:
            return [("the pool's value per pool token does not fall", ge(mul(add(v, g), i.u), mul(v, add(i.u, t))))]
        return [("the pool's value per pool token does not fall", ge(mul(sub(v, g), i.u), mul(v, sub(i.u, t))))]

    nm = "dep1" if dep else "wd1"
    return Spec(
        f"constant price: value of a pool token after a one-sided {'deposit' if dep else 'withdrawal'}",
        PRICE + FV + [x for x in POOL if x.name != "t"] + [V("s", 64), DIR],
        [lambda i, rs: (f"sc.{nm}", *one_args(i, i.s, i.a, i.b, i.u, i.dir))],
        post,
        uses=[f"cp.{nm}~", "fee.any"],
        gen=lambda rng, d: fee_gen(rng, pool_gen(rng, d)),
        cover=[SOME],
        timeout=60,
    )


prop("P06", [per_token(k, r) for k in ("xyk", "stb", "cp") for r in ("Ceiling", "Floor")] + [one_sided(True), one_sided(False)])
