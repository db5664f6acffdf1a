"""What a swap leaves behind a pool token, the pool tokens minted for the fees
included (P27)."""
from .common import *
from .history import FRESH, fee_gen, fit, pool_gen
from .product import E12, HALF, SLACK, add, mul, share_hints, sqrt_rel

EPS = HALF + SLACK  # parts of 10^24: what twelve decimals may be off


def any_owner_fee(*a, got=FRESH):
    if got is not FRESH:
        return got is None or some(got)
    return [(("some", T.var("owner fee", 0, U128)), ()), (None, ())]


Contract("fee.anyo", "fees.owner", FV + [V("x", 128)], rel=any_owner_fee)


# ------------------- the product curves' one-sided deposit, to twelve decimals
def named(off, a):
    names = (["off"] if off else []) + ["s", "a", "b", "supply", "dir"]
    return Inp(dict(zip(names, a)))


def shared(i, off):
    R = i.a if i.dir == "AtoB" else i.b
    return add(R, i.off) if off and i.dir == "BtoA" else R


def worth_most(m, R, S, s):
    """m pool tokens, at a supply of S, are no more than s in R is worth"""
    return le(mul(add(m, S), add(m, S), R, E12 * E12), add(mul(S, S, add(R, s), E12 * E12), mul(S, S, R, EPS)))


def dep_rel(off):
    def rel(*a, got=FRESH):
        i = named(off, a)
        R = shared(i, off)
        if got is FRESH:
            m = T.var("pool tokens", 0, U128)
            return [(("some", m), [ge(R, 1), worth_most(m, R, i.supply, i.s)]), (None, ())]
        return got is None or worth_most(got[1], R, i.supply, i.s)

    return rel


for k, off in (("xyk", False), ("off", True)):
    Contract(
        f"{k}.dep1~",
        f"{k}.dep1",
        ([V("off", 64)] if off else []) + [V(n, 64) for n in ("s", "a", "b", "supply")] + [DIR],
        rel=dep_rel(off),
        uses=["pn.sqrt"],
        hints=lambda a, r, ghost, off=off: share_hints("dep", off)(named(off, a), [r], ghost),
        timeout=60,
    )


# ------------------------------------------------------------------- P27
def keeps(k):
    """a swap, then the owner fee's conversion into pool tokens"""
    par = lambda i: ([i.p] if k == "cp" else [i.off] if k == "off" else [])
    fwd = lambda i: i.dir == "AtoB"

    def go(i, rs):
        src, dst = (i.a, i.b) if fwd(i) else (i.b, i.a)
        return ("sc.swap", k, *par(i), *fv(i), i.s, src, dst, i.dir)

    def state(i, rs):
        x, y = rs[0][1]["new_swap_source_amount"], rs[0][1]["new_swap_destination_amount"]
        return (x, y) if fwd(i) else (y, x)

    def convert(i, rs):
        if not some(rs[0]):
            return None
        a, b = state(i, rs)
        fee = rs[0][1]["owner_fee"]
        return When(fit(a, b, fee), ("sc.dep1", k, *par(i), *fv(i), fee, a, b, i.u, i.dir))

    def post(i, rs):
        if len(rs) < 2 or not some(rs[1]):
            return []
        a, b = state(i, rs)
        m = rs[1][1]
        if k == "cp":
            return [("the pool's value per pool token does not fall", ge(mul(add(a, mul(b, i.p)), i.u), mul(add(i.a, mul(i.b, i.p)), add(i.u, m))))]
        o = i.off if k == "off" else 0
        old, new = mul(i.a, add(i.b, o)), mul(a, add(b, o))
        return [("the reserves' product per pool token squared does not fall", le(mul(add(i.u, m), add(i.u, m), old, E12 * E12), add(mul(i.u, i.u, new, E12 * E12), mul(i.u, i.u, old, EPS))))]

    def hints(i, rs, ghost):
        if len(rs) < 2 or not some(rs[1]):
            return []
        a, b = state(i, rs)
        m, of = rs[1][1], rs[0][1]["owner_fee"]
        if k == "cp":
            v, v2 = add(i.a, mul(i.b, i.p)), add(a, mul(b, i.p))
            g = of if fwd(i) else mul(of, i.p)
            return [("lin", ge(v2, add(v, g))), ge(v2, add(v, g)), ("mul", m, sub(v2, v)), ("mul", i.u, sub(sub(v2, v), g)), ("mul", i.u, g)]
        o = i.off if k == "off" else 0
        B, B2 = add(i.b, o), add(b, o)
        R, D = (a, B2) if fwd(i) else (B2, a)  # the source and destination reserve afterwards
        old = mul(i.a, B)
        new = mul(R, D)
        rel = [x for x in ghost.get("rel", ()) if x[0] == f"{k}.dep1~"]
        x = rel[-1][1][1 if k == "off" else 0] if rel else 0
        F = add(of, rs[0][1]["trade_fee"])
        k0 = sub(mul(sub(R, F), D), old)
        t = sub(new, old)
        out = [("lin", ge(k0, 0)), ge(k0, 0), ("mul", k0, add(R, x)), ("mul", sub(F, x), new), ("mul", mul(F, x), D)]
        t = sub(mul(R, new), mul(old, add(R, x)))
        S2 = mul(i.u, i.u)
        w = sub(add(mul(S2, add(R, x), E12 * E12), mul(S2, R, EPS)), mul(add(m, i.u), add(m, i.u), R, E12 * E12))
        goal = sub(add(mul(S2, new, E12 * E12), mul(S2, old, EPS)), mul(add(i.u, m), add(i.u, m), old, E12 * E12))
        return out + [("mul", t, S2), ("mul", w, old), ("cancel", goal, R)]

    name = {"cp": "constant price", "xyk": "constant product", "off": "offset"}[k]
    return Spec(
        f"{name}: swap and its owner fee",
        ([V("p", 64, lo=1)] if k == "cp" else [V("off", 64)] if k == "off" else []) + FV + [V("s", 64), V("a", 64), V("b", 64), V("u", 64, lo=1), DIR],
        [go, convert],
        post,
        uses=["fee.any", "fee.anyo", f"{k}.dep1~"],
        hints=hints,
        gen=swap_gen,
        cover=[("both steps", lambda i, rs: len(rs) == 2 and some(rs[1]))],
        timeout=60,
    )


def swap_gen(rng, d):
    d = fee_gen(rng, pool_gen(rng, d))
    if rng.random() < 0.5:
        d["u"] = 10**9
    return d


prop("P27", [keeps(k) for k in ("cp", "xyk", "off")])
