"""One-sided deposits and withdrawals on the product curves (P26): the square
root of spl_math's PreciseNumber, and the share of the pool computed with it."""
from .common import *
from functools import reduce
from mirv.loops import Counted

add_, mul_ = add, mul


def add(*a):
    return reduce(add_, a)


def mul(*a):
    return reduce(mul_, a)


E12 = 10**12
HALF = E12 // 2
PN = "spl_math::precise_number::PreciseNumber::"
apis.api("pn.sqrt", PN + "sqrt", lambda a: [dict(value=a)])
# 1 + amount/reserve for amounts of 64 bits
AMAX = 2**105
SLACK = 99 * 99


def square(a):
    """the number the root of which is taken, in last decimal places"""
    return add(mul(a, E12), HALF)


def root_facts(a, y):
    X = square(a)
    return [le(mul(y, y), add(X, SLACK)), lt(X, mul(add(y, 1), add(y, 1)))]


def sqrt_rel(a, got=None, **k):
    if got is None:
        y = T.var("root", 1, 2**73)
        return [(("some", dict(value=0)), [eq(a, 0)]), (("some", dict(value=y)), [ge(a, 1)] + root_facts(a, y))]
    if not some(got):
        return False
    y = got[1]["value"]
    return Or(And(eq(a, 0), eq(y, 0)), And(ge(a, 1), *root_facts(a, y)))


def bound(k):
    """how far above the root the guess may be after k steps (at least one)"""
    d = (AMAX + 5 * E12) // 4 + 1
    for _ in range(k - 1):
        d = d // 2 + 2
    return d


def newton(a, part):
    X = square(a)
    r = T.var("r", 1, 2**73)

    def setup(I, st, fr):
        # every number has an integer square root
        return r, [le(mul(r, r), X), lt(X, mul(add(r, 1), add(r, 1)))]

    def inv(k, g, _):
        if k == 0:
            return [ge(mul(2, g), add(a, E12 - 1)), le(mul(2, g), add(a, E12))]
        if k > 1 and bound(k - 1) < 100:
            # the guesses of the last step were too close to go on
            return [False]
        return [ge(g, r), le(g, add(r, bound(k)))]

    def step(k, g, h, _):
        return ahead(g, h, r, k == 0)

    return Counted(PN + "newtonian_root_approximation", inv, step, setup, lambda k: 2**73 + bound(max(k, 1)) if k else AMAX, part)


def ahead(g, h, r, first):
    """h, the guess after g, is no smaller than the root r and close to it"""
    q = quotient(h, g)
    if q is None:
        return []
    e = sub(g, r)
    low = [ge(mul(e, e), 0), ("cancel", add(sub(q, mul(2, r)), g), g)]
    if first:
        return low + [("cancel", sub(2 * E12, q), g)]
    return low + [("mul", add(r, 2), e), ("cancel", add(sub(r, q), 2), g)]


def quotient(h, g):
    """the quotient by g within the term h"""
    todo, seen = list(T.atoms_of(h)), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        at = T.ATOMS[n]
        if at.kind == "div":
            if at.data[1] == g:
                return T.V(at)
            todo += list(T.atoms_of(at.data[0]))
    return None


def sqrt_hints(a, r, ghost):
    cs = [v for k, v in ghost.items() if isinstance(k, tuple) and k[0] == "counted"]
    if not some(r) or not cs:
        return []
    root, k, _, g, _ = cs[0]
    h = r[1]["value"]
    q = quotient(h, g)
    d = sub(g, h)
    out = ahead(g, h, root, k == 0) + [("mul", add(h, 1), sub(h, root)), ("mul", add(root, 1), sub(h, root))]
    return out + [("mul", sub(99, d), add(99, d)), ("mul", add(sub(q, mul(2, h)), g), g)]


CUTS = [0, 15, 30, 45, 55, 65, 75, 85, None]


Contract("pn.sqrt", "pn.sqrt", [V("a", hi=AMAX)], rel=sqrt_rel, counted=newton, hints=lambda a, r, g: sqrt_hints(a[0], r, g), timeout=60, parts=list(zip(CUTS, CUTS[1:])))


# ------------------------------------------------------------ shares of the pool
def side(i, off):
    R = i.a if i.dir == "AtoB" else i.b
    return add(R, i.off) if off and i.dir == "BtoA" else R


def shares(kind, off):
    """m pool tokens for s of a reserve of R, at a supply of S"""

    def post(i, rs):
        r, R, S, s = rs[0], side(i, off), i.supply, i.s
        if r is None:
            return [("fails only for an empty reserve" + ("" if kind == "dep" else " or more than the reserve"), Or(eq(R, 0), kind == "wd" and gt(s, R)))]
        m = r[1]
        S2 = mul(S, S)
        if kind == "dep":
            up = add(mul(S2, add(R, s), E12 * E12), mul(S2, R, HALF + SLACK))
            d = add(mul(add(m, 1, S), E12), S)
            return [
                ("an empty reserve takes no deposit", ge(R, 1)),
                ("mints no more than the deposit's share", le(mul(add(m, S), add(m, S), R, E12 * E12), up)),
                ("mints the deposit's share", Or(gt(add(mul(d, d, R), mul(S2, R, HALF)), mul(S2, add(R, s), E12 * E12)), eq(S, 0))),
            ]
        n = sub(S, m)
        d = add(mul(add(n, 1), E12), S)
        return [
            ("an empty reserve pays nothing", ge(R, 1)),
            ("more than the reserve is refused, to twelve decimals", lt(mul(s, E12), mul(E12 + 1, R))),
            ("no more than the supply is burnt", ge(n, 0)),
            ("emptying the reserve burns the supply", Imp(ge(s, R), eq(m, S))),
            ("burns no less than the withdrawal's share", le(mul(n, n, R, E12 * E12), add(mul(S2, sub(R, s), E12 * E12), mul(S2, R, E12 + HALF + SLACK)))),
            ("burns no more than the withdrawal's share", Imp(lt(s, R), Or(gt(mul(d, d, R), add(mul(S2, sub(R, s), E12 * E12), mul(S2, R, HALF))), eq(S, 0)))),
        ]

    return post


def share_hints(kind, off):
    def h(i, rs, ghost):
        rel = [x for x in ghost.get("rel", ()) if x[0] == "pn.sqrt"]
        if len(rel) != 1 or not some(rs[0]):
            return []
        a, g = rel[0][1][0], rel[0][2][1]["value"]
        R, S, s, m = side(i, off), i.supply, i.s, rs[0][1]
        q = sub(a, E12) if kind == "dep" else sub(E12, a)
        S2 = mul(S, S)
        X = square(a)
        lo, hi = sub(mul(s, E12), mul(q, R)), sub(sub(mul(add(q, 1), R), mul(s, E12)), 1)
        d = add(m, S) if kind == "dep" else sub(S, m)
        # d = floor(S g / 10^12) (deposits) or what remains of the supply
        out = [("lin", ge(lo, 0)), ("lin", ge(hi, 0)), ("mul", lo, S2), ("mul", hi, S2)]
        e, f = sub(mul(S, g), mul(d, E12)), add(mul(S, g), mul(d, E12))
        out += [("mul", e, f), ("mul", e, mul(f, R))]
        if isinstance(g, int):
            return out
        out += [("mul", sub(add(X, SLACK), mul(g, g)), mul(S2, R))]
        b = sub(add(mul(add(d, 1), E12), S), add(mul(S, g), S, 1))  # >= 0
        t = add(mul(add(d, 1), E12), S)
        u = add(mul(S, g), S)
        out += [("mul", b, mul(add(t, u), R)), ("mul", sub(mul(add(g, 1), add(g, 1)), add(X, 1)), mul(S2, R))]
        return out

    return h


SH = [V("s", 64), V("a", 64, special=(0, 1)), V("b", 64, special=(0, 1)), V("supply", 64, special=(0,)), DIR]


def share_gen(rng, d):
    R = rng.getrandbits(rng.randint(1, 64))
    s = rng.choice((rng.getrandbits(rng.randint(1, 64)), R * rng.randint(0, 100) // 100, R - rng.randint(0, 3), R // (rng.getrandbits(rng.randint(1, 50)) + 1)))
    d["a"] = d["b"] = R
    if rng.random() < 0.5:
        d["a" if d["dir"] == "BtoA" else "b"] = rng.getrandbits(rng.randint(1, 64))
    if "off" in d and d["dir"] == "BtoA":
        d["off"] = rng.randint(0, R)
        d["b"] = R - d["off"]
    d["s"] = max(0, min(s, U64))
    d["supply"] = rng.choice((10**9, rng.getrandbits(rng.randint(1, 64)), U64))
    return d


def share_spec(key, name, kind, off):
    fn = "dep1" if kind == "dep" else "wd1"
    o = (lambda i: (i.off,)) if off else (lambda i: ())
    return Spec(
        name,
        ([V("off", 64)] if off else []) + SH,
        [lambda i, rs: (f"{key}.{fn}", *o(i), i.s, i.a, i.b, i.supply, i.dir)],
        shares(kind, off),
        uses=["pn.sqrt"],
        cover=[SOME, NONE],
        gen=share_gen,
        hints=share_hints(kind, off),
        timeout=60,
    )


prop(
    "P26",
    [
        share_spec("xyk", "constant product one-sided deposit", "dep", False),
        share_spec("xyk", "constant product one-sided withdrawal", "wd", False),
        share_spec("off", "offset one-sided deposit", "dep", True),
        share_spec("off", "offset one-sided withdrawal", "wd", True),
    ],
)
