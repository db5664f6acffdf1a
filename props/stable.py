"""The stable curve (P28): its invariant over swaps, and the one-sided
conversions measured by the curve's own value."""
from .common import *
from functools import reduce
from mirv.loops import Counted

add_, mul_ = add, mul


def add(*a):
    return reduce(add_, a)


def mul(*a):
    return reduce(mul_, a)


E12 = 10**12
FRESH = "$fresh"
WIDE = 2**66  # reserves, and what is added to them
DMAX = 2**70
# L = leverage, for reserves x and y the invariant D solves
#   D^3/(4xy) + (L-1) D = L (x+y);
# an amount E is supported by reserves while supports(L, x, y, E) <= 0


def supports(L, x, y, E):
    return poly(L, x, y, E, mul(4, x, y))


def poly(L, x, y, z, P):
    return add(mul(z, z, z), mul(P, sub(mul(sub(L, 1), z), mul(L, add(x, y)))))


def dust(x, y):
    """the code's product: one unit is added to each factor"""
    return mul(add(mul(2, x), 1), add(mul(2, y), 1))


def quotients(h):
    """the divisions within the term h, outermost first"""
    todo, seen, out = list(T.atoms_of(h)), set(), []
    while todo:
        n = todo.pop(0)
        if n in seen:
            continue
        seen.add(n)
        at = T.ATOMS[n]
        if at.kind == "div":
            out.append((T.V(at), *at.data))
            todo += [x for p in at.data if not isinstance(p, int) for x in T.atoms_of(p)]
    return out


# ------------------------------------------------------------------ D
def d_facts(L, x, y, d):
    return [ge(poly(L, x, y, add(d, 1), dust(x, y)), 1), le(d, mul(6, add(x, y)))]


def d_rel(L, x, y, got=FRESH):
    empty = eq(add(x, y), 0)
    if got is FRESH:
        d = T.uf("stable value", (L, x, y), 0, DMAX)
        return [(("some", d), [Or(And(empty, eq(d, 0)), And(ge(L, 2), *d_facts(L, x, y, d)))]), (None, ())]
    if not some(got):
        return got is None
    return Or(And(empty, eq(got[1], 0)), And(ge(L, 2), *d_facts(L, x, y, got[1])))


def d_step(L, x, y, g, h):
    """a Newton step from any g > 0: h + 1 lies above the root, whatever was lost by rounding"""
    A, B, P, S = add(mul(2, x), 1), add(mul(2, y), 1), dust(x, y), add(x, y)
    qs = quotients(h)
    if len(qs) < 3:
        return []
    q1 = next((q for q, n, d in qs if n == mul(g, g) and d == A), None)
    p = next((q for q, n, d in qs if q1 is not None and n == mul(q1, g) and d == B), None)
    if p is None:
        return []
    z = add(h, 1)
    N, M = mul(add(mul(L, S), mul(2, p)), g), add(mul(sub(L, 1), g), mul(3, p))
    t = sub(mul(3, z), mul(2, g))
    e = sub(z, g)
    g3 = mul(g, g, g)
    out = [("lin", ge(mul(g, g), mul(q1, A))), ("mul", sub(mul(g, g), mul(q1, A)), g), ("lin", ge(mul(q1, g), mul(p, B))), ("mul", sub(mul(q1, g), mul(p, B)), A)]
    out += [("lin", ge(g3, mul(P, p)))]
    out += [ge(mul(e, e), 0), ("mul", mul(e, e), mul(g, add(z, mul(2, g))))]
    goal = le(mul(P, p, t), mul(g, z, z, z))
    out += [("case", ge(t, 0), [("mul", sub(g3, mul(P, p)), t)], [("mul", sub(0, t), mul(P, p)), ge(mul(g, z, z, z), 0)], goal)]
    out += [("lin", ge(mul(z, M), add(N, 1))), ("mul", sub(mul(z, M), add(N, 1)), P)]
    out += [("lin", ge(P, 1)), ("cancel", sub(poly(L, x, y, z, P), 1), g)]
    # and not far above it
    out += [("mul", sub(mul(6, S), g), p), ("mul", sub(L, 2), mul(S, g)), ("mul", S, g), ("mul", S, p), ("cancel", sub(mul(6, S), h), M)]
    return out


def d_loop(L, x, y, part):
    def setup(I, st, fr):
        return (), []

    def inv(k, d, _):
        if k == 0:
            return [eq(d, add(x, y)), ge(d, 1)]
        return [ge(L, 2), ge(d, 0)] + d_facts(L, x, y, d)

    return Counted("stb.d", inv, lambda k, g, h, _: d_step(L, x, y, g, h), setup, lambda k: DMAX, part)


def last(step):
    def hints(a, r, ghost):
        cs = [v for k, v in ghost.items() if isinstance(k, tuple) and k[0] == "counted"]
        if not some(r) or not cs:
            return []
        return step(*a, cs[0][3], r[1])

    return hints


CUTS = [0, 4, 8, 12, 16, 20, 24, 28, None]
PARTS = list(zip(CUTS, CUTS[1:]))
Contract("stb.d", "stb.d", [V("L", 64), V("x", hi=WIDE), V("y", hi=WIDE)], rel=d_rel, pre=lambda L, x, y: Or(eq(L, 0), ge(L, 2)), counted=d_loop, hints=last(d_step), timeout=60, parts=PARTS)


# ------------------------------------------------------------------ y
def y_facts(L, x, d, y):
    """with a unit more, the reserves support more than d"""
    return [lt(supports(L, x, add(y, 1), d), 0)]


def y_rel(L, x, d, got=FRESH):
    if got is FRESH:
        y = T.var("left", 0, U128)
        return [(("some", y), [ge(L, 1), ge(x, 1)] + y_facts(L, x, d, y)), (None, ())]
    return got is None or And(ge(L, 1), ge(x, 1), *y_facts(L, x, d, got[1]))


def y_loop(L, x, d, part):
    def setup(I, st, fr):
        return (), []

    Q = mul(4, x, L)
    c, b = div(mul(d, d, d), Q), add(x, div(d, L))

    def inv(k, y, _):
        if k == 0:
            return [eq(y, d)]
        z = add(y, 1)
        return [ge(add(mul(z, z), mul(sub(b, d), z)), add(c, 1))]

    return Counted("stb.y", inv, lambda k, g, h, _: y_step(L, x, d, g, h), setup, lambda k: DMAX if not k else 2**256 - 1, part)


def y_step(L, x, d, g, h):
    e = sub(add(h, 1), g)
    return [ge(mul(e, e), 0)]


def y_hints(a, r, ghost):
    L, x, d = a
    out = last(y_step)(a, r, ghost)
    if not some(r):
        return []
    Q = mul(4, x, L)
    c, q = div(mul(d, d, d), Q), div(d, L)
    z = add(r[1], 1)
    w = sub(add(mul(z, z), mul(sub(add(x, q), d), z)), add(c, 1))
    return out + [("lin", ge(w, 0)), ("mul", w, Q), ("mul", sub(d, mul(q, L)), mul(4, x, z)), ("lin", ge(mul(Q, add(c, 1)), add(mul(d, d, d), 1)))]


Contract("stb.y", "stb.y", [V("L", 64), V("x", hi=WIDE), V("d", hi=DMAX)], rel=y_rel, counted=y_loop, hints=y_hints, timeout=60, parts=PARTS)


# ------------------------------------------------------------------ P28
def lev(i):
    return mul(2, i.amp)


def swap_post(i, rs):
    r = rs[0]
    if r is None:
        return []
    src, dst = r[1]["source_amount_swapped"], r[1]["destination_amount_swapped"]
    L = lev(i)
    return [
        ("takes the amount offered", eq(src, i.s)),
        ("pays no more than the reserve", le(dst, i.y)),
        ("the invariant is left behind, to the unit", Imp(le(supports(L, i.x, i.y, i.E), 0), lt(supports(L, add(i.x, i.s), add(sub(i.y, dst), 1), i.E), 0))),
    ]


def swap_hints(i, rs, ghost):
    rel = ghost.get("rel", ())
    if not some(rs[0]) or len(rel) != 2:
        return []
    D = rel[0][2][1]
    L, x, y, E = lev(i), i.x, i.y, i.E
    z = add(D, 1)
    P, Q = dust(x, y), mul(4, x, y)
    k = sub(mul(sub(L, 1), z), mul(L, add(x, y)))
    x2, y2 = add(x, i.s), add(sub(y, rs[0][1]["destination_amount_swapped"]), 1)
    e = sub(E, z)
    up = lambda a, b: add(mul(a, a), mul(a, b), mul(b, b))
    # E <= D
    big = [
        ("case", ge(k, 0), [("mul", k, Q), ge(mul(z, z, z), 1)], [("mul", sub(0, k), sub(P, Q))], ge(supports(L, x, y, z), 1)),
        ("mul", e, up(E, z)),
        ("mul", sub(L, 1), mul(x, y)),
        ("mul", e, mul(Q, sub(L, 1))),
    ]
    low = [("mul", x2, sub(L, 1)), ("mul", mul(x2, sub(L, 1)), y2), ("mul", sub(D, E), up(D, E)), ("mul", sub(D, E), mul(4, x2, y2, sub(L, 1)))]
    goal = Or(gt(supports(L, x, y, E), 0), lt(supports(L, x2, y2, E), 0))
    return [("case", ge(e, 0), big, low, goal)]


SWAP = Spec(
    "stable swap",
    [V("amp", 64), V("s", 64), V("x", 64), V("y", 64), V("E", hi=2**66), DIR],
    [lambda i, rs: ("stb.swap", i.amp, i.s, i.x, i.y, i.dir)],
    swap_post,
    uses=["stb.d", "stb.y"],
    hints=swap_hints,
    gen=lambda rng, d: swap_gen(rng, d),
    cover=[SOME, NONE],
    timeout=60,
)


def root(L, x, y):
    lo, hi = 0, 2**66
    while lo < hi:
        m = (lo + hi + 1) // 2
        if supports(L, x, y, m) <= 0:
            lo = m
        else:
            hi = m - 1
    return lo


def pair_gen(rng, d, x, y):
    d["amp"] = rng.choice((1, 2, 10, 100, rng.getrandbits(10), rng.getrandbits(rng.randint(1, 63))))
    d[x] = rng.getrandbits(rng.randint(1, 64))
    d[y] = rng.choice((d[x], min(U64, d[x] * rng.randint(50, 200) // 100), rng.getrandbits(rng.randint(1, 64))))
    return d


def swap_gen(rng, d):
    d = pair_gen(rng, d, "x", "y")
    d["s"] = rng.choice((rng.getrandbits(rng.randint(1, 64)), d["x"] * rng.randint(0, 100) // 100, rng.randint(0, 5)))
    E = root(2 * d["amp"], d["x"], d["y"])
    d["E"] = max(0, rng.choice((E, E, E - 1, E - rng.getrandbits(20))))
    return d


def value_of(i, rs, n):
    return rs[n][1]["value"]


def one_sided(kind):
    dep = kind == "dep"
    fn = "dep1" if dep else "wd1"

    def after(i):
        s = i.s if dep else sub(0, i.s)
        # in the order in which the code names them, which its rounding depends on
        return (add(i.a, s), i.b) if i.dir == "AtoB" else (add(i.b, s), i.a)

    def conv(i, rs):
        return (f"stb.{fn}", i.amp, i.s, i.a, i.b, i.supply, i.dir)

    def then(i, rs):
        if not some(rs[0]):
            return None
        return ("stb.norm", i.amp, i.a, i.b)

    def then2(i, rs):
        if not some(rs[0]):
            return None
        return When(dep or le(i.s, i.a if i.dir == "AtoB" else i.b), ("stb.norm", i.amp, *after(i)))

    def post(i, rs):
        if not some(rs[0]):
            return []
        m, S = rs[0][1], i.supply
        if not dep:
            out = [("no more than the reserve is paid for", Or(eq(i.s, 0), le(i.s, i.a if i.dir == "AtoB" else i.b)))]
        else:
            out = []
        if len(rs) < 3 or not (some(rs[1]) and some(rs[2])):
            return out
        v0, v1 = value_of(i, rs, 1), value_of(i, rs, 2)
        none = eq(i.s, 0)
        out.append(("nothing for nothing", Imp(none, eq(m, 0))))
        if dep:
            return out + [("mints no more than the value's growth", Or(none, le(mul(add(S, m), v0), mul(S, v1)))), ("mints the value's growth", Or(none, gt(mul(add(S, m, 1), v0), mul(S, v1))))]
        return out + [("burns no less than the value's loss", Or(none, le(mul(sub(S, m), v0, E12), add(mul(S, v1, E12), v0)))), ("burns no more than the value's loss", Or(none, gt(mul(add(sub(S, m), 1), v0), mul(S, v1))))]

    return Spec(
        "stable one-sided " + ("deposit" if dep else "withdrawal"),
        [V("amp", 64), V("s", 64), V("a", 64), V("b", 64), V("supply", 64), DIR],
        [conv, then, then2],
        post,
        uses=["stb.d"],
        panic="fails",
        gen=gen1,
        cover=[("converted", lambda i, rs: len(rs) == 3 and some(rs[0]) and some(rs[2]))],
        timeout=60,
    )


def gen1(rng, d):
    d = pair_gen(rng, d, "a", "b")
    R = d["a" if d["dir"] == "AtoB" else "b"]
    d["s"] = rng.choice((rng.randint(0, R), R * rng.randint(0, 100) // 100, R, rng.randint(0, 5), rng.getrandbits(rng.randint(1, 64))))
    d["supply"] = rng.choice((10**9, rng.getrandbits(rng.randint(1, 64)), U64))
    return d


prop("P28", [SWAP, one_sided("dep"), one_sided("wd")])
