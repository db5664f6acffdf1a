"""The linear price curve (P03, P04, P07)."""
from .common import *
from . import dfs

ONE = 10**18
H = ONE // 2
LP = [V("sn", 64), V("sd", 64), V("an", 64), V("ad", 64)]
lp = lambda i: (i.sn, i.sd, i.an, i.ad)


# ------------------------------------------------------------------- P03
# The position of the curve for a locked amount a is B(a), what the code itself
# computes (rounding up) from a; A(b) = slope*b^2/2 + price*b is the collateral
# that belongs to a position, F(b) the same over the common denominator:
#   F(b) = 2*sd*ad*ONE^2 * A(b)
K = 100000001 * 10**27  # no position in scope has a price above this (10^17)
EPS = 10**35 + K  # 0.2 units of collateral, in 10^-36
FAR = 2**66 * ONE


def B(sn, sd, an, ad, a):
    return T.uf("position", (sn, sd, an, ad, a), 0, 2**200)


def F(c, b):
    sn, sd, an, ad = c
    return add(mul(mul(ad, sn), mul(b, b)), mul(mul(2 * ONE, mul(sd, an)), b))


def scope(sn, sd, an, ad, a):
    """the slope is at least 10^-17, and the price with a locked at most 10^17"""
    return And(ge(sn, 1), ge(sd, 1), ge(ad, 1), ge(mul(sn, 10**17), sd), le(a, 2**65), le(add(mul(2, mul(mul(sn, a), mul(ad, ad))), mul(mul(an, an), sd)), mul(10**34, mul(sd, mul(ad, ad)))))


def holds(c, b, a):
    """at least a (less 0.2) belongs to position b"""
    sn, sd, an, ad = c
    return ge(F(c, b), mul(mul(2, mul(ad, sd)), sub(mul(a, ONE * ONE), EPS)))


def bval_rel(sn, sd, an, ad, a, up, got=dfs.FRESH, twin=None):
    c = (sn, sd, an, ad)
    if got is not dfs.FRESH:
        if not some(got):
            return got is None
        v = got[1]["value"]
        if up is True:
            return And(holds(c, v, a), le(v, 2**200))
        return le(v, twin[1]["value"]) if some(twin) else le(v, 2**200)
    b = B(*c, a)
    if up is True:
        return [(dfs.N(b), [holds(c, b, a)]), (None, ())]
    v = T.var("down", 0, 2**200)
    return [(dfs.N(v), [le(v, b)]), (None, ())]


def near(n, d, q):
    """q = n // d, in the two ways it is used"""
    return [("lin", le(mul(q, d), n)), ("lin", ge(add(mul(q, d), d), add(n, 1)))]


def bval_hints(a_, r, ghost):
    if r is None:
        return []
    sn, sd, an, ad, a, up = a_
    c = (sn, sd, an, ad)
    v = r[1]["value"]
    calls = [x for x in ghost["rel"] if x[0] == "dfs.sqrt"]
    (D, _), S = calls[-1][1], calls[-1][2][1]["value"]
    if not up:
        Su = calls[0][2][1]["value"]
        e = div(add(mul(an, ONE * ONE), H), mul(ad, ONE))
        out = [("cancel", sub(Su, S), add(add(Su, S), 1)), ("mul", sd, sub(Su, S))]
        qs = [div(add(mul(2 * ONE, mul(sd, sub(x, e))), H), mul(sn, ONE)) for x in (Su, S)]
        out += [("cancel", sub(qs[0], qs[1]), sn)]
        return out
    q1 = div(add(mul(4 * ONE * ONE, mul(sn, a)), H), mul(2 * ONE, sd))
    q2a = div(add(mul(ONE * ONE, mul(an, an)), H), mul(ad, ONE))
    q2 = div(add(mul(q2a, ONE), H), mul(ad, ONE))
    e = div(add(mul(an, ONE * ONE), H), mul(ad, ONE))
    ad2, sd2 = mul(ad, ad), mul(sd, sd)
    an2 = mul(ONE, mul(an, an))
    n1 = mul(2 * ONE, mul(sn, a))
    out = near(n1, sd, q1) + near(q2a, ad, q2) + near(an2, ad, q2a)
    out += [("mul", ad, sub(q2a, mul(ad, q2))), ("mul", ad, sub(add(mul(ad, q2), ad), add(q2a, 1)))]
    out += [("lin", ge(an2, mul(ad2, q2))), ("lin", ge(add(mul(ad2, q2), ad2), an2))]
    # the number under the root is at most 10^34, the root at most 10^17
    out += [("mul", ad2, sub(n1, mul(sd, q1))), ("mul", sd, sub(an2, mul(ad2, q2))), ("cancel", sub(10**52, D), mul(sd, ad2))]
    z = sub(S, 1)
    acc = Or(le(z, 0), le(mul(dfs.SQ**2, mul(z, z)), mul((dfs.SQ + 1) ** 2, mul(D, ONE))))
    out += [("by", le(S, K), (acc, le(D, 10**52)))]
    # from the root to the position
    out += [("lin", le(mul(ad, e), mul(an, ONE))), ("mul", sd, sub(mul(an, ONE), mul(ad, e)))]
    num = sub(S, e)
    g1 = ge(add(mul(sn, v), sn), mul(sd, num))
    qa = div(add(mul(2 * ONE, mul(sd, num)), H), mul(sn, ONE))
    if v != div(add(mul(qa, ONE), H), 2 * ONE):
        # the root came out below the start price, and the position is 0
        out += [("mul", sd, sub(e, S)), ("mul", sn, v), ("lin", g1)]
    else:
        out += [("lin", ge(add(mul(sn, qa), sn), mul(2, mul(sd, num)))), ("lin", ge(add(mul(2, v), 1), qa)), ("mul", sn, sub(add(mul(2, v), 1), qa)), ("lin", g1)]
    out += [("mul", ad, sub(add(mul(sn, v), sn), mul(sd, num)))]
    Z = add(mul(mul(ad, sn), v), mul(mul(an, ONE), sd))
    w = sub(mul(sd, S), sn)
    out += [("lin", ge(Z, mul(ad, w)))]
    # the square of the root
    out += [("mul", mul(ad2, sd2), sub(mul(S, S), mul(D, ONE))), ("mul", mul(ad2, sd), sub(add(mul(sd, q1), sd), n1)), ("mul", sd2, sub(add(mul(ad2, q2), ad2), an2))]
    ss = mul(mul(ad2, sd2), mul(S, S))
    out += [("lin", ge(ss, mul(ONE, sub(add(mul(mul(ad2, sd), n1), mul(sd2, an2)), mul(2, mul(ad2, sd2))))))]
    goal = holds(c, v, a)
    pos = [("mul", ad, w), ("mul", sub(Z, mul(ad, w)), add(Z, mul(ad, w))), ("mul", mul(mul(ad2, sd), 2 * ONE), sub(mul(10**17, sn), sd)), ("mul", mul(mul(ad2, sd), sn), sub(K, S)), ("cancel", sub(F(c, v), mul(mul(2, mul(ad, sd)), sub(mul(a, ONE * ONE), EPS))), mul(ad, sn))]
    neg = [
        ("mul", sub(sn, mul(sd, S)), add(sn, mul(sd, S))),
        ("mul", sd2, sub(mul(S, S), mul(D, ONE))),
        ("mul", sd2, q2),
        ("mul", sd, sub(add(mul(sd, q1), sd), n1)),
        ("mul", mul(sd, ONE), sub(mul(10**17, sn), sd)),
        ("cancel", sub(add(sn, mul(10**35, sd)), mul(2 * ONE * ONE, mul(sd, a))), sn),
        ("cancel", sub(2**64 + 10**35, mul(2 * ONE * ONE, a)), sd),
        ("lin", le(a, 0)),
        ("mul", mul(ad, sd), mul(-1, a)),
    ]
    return out + [("case", ge(w, 0), pos, neg, goal)]


def raw_units(*a):
    """a call's arguments: the locked amount is a whole number of units"""
    c, x, up = a
    v = x["value"]
    if isinstance(v, int):
        if v % ONE:
            raise ValueError("fractional amount")
        q = v // ONE
    else:
        if any(k % ONE for k in v.m.values()):
            raise ValueError("fractional amount")
        q = T.div(v, ONE)
    return tuple(c[f] for f in apis.LINF) + (q, up)


EXACT = ["dfs.new", "dfs.imp", "dfs.floor", "dfs.ceil", "dfs.add", "dfs.sub", "dfs.usub", "dfs.mul", "dfs.div"]
LP1 = [V("sn", 64, lo=1), V("sd", 64, lo=1), V("an", 64), V("ad", 64, lo=1)]
Contract(
    "lin.bval",
    "lin.bval",
    LP1 + [V("a", 65), C("up", [True, False])],
    rel=bval_rel,
    pre=lambda *a: scope(*a[:5]),
    uses=EXACT + ["dfs.sqrt"],
    hints=bval_hints,
    argmap=raw_units,
    twin=lambda *a: None if a[5] is True else a[:5] + (True,),
)


def amt_rel(sn, sd, an, ad, b, got=dfs.FRESH):
    c = (sn, sd, an, ad)
    low = lambda r: ge(mul(mul(2 * ONE, mul(sd, ad)), add(r, 3)), F(c, b))
    if got is not dfs.FRESH:
        if not some(got):
            return got is None
        return Or(ge(got[1]["value"], FAR), low(got[1]["value"]))
    r = T.var("locked", 0, 2**256 - 1)
    return [(dfs.N(r), [ge(r, FAR)]), (dfs.N(r), [low(r)]), (None, ())]


def amt_hints(a_, r, ghost):
    if r is None:
        return []
    sn, sd, an, ad, b = a_
    v = r[1]["value"]
    t2 = div(add(mul(sn, mul(b, b)), H), ONE)
    t3 = div(add(mul(t2, ONE), H), mul(sd, ONE))
    t4 = div(add(mul(t3, ONE), H), 2 * ONE)
    t5 = mul(an, b)
    t6 = div(add(mul(t5, ONE), H), mul(ad, ONE))
    return [
        ("lin", ge(add(mul(ad, t6), ad), t5)),
        ("mul", sd, sub(add(mul(ad, t6), ad), t5)),
        ("lin", ge(add(mul(2, t4), 1), t3)),
        ("lin", ge(add(mul(sd, t3), sd), t2)),
        ("mul", sd, sub(add(mul(2, t4), 1), t3)),
        ("lin", ge(add(mul(t2, ONE), H), mul(sn, mul(b, b)))),
        ("lin", ge(add(mul(2 * ONE, mul(sd, add(t4, 1))), H), mul(sn, mul(b, b)))),
        ("mul", ad, sub(add(mul(2 * ONE, mul(sd, add(t4, 1))), H), mul(sn, mul(b, b)))),
    ]


Contract("lin.amt", "lin.amt", LP1 + [V("b", hi=2**201)], rel=amt_rel, pre=lambda sn, sd, an, ad, b: And(ge(sn, 1), ge(sd, 1), ge(ad, 1), le(b, 2**201)), uses=EXACT, hints=amt_hints, argmap=lambda c, x: tuple(c[f] for f in apis.LINF) + (x["value"],))


def J1(i, t, a):
    """positions: everything bought lies between the first reserve and the present one"""
    return le(mul(t, ONE), sub(B(*lp(i), a), B(*lp(i), i.a0)))


def J2(i, t, a):
    """the supply ran out: the reserve is what belongs there, to half a unit"""
    top = add(B(*lp(i), i.a0), mul(t, ONE))
    return ge(mul(mul(2 * ONE, mul(i.sd, i.ad)), add(mul(a, ONE), H + 3)), F(lp(i), top))


def now(i):
    """reserve and tokens sold so far: nothing before the first purchase"""
    return (i.a0, 0) if i.first else (i.a, i.t)


def buy_hints(i, rs, ghost):
    if not some(rs[0]):
        return []
    r = rs[0][1]
    used, out = r["source_amount_swapped"], r["destination_amount_swapped"]
    c = lp(i)
    a, t = now(i)
    bm = add(B(*c, a), mul(i.dst, ONE))
    x = add(B(*c, i.a0), mul(add(t, i.dst), ONE))
    got = [q[2][1]["value"] for q in ghost["rel"] if q[0] == "lin.amt" and q[2] is not None]
    if not got:
        return []
    got = got[-1]
    m = mul(i.sd, i.ad)
    return [
        ("lin", ge(bm, x)),
        ("mul", sub(bm, x), add(mul(mul(i.ad, i.sn), add(bm, x)), mul(mul(2 * ONE, mul(i.sd, i.an)), 1))),
        ("lin", ge(add(mul(add(a, used), ONE), H), got)),
        ("mul", m, sub(add(mul(add(a, used), ONE), H), got)),
    ]


def buy_post(i, rs):
    if not some(rs[0]):
        return []
    a, t = now(i)
    used, out = rs[0][1]["source_amount_swapped"], rs[0][1]["destination_amount_swapped"]
    return [
        ("what was bought so far is covered by the reserve", Or(J1(i, add(t, out), add(a, used)), J2(i, add(t, out), add(a, used)))),
        ("the first reserve belongs to the first position", holds(lp(i), B(*lp(i), i.a0), i.a0)),
    ]


def buy_pre(i):
    a, t = now(i)
    sc = scope(*lp(i), add(a, i.s))
    return sc if i.first else And(sc, le(i.a0, a), J1(i, t, a), holds(lp(i), B(*lp(i), i.a0), i.a0))


buy = Spec(
    "linear price purchase",
    LP1 + [V("a0", 64), V("a", 64), V("t", 64), V("s", 64), V("dst", 64), C("first", [True, False])],
    [lambda i, rs: ("lin.swap", *lp(i), i.s, now(i)[0], i.dst, "AtoB")],
    buy_post,
    pre=buy_pre,
    uses=EXACT + ["lin.bval", "lin.amt"],
    hints=buy_hints,
    samples=0,
    cover=[SOME, NONE],
)


def sale_hints(i, rs, ghost):
    if not some(rs[0]):
        return []
    r = rs[0][1]
    c = lp(i)
    b0, b1 = B(*c, i.a0), B(*c, i.a)
    lin2 = mul(2 * ONE, mul(i.sd, i.an))
    k = mul(i.ad, i.sn)
    slope = lambda x, y: add(mul(k, add(x, y)), lin2)
    T_ = mul(i.t, ONE)
    D2 = mul(2, mul(i.sd, i.ad))
    E = mul(D2, EPS + H * ONE + 3 * ONE)
    E0 = mul(D2, EPS)
    amt = [q for q in ghost["rel"] if q[0] == "lin.amt" and q[2] is not None]
    fb0 = F(c, b0)
    up = []
    if i.after == "all bought":
        # F(b0 + t) <= F(b1) + E
        up = [("lin", le(F(c, add(b0, T_)), add(F(c, b1), E)))]
    g = sub(add(b0, T_), b1)
    if amt:
        end = amt[-1][1][4]
        got = amt[-1][2][1]["value"]
        fe = F(c, end)
        if i.after == "some left":
            hs = [("lin", ge(end, b0)), ("mul", k, end), ("mul", sub(end, b0), slope(end, b0)), ("lin", ge(fe, fb0))]
        else:
            low = sub(b0, g)
            cov = [("lin", ge(end, b0)), ("mul", k, end), ("mul", sub(end, b0), slope(end, b0)), ("lin", ge(fe, sub(fb0, E)))]
            part = [("mul", g, k), ("mul", mul(g, k), T_), ("mul", k, end), ("mul", k, low), ("lin", ge(F(c, low), sub(fb0, E))), ("lin", ge(end, low)), ("mul", sub(end, low), slope(end, low)), ("lin", ge(fe, sub(fb0, E)))]
            # the position would be negative: all of F(b0) is within the error
            under = [("mul", sub(T_, b1), slope(T_, b1)), ("lin", ge(F(c, T_), F(c, b1))), ("mul", mul(k, b0), T_), ("lin", le(fb0, E)), ("mul", end, end), ("mul", k, mul(end, end)), ("mul", mul(i.sd, i.an), end), ("lin", ge(fe, 0)), ("lin", ge(fe, sub(fb0, E)))]
            goal = ge(fe, sub(fb0, E))
            inner = [("case", ge(low, 0), part, under, goal)]
            hs = up + [("case", le(g, 0), cov, inner, goal)]
        m = mul(i.sd, i.ad)
        # cancel the common denominator
        loss = EPS if i.after == "some left" else 2 * EPS + H * ONE + 3 * ONE
        hs += [("cancel", sub(add(mul(ONE, add(got, 3)), loss), mul(i.a0, ONE * ONE)), mul(2, m))]
        return hs
    # the position was smaller than what is sold
    hs = [("mul", sub(T_, b1), slope(T_, b1)), ("lin", ge(F(c, T_), F(c, b1))), ("mul", mul(k, b0), T_)]
    return up + hs + [("lin", le(fb0, E)), ("cancel", sub(2 * EPS + H * ONE + 3 * ONE, mul(i.a0, ONE * ONE)), D2)]


sale = Spec(
    "linear price sale",
    LP1 + [V("a0", 64), V("a", 64), V("t", 64), V("y", 64), C("after", ["some left", "all bought"])],
    [lambda i, rs: ("lin.swap", *lp(i), i.y, 0, i.a, "BtoA")],
    lambda i, rs: [] if not some(rs[0]) else [("pays no more than what was paid in", le(rs[0][1]["destination_amount_swapped"], sub(i.a, i.a0)))],
    pre=lambda i: And(scope(*lp(i), i.a), le(i.a0, i.a), le(i.y, i.t), holds(lp(i), B(*lp(i), i.a0), i.a0), (J1 if i.after == "some left" else J2)(i, i.t, i.a)),
    uses=EXACT + ["lin.bval", "lin.amt"],
    hints=sale_hints,
    samples=0,
    cover=[SOME, NONE],
)


def rt_gen(rng, d):
    # a plausible pool: prices and reserves of comparable magnitude
    if rng.random() < 0.7:
        for k in ("sn", "sd", "an", "ad"):
            d[k] = rng.randint(1, 10 ** rng.randint(1, 9))
        d["src"] = rng.randint(0, 10 ** rng.randint(1, 15))
        d["dst"] = rng.randint(1, 10 ** rng.randint(1, 15))
        d["s"] = rng.randint(1, 10 ** rng.randint(1, 12))
    return d


def rt_steps(n):
    """n purchases, then a sale of part or all of what they bought"""

    def at(i, rs):
        return add(i.src, sum(r[1]["source_amount_swapped"] for r in rs)), sum(r[1]["destination_amount_swapped"] for r in rs)

    def purchase(k):
        def f(i, rs):
            if rs and not some(rs[-1]):
                return None
            a, t = at(i, rs)
            return ("lin.swap", *lp(i), (i.s, i.s2, i.s3)[k], a, i.dst - t, "AtoB") if t < i.dst else None

        return f

    def sell(i, rs):
        rs = [r for r in rs if some(r)]
        a, t = at(i, rs)
        if not t or t > i.dst or a >= 2**64:
            return None
        y = t if i.part == 0 else max(1, t - t * i.part // 2**16)
        return ("lin.swap", *lp(i), y, i.dst - t, a, "BtoA")

    return [purchase(k) for k in range(n)] + [sell]


def rt_post(i, rs, n):
    b = rs[:-1]
    if len(rs) < n + 1 or not all(some(r) for r in rs):
        return []
    return [("selling what was bought never pays out more than was paid", le(rs[-1][1]["destination_amount_swapped"], sum(r[1]["source_amount_swapped"] for r in b)))]


RT = [
    Spec(
        f"linear price round trip, {n} purchase{'s' * (n > 1)}",
        LP1 + [V("s", 64, lo=1), V("s2", 64, lo=1), V("s3", 64, lo=1), V("src", 64), V("dst", 64), V("part", 16)],
        rt_steps(n),
        lambda i, rs, n=n: rt_post(i, rs, n),
        pre=lambda i, n=n: scope(*lp(i), add(i.src, sum((i.s, i.s2, i.s3)[:n]))),
        gen=rt_gen,
        proof=False,
    )
    for n in (1, 2, 3)
]
# flatter curves, down to the smallest slope accepted (10^-18), are outside the
# proofs: the inputs of the known findings are run, nothing else
FLAT = Spec(
    "linear price round trip, flattest curves",
    RT[1].inputs,
    rt_steps(2),
    lambda i, rs: rt_post(i, rs, 2),
    pre=lambda i: And(ge(mul(i.sn, ONE), i.sd), ge(i.ad, 1)),
    proof=False,
    samples=0,
)
prop("P03", [buy, sale] + RT + [FLAT])


# ------------------------------------------------------------------- P04
def p04_post(i, rs):
    r = rs[0]
    if r is None:
        return []
    used, out = r[1]["source_amount_swapped"], r[1]["destination_amount_swapped"]
    return [
        ("takes no more than offered", le(used, i.s)),
        ("takes all that was offered unless the reserve is paid out in full", Or(eq(used, i.s), eq(out, i.dst))),
        ("something is taken and something is paid", And(ge(used, 1), ge(out, 1))),
    ] + ([("never pays more collateral than the pool holds", le(out, i.dst))] if i.dir == "BtoA" else [])


WEAK = ["dfs.new", "dfs.imp", "dfs.floor", "dfs.ceil", "dfs.add", "dfs.sub", "dfs.usub", "dfs.mul~", "dfs.div~", "dfs.sqrt~"]
bounds = Spec(
    "linear price trade",
    LP + [V("s", 64), V("src", 64), V("dst", 64), DIR],
    [lambda i, rs: ("lin.swap", *lp(i), i.s, i.src, i.dst, i.dir)],
    p04_post,
    uses=WEAK,
    gen=rt_gen,
    cover=[SOME, NONE],
)
prop("P04", [bounds])


# ------------------------------------------------------------------- P07
def valid_post(i, rs):
    good = And(ge(i.sn, 1), ge(i.sd, 1), ge(i.ad, 1), ge(mul(i.sn, ONE), i.sd))
    return [("accepted exactly if usable", Iff(okk(rs[0]), good))]


def valid_gen(rng, d):
    q = rng.random()
    if q < 0.5:
        k = rng.randint(1, 18)
        d["sn"] = k
        d["sd"] = k * ONE * rng.choice((1, 2)) + rng.randint(-2, 2)
    return d


none = lambda lab: lambda i, rs: [(lab, rs[0] is None)]
valid = Spec("linear price validation", [V("sn", 64, special=(0, 1)), V("sd", 64, special=(0, 1, ONE, 2 * ONE, ONE + 1)), V("an", 64), V("ad", 64, special=(0,))], [lambda i, rs: ("lin.validate", *lp(i))], valid_post, uses=["dfs.new", "dfs.div", "dfs.ge"], gen=valid_gen, cover=[OK, ERR])
vsupply = Spec("linear price initial supply", LP + [V("a", 64, special=(0,)), V("b", 64, special=(0,))], [lambda i, rs: ("lin.vsupply", *lp(i), i.a, i.b)], lambda i, rs: [("only bonded tokens, no collateral", Iff(okk(rs[0]), And(ge(i.b, 1), eq(i.a, 0))))], cover=[OK, ERR])
allows = Spec("linear price deposits", LP, [lambda i, rs: ("lin.allows", *lp(i))], lambda i, rs: [("deposits are refused", Not(rs[0]))])
p2t = Spec("linear price pool conversion", LP + [V("t", 128), V("u", 128), V("a", 128), V("b", 128), RND], [lambda i, rs: ("lin.p2t", *lp(i), i.t, i.u, i.a, i.b, i.round)], none("pool tokens convert to nothing"))
dep1 = Spec("linear price single deposit", LP + [V("s", 128), V("a", 128), V("b", 128), V("u", 128), DIR], [lambda i, rs: ("lin.dep1", *lp(i), i.s, i.a, i.b, i.u, i.dir)], none("a deposit is worth nothing"))
wd1 = Spec("linear price single withdrawal", LP + [V("s", 128), V("a", 128), V("b", 128), V("u", 128), DIR], [lambda i, rs: ("lin.wd1", *lp(i), i.s, i.a, i.b, i.u, i.dir)], none("a withdrawal is worth nothing"))
prop("P07", [valid, vsupply, allows, p2t, dep1, wd1])
