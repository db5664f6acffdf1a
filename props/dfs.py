"""The 18-decimal fixed-point number: exact contracts (P01), square root (P02)."""
from .common import *

ONE = 10**18
H = ONE // 2
M = 2**256
VAL = lambda *n: [V(x, 256, special=(0, 1, ONE, H, H - 1, H + 1, 2**128 * ONE, M - ONE, M - H, M - H - 1, M - 1)) for x in n]
N = lambda v: ("some", dict(value=v))


def c_new(a):
    # 128 bits times 10^18 always fits
    return [(True, N(mul(a, ONE)))]


def c_imp(a):
    q = div(add(a, H), ONE)
    fits = And(lt(add(a, H), M), le(q, U128))
    return [(fits, ("some", q)), (Not(fits), None)]


def c_floor(a):
    return [(True, N(mul(div(a, ONE), ONE)))]


def c_ceil(a):
    q = mul(div(add(a, ONE - 1), ONE), ONE)
    fits = And(lt(add(a, ONE - 1), M), lt(q, M))
    return [(fits, N(q)), (Not(fits), None)]


def c_add(a, b):
    return [(lt(add(a, b), M), N(add(a, b))), (ge(add(a, b), M), None)]


def c_sub(a, b):
    return [(ge(a, b), N(sub(a, b))), (lt(a, b), None)]


def c_mul(a, b):
    p = mul(a, b)
    fits = lt(p, M)
    r = lt(add(p, H), M)
    out = [(And(fits, r), N(div(add(p, H), ONE))), (And(fits, Not(r)), None)]
    for g, hi, lo in ((ge(a, b), a, b), (lt(a, b), b, a)):
        q = mul(div(hi, ONE), lo)
        out += [(And(Not(fits), g, lt(q, M)), N(q)), (And(Not(fits), g, ge(q, M)), None)]
    return out


def c_div(a, b):
    z = eq(b, 0)
    if z is True:
        return [(True, None)]
    p = mul(a, ONE)
    fits = lt(p, M)
    r = lt(add(p, H), M)
    r2 = lt(add(a, H), M)
    q = mul(div(add(a, H), b), ONE)
    nz = Not(z)
    return [
        (z, None),
        (And(nz, fits, r), N(div(add(p, H), b))),
        (And(nz, fits, Not(r)), None),
        (And(nz, Not(fits), r2, lt(q, M)), N(q)),
        (And(nz, Not(fits), r2, ge(q, M)), None),
        (And(nz, Not(fits), Not(r2)), None),
    ]


def c_usub(a, b):
    return [(ge(a, b), (dict(value=sub(a, b)), False)), (lt(a, b), (dict(value=sub(b, a)), True))]


CMP = {"lt": lt, "le": le, "gt": gt, "ge": ge}
UN_OPS = {"imp": c_imp, "floor": c_floor, "ceil": c_ceil}
BIN_OPS = {"add": c_add, "sub": c_sub, "mul": c_mul, "div": c_div, "usub": c_usub}
TITLES = dict(new="conversion from an integer", imp="rounding to an integer", floor="floor", ceil="ceiling", add="addition", sub="subtraction", mul="multiplication", div="division", usub="signed difference", lt="less than", le="at most", gt="greater than", ge="at least")


def as_spec(k, inputs, cases, gen=None):
    def post(i, rs):
        a = [getattr(i, x.name) for x in inputs]
        out, neg = [], []
        for j, (g, x) in enumerate(cases(*a)):
            lab = "exact value" if x is not None else "fails exactly on overflow, underflow or a zero divisor"
            out.append((f"{lab} (case {j})", Imp(And(g, *neg), match(x, rs[0]))))
            neg.append(Not(g))
        return out

    kinds = [k_ for k_ in (SOME, NONE)]
    cov = []
    if k in ("imp", "ceil", "add", "sub", "mul", "div"):
        cov = [SOME, NONE]
    elif k in ("new", "floor"):
        cov = [SOME]
    return Spec(TITLES[k], inputs, [lambda i, rs: (f"dfs.{k}", *[getattr(i, x.name) for x in inputs])], post, cover=cov, timeout=60, gen=gen)


def near256(rng, d):
    """pairs whose product or scaled value straddles 2^256"""
    q = rng.random()
    if q < 0.35 and d["b"]:
        d["a"] = M // d["b"] + rng.randint(-2, 2)
    elif q < 0.5:
        d["a"] = M // ONE + rng.randint(-2, 2)
    elif q < 0.6 and d["b"]:
        d["a"] = M // d["b"] + rng.randint(-2, 2) * (H // d["b"] + 1)
    return d


P01 = [as_spec("new", [V("a", 128)], c_new)]
Contract("dfs.new", "dfs.new", [V("a", 128)], cases=c_new)
for k, c in UN_OPS.items():
    Contract(f"dfs.{k}", f"dfs.{k}", VAL("a"), cases=c)
    P01.append(as_spec(k, VAL("a"), c))
for k, c in BIN_OPS.items():
    Contract(f"dfs.{k}", f"dfs.{k}", VAL("a", "b"), cases=c)
    P01.append(as_spec(k, VAL("a", "b"), c, near256))
for k, f in CMP.items():
    Contract(f"dfs.{k}", f"dfs.{k}", VAL("a", "b"), cases=lambda a, b, f=f: [(True, f(a, b))])
    P01.append(as_spec(k, VAL("a", "b"), lambda a, b, f=f: [(True, f(a, b))]))
prop("P01", P01)


FRESH = object()


# for callers that do not depend on the value: some number, or nothing
def any_num(*a, got=FRESH):
    if got is not FRESH:
        return got is None or some(got)
    return [(N(T.var("num", 0, M - 1)), ()), (None, ())]


for k in ("mul", "div"):
    Contract(f"dfs.{k}~", f"dfs.{k}", VAL("a", "b"), rel=any_num)


# ------------------------------------------------------------------- P02


def isqrt_rel(x, up, got=FRESH):
    """y = floor (up: ceiling) of the integer square root of x"""
    if got is not FRESH:
        if not some(got):
            return False
        y = got[1]
    else:
        y = T.var("isqrt", 0, 2**32)
    if up is True:
        f = [le(x, mul(y, y)), Or(And(eq(x, 0), eq(y, 0)), And(ge(y, 1), lt(mul(sub(y, 1), sub(y, 1)), x)))]
    else:
        f = [le(mul(y, y), x), lt(x, mul(add(y, 1), add(y, 1)))]
    return And(*f) if got is not FRESH else (("some", y), f)


Contract("dfs.isqrt", "dfs.isqrt", [V("x", 64), C("up", [False, True])], rel=isqrt_rel, loops=True, timeout=60)
SQ = 2**31


def sqrt_post(i, rs):
    r = rs[0]
    out = [("a root is returned", some(r))]
    if not some(r):
        return out
    y = r[1]["value"]
    t = mul(i.a, ONE)  # the square of the true root, in last decimal places
    if i.up:
        out.append(("never below the true root", ge(mul(y, y), t)))
        z = sub(y, 1)
        out.append(("at most one part in 2^31 and one last place above", Or(le(z, 0), le(mul(SQ * SQ, mul(z, z)), mul((SQ + 1) ** 2, t)))))
    else:
        out.append(("never above the true root", le(mul(y, y), t)))
        z = add(y, 1)
        out.append(("at most one part in 2^31 and one last place below", ge(mul((SQ + 1) ** 2, mul(z, z)), mul(SQ * SQ, t))))
    return out


def sqrt_gen(rng, d):
    k = rng.randint(0, 256)
    q = rng.random()
    if q < 0.2:
        d["a"] = 2**k - 1 - rng.randint(0, 3)
    elif q < 0.4:
        r = rng.getrandbits(max(1, k // 2))
        d["a"] = r * r + rng.randint(-1, 1)
    elif q < 0.5:
        r = rng.getrandbits(32)
        d["a"] = ((r * r) << (2 * rng.randint(0, 96))) + rng.choice((-1, 0, 1, 2 ** rng.randint(0, 192), -(2 ** rng.randint(0, 192))))
        d["a"] = max(0, min(M - 1, d["a"]))
    else:
        d["a"] = rng.getrandbits(k) if k else 0
    return d


BITLEN = R("a", [0] + [2**k for k in range(257)], special=VAL("a")[0].special)
P02 = [Spec("square root", [BITLEN, C("up", [False, True])], [lambda i, rs: ("dfs.sqrt", i.a, i.up)], sqrt_post, uses=["dfs.isqrt"], cover=[SOME], gen=sqrt_gen, timeout=60)]
prop("P02", P02)
Contract("dfs.sqrt~", "dfs.sqrt", [V("a", 256), C("up", [False, True])], rel=any_num, uses=["dfs.isqrt"])


def isqrt(n):
    import math

    return math.isqrt(n)


def sqrt_rel(a, up, got=FRESH):
    """the direction and the accuracy of the square root (P02)"""
    t = mul(a, ONE)
    if got is not FRESH:
        if not some(got):
            return False
        y = got[1]["value"]
    else:
        ah = T.iv(a)[1] if not isinstance(a, int) else a
        ah = min(M - 1, ah if ah is not None else M - 1)
        # what the second fact below implies for the largest possible argument
        y = T.var("sqrt", 0, isqrt((SQ + 1) ** 2 * ah * ONE // SQ**2) + 2 if up else isqrt(ah * ONE))
    if up is True:
        z = sub(y, 1)
        f = [ge(mul(y, y), t), Or(le(z, 0), le(mul(SQ * SQ, mul(z, z)), mul((SQ + 1) ** 2, t)))]
    else:
        f = [le(mul(y, y), t)]
    return And(*f) if got is not FRESH else (N(y), f)


Contract("dfs.sqrt", "dfs.sqrt", [BITLEN, C("up", [False, True])], rel=sqrt_rel, uses=["dfs.isqrt"], timeout=60)
