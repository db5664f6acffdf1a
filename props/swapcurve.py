"""SwapCurve: bookkeeping around any curve, fees of single-sided operations;
deployment constraints."""
from .common import *
from .curves import RATE
from itertools import combinations, permutations


def fee_cases(k, f, a):
    """exact contract of a fee: [(guard, value or None)], exclusive and exhaustive"""
    n, d = f[RATE[k][0]], f[RATE[k][1]]
    z = Or(eq(a, 0), eq(n, 0))
    p = mul(a, n)
    bad = Or(eq(d, 0), gt(p, U128))
    small = lt(p, d)
    ok = And(Not(z), Not(bad))
    q = div(p, d) if not (isinstance(d, int) and d == 0) else 0
    return [(z, 0), (And(Not(z), bad), None), (And(ok, small), 1), (And(ok, Not(small)), q)]


for k in RATE:
    Contract(f"fee.{k}", f"fees.{k}", FV + [V("x", 128)], cases=lambda *a, k=k: [(g, None if v is None else ("some", v)) for g, v in fee_cases(k, a[:8], a[8])])


# ------------------------------------------------------------------ P13
def swap_post(i, rs):
    r = rs[0]["ret"]
    calls = rs[0]["calls"]
    out = []
    for gt_, tf in fee_cases("trade", fv(i), i.s):
        for go, of in fee_cases("owner", fv(i), i.s):
            g = And(gt_, go)
            if tf is None or of is None:
                out.append(("a fee that cannot be computed stops the swap", Imp(g, r is None)))
                continue
            total = add(tf, of)
            bad = gt(total, i.s)
            g2 = And(g, Not(bad))
            out.append(("fees above the offer stop the swap", Imp(And(g, bad), r is None)))
            out.append(("the curve sees the offer less fees, and the reserves", Imp(g2, match((("swap_without_fees", sub(i.s, total), i.src, i.dst, i.dir),), calls))))
            if i.resp == "None":
                out.append(("a refusal of the curve stops the swap", Imp(g2, r is None)))
                continue
            used = add(i.u, total)
            fits = And(le(used, U128), le(add(i.src, used), U128), le(i.d, i.dst))
            exp = ("some", dict(new_swap_source_amount=add(i.src, used), new_swap_destination_amount=sub(i.dst, i.d), source_amount_swapped=used, destination_amount_swapped=i.d, trade_fee=tf, owner_fee=of))
            out.append(("reserves, amounts and fees add up", Imp(And(g2, fits), match(exp, r))))
            out.append(("overflow or an insufficient reserve stops the swap", Imp(And(g2, Not(fits)), r is None)))
    return out


RESP = C("resp", ["None", "Some"])
AMT = lambda *n: [V(x, 128, special=(0, 1)) for x in n]
got = ("a result", lambda i, rs: rs[0]["ret"] is not None)
refused = ("a refusal", lambda i, rs: rs[0]["ret"] is None)


def fees_gen(rng, d):
    if rng.random() < 0.8:
        for f in FEES:
            if f.endswith("denominator"):
                d[f] = rng.choice((0, 1, 100, 10000, d[f]))
            else:
                d[f] = rng.choice((0, 1, 25, d[f]))
        for f in d:
            if f not in FEES and isinstance(d[f], int) and rng.random() < 0.7:
                d[f] = d[f] % (1 << rng.randint(1, 64))
    return d


sc_swap = Spec(
    "swap bookkeeping",
    [RESP] + AMT("u", "d") + FV + AMT("s", "src", "dst") + [DIR],
    [lambda i, rs: ("scm.swap", i.resp, i.u, i.d, *fv(i), i.s, i.src, i.dst, i.dir)],
    swap_post,
    uses=("fee.trade", "fee.owner"),
    cover=[got, refused],
    gen=fees_gen,
)
prop("P13", [sc_swap])


# ------------------------------------------------------------------ P14
def single_post(method):
    def post(i, rs):
        r, calls = rs[0]["ret"], rs[0]["calls"]
        z = eq(i.s, 0)
        out = [
            ("nothing converts to nothing", Imp(z, And(match(("some", 0), r), match((), calls)))),
        ]
        half = div(i.s, 2)
        for gh, h in ((ge(half, 1), half), (eq(half, 0), 1)):
            for g0, tf in fee_cases("trade", fv(i), h):
                g = And(Not(z), gh, g0)
                if tf is None:
                    out.append(("a fee that cannot be computed stops the operation", Imp(g, r is None)))
                    continue
                # a deposit buys pool tokens for what the fee leaves, a withdrawal
                # pays pool tokens for what is taken out and for the fee
                dep = method.startswith("deposit")
                fit = le(tf, i.s) if dep else le(add(i.s, tf), U128)
                x = sub(i.s, tf) if dep else add(i.s, tf)
                out.append(("a fee above the amount" if dep else "an overflow", Imp(And(g, Not(fit)), r is None)))
                out.append(("the curve converts the amount less the fee on half of it" if dep else "the curve converts the amount and the fee on half of it", Imp(And(g, fit), match(((method, x, i.a, i.b, i.supply, i.dir),), calls))))
                out.append(("the curve's answer is the result", Imp(And(g, fit), match(None if i.resp == "None" else ("some", i.u), r))))
        return out

    return post


single = [
    Spec(
        nm,
        [RESP] + AMT("u") + FV + AMT("s", "a", "b", "supply") + [DIR],
        [lambda i, rs, k=k: (k, i.resp, i.u, *fv(i), i.s, i.a, i.b, i.supply, i.dir)],
        single_post(m),
        uses=("fee.trade",),
        cover=[got, refused],
        gen=fees_gen,
    )
    for nm, k, m in (("single-sided deposit fee", "scm.dep1", "deposit_single_token_type"), ("single-sided withdrawal fee", "scm.wd1", "withdraw_single_token_type_exact_out"))
]
prop("P14", single)


# ------------------------------------------------------------------ P15
LISTS = ["-"] + [",".join(c) for n in (1, 2, 3) for c in permutations(apis.CTYPES, n)] + [",".join(apis.CTYPES)]
con_curve = Spec(
    "constraint on the curve type",
    [C("t", apis.CTYPES), C("allowed", LISTS)],
    [lambda i, rs: ("con.curve", i.t, i.allowed)],
    lambda i, rs: [("accepted exactly if listed", okk(rs[0]) == (i.t in i.allowed.split(",")))],
    cover=[OK, ERR],
)
GV = [V("c_" + f, 64) for f in FEES]


def con_fees_post(i, rs):
    f, c = fv(i), [getattr(i, "c_" + x) for x in FEES]
    cond = []
    for j in (0, 2, 4):
        cond += [ge(f[j], c[j]), eq(f[j + 1], c[j + 1])]
    cond += [eq(f[6], c[6]), eq(f[7], c[7])]
    return [("accepted exactly when no fee is below the prescription and the host fee is the prescribed one", Iff(okk(rs[0]), And(*cond)))]


def near(rng, d):
    for f in FEES:
        if rng.random() < 0.9:
            d[f] = d["c_" + f] + (rng.choice((0, 0, 0, 1, -1)) if rng.random() < 0.4 else 0)
    return d


con_fees = Spec("constraint on fees", GV + FV, [lambda i, rs: ("con.fees", *[getattr(i, "c_" + x) for x in FEES], *fv(i))], con_fees_post, cover=[OK, ERR], gen=near)
prop("P15", [con_curve, con_fees])
