"""Stored pool state (P16, P17)."""
from .common import *
from .apis import KEYS, KIND_TYPE, KIND_TAG, KIND_ADT, LEN, W324, GETTERS, state_val

KIND = C("kind", list(KIND_TYPE))
PAR = ["p0", "p1", "p2", "p3"]
NPAR = {k: len(v[1]) for k, v in CURVES.items()}
STATE = [C("init", [False, True]), V("bump", 8)] + [V(k, 256) for k in KEYS] + FV + [KIND] + [V(p, 64) for p in PAR]


def sargs(i):
    return [i.init, i.bump] + [getattr(i, k) for k in KEYS] + fv(i) + [i.kind] + [getattr(i, p) for p in PAR[: NPAR[i.kind]]]


def field(b, off, n):
    """n bytes of a buffer at off, as a little-endian number"""
    if isinstance(b, str):
        return int.from_bytes(bytes.fromhex(b)[off : off + n], "little")
    return b.get(off, n).int()


def expect(i):
    d = state_val(*sargs(i))
    c = d["swap_curve"]["calculator"]
    d["swap_curve"]["calculator"] = ("dyn", KIND_ADT[i.kind], c[2])
    return d


def layout(i):
    """offset, width, value of every field"""
    vals = [1, int(i.init), i.bump] + [getattr(i, k) for k in KEYS] + fv(i) + [KIND_TAG[i.kind]] + [getattr(i, p) for p in PAR[: NPAR[i.kind]]]
    names = ["version", "initialised flag", "nonce"] + KEYS + apis.FEES + ["curve type"] + [f"curve parameter {j}" for j in range(4)]
    out, off = [], 0
    for w, v, n in zip(W324, vals, names):
        out.append((n, off, w, v))
        off += w
    return out


def pack_post(i, rs):
    r = rs[0]
    out = [("packing succeeds", okk(r["ret"]))]
    for n, off, w, v in layout(i):
        out.append((f"{n} is stored in its place", eq(field(r["buf"], off, w), v)))
    if len(rs) > 1:
        out.append(("reading back succeeds", okk(rs[1])))
        if okk(rs[1]):
            got = rs[1][1]
            exp = expect(i)
            if got[1] != "SwapV1":
                return out + [("state of the same version", False)]
            for k in exp:
                out.append((f"{k} survives", match(exp[k], got[2][k])))
    return out


roundtrip = Spec(
    "state round trip",
    STATE + [V("old", 8 * LEN)],
    [
        lambda i, rs: ("st.pack", *sargs(i), i.old),
        # an uninitialised state is refused on reading (P17)
        lambda i, rs: ("st.unpack", rs[0]["buf"]) if i.init and okk(rs[0]["ret"]) else None,
    ],
    pack_post,
    cover=[("read back", lambda i, rs: len(rs) == 2 and okk(rs[1]))],
)


def get_post(g):
    f = {"token_a_account": "token_a", "token_b_account": "token_b"}.get(g, g)
    return lambda i, rs: [(f"{g} is the stored one", match(expect(i)[f], rs[0]))]


getters = [Spec(f"state accessor {g}", STATE, [lambda i, rs, g=g: (f"st.get.{g}", *sargs(i))], get_post(g), samples=40) for g in GETTERS]
prop("P16", [roundtrip] + getters)


# ------------------------------------------------------------------- P17
RAW = [V("version", 8, special=(0, 1, 2)), V("init", 8, special=(0, 1, 2)), V("bump", 8)] + [V(k, 256) for k in KEYS] + FV + [V("tag", 8, special=(0, 1, 2, 3, 4, 29, 30, 31))] + [V(p, 64) for p in PAR]


def rargs(i):
    if i.case == "exact":
        return ["exact", i.version, i.init, i.bump] + [getattr(i, k) for k in KEYS] + fv(i) + [i.tag] + [getattr(i, p) for p in PAR]
    if i.case == "empty":
        return ["empty"]
    return ["other", i.version, i.length]


def raw_ok(i):
    return And(eq(i.version, 1), le(i.init, 1), Or(*[eq(i.tag, t) for t in KIND_TAG.values()]))


def decode_post(i, rs):
    r = rs[0]
    if i.case != "exact":
        return [("wrong length is rejected", errk(r))]
    # unpacking additionally refuses states whose flag is not set
    out = [("accepted exactly if version, flag and curve type are valid", Iff(okk(r), And(raw_ok(i), eq(i.init, 1))))]
    if okk(r):
        got = r[1][2]
        out.append(("decoded as version 1", r[1][1] == "SwapV1"))
        for n, f in [("bump_seed", i.bump)] + [(k, getattr(i, k)) for k in KEYS]:
            out.append((f"{n} is read from its place", match(f, got[n])))
        for f in apis.FEES:
            out.append((f"{f} is read from its place", match(getattr(i, f), got["fees"][f])))
        sc = got["swap_curve"]
        for k, t in KIND_TAG.items():
            if sc["curve_type"] == KIND_TYPE[k]:
                out.append(("curve type matches its tag", eq(i.tag, t)))
                out.append(("the calculator is of that type", sc["calculator"][1] == KIND_ADT[k]))
                for p, f in zip(PAR, CURVES[k][1]):
                    out.append((f"curve parameter {f} is read from its place", match(getattr(i, p), sc["calculator"][2].get(f))))
    return out


def isinit_post(i, rs):
    if i.case != "exact":
        return [("not initialised", Not(rs[0]))]
    return [("initialised exactly if valid and flagged", Iff(rs[0], And(raw_ok(i), eq(i.init, 1))))]


CASE = C("case", ["exact", "empty", "other"])
LENV = V("length", lo=1, hi=2**20, special=(1, 2, 323, 325, 66, 33))


def raw_gen(rng, d):
    if rng.random() < 0.8:
        d["version"] = rng.choice((1, 1, 1, 0, 2))
        d["init"] = rng.choice((1, 1, 1, 0, 2, 255))
        d["tag"] = rng.choice((0, 1, 2, 3, 30, 4, 31))
        d["length"] = rng.choice((1, 2, 100, 322, 323, 325, 326, 648))
    return d


notlen = lambda i: ne(i.length, LEN)
decode = Spec("decoding", [CASE] + RAW + [LENV], [lambda i, rs: ("st.decode", *rargs(i))], decode_post, pre=notlen, cover=[OK, ERR], gen=raw_gen)
isinit = Spec("initialised check", [CASE] + RAW + [LENV], [lambda i, rs: ("st.isinit", *rargs(i))], isinit_post, pre=notlen, cover=[("yes", reached(lambda r: r is not False)), ("no", reached(lambda r: r is not True))], gen=raw_gen)
prop("P17", [decode, isinit])
