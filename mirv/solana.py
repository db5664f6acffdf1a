"""The runtime around the program: cross-program calls, program addresses, the
accounts handed to an operation, and contracts of spl_token's account codec.

Trusted: what invoke_signed and the two program-address functions are taken to
do (a recorded call with an arbitrary answer; an arbitrary but fixed function of
its arguments).  Everything else here is proved from the MIR.
"""
from . import terms as T
from .terms import And, Or, Not, Imp, eq, ge, le, lt, add, sub, mul
from . import interp as IP
from .interp import Agg, Arr, En, Obj, P, Poly, Rope, UN, UNIT, Unsupported, ok, err
from .spec import Contract, V, C, api

SPL_ID = int.from_bytes(bytes.fromhex("06ddf6e1d765a193d9cbe146ceeb79ac1cb485ed5f5b37913a8cf5857eff00a9"), "little")
CPA = "anchor_lang::prelude::Pubkey::create_program_address"
FPA = "anchor_lang::prelude::Pubkey::find_program_address"
INVOKE = "solana_program::program::invoke_signed"


def stub(casefn):
    """an abstraction given by cases: casefn(i, *normalised arguments) ->
    [(guard, answer)], exclusive; None for an answer nothing is known about"""

    def f(c, st, H):
        I, br = H.I, H.br
        args = [(st, [])]
        for v, t in zip(c.args, c.argtys):
            args = [(s2, l + [x]) for s, l in args for s2, x in br.norm(s, v, t)]
        out = []
        for s, a in args:
            for g, r in casefn(H.i, *a):
                if g is False:
                    continue
                d = I.decide(s, g)
                if d is False:
                    continue
                s2 = s.copy()
                s2.assume(g)
                if d is None and not I.pv.feasible(s2.pc, True):
                    continue
                out.append((s2, I.fresh(c.retty, "unspecified", s2, deep=True) if r is ANY else br.coerce(s2, r, c.retty)))
        return out

    return f


class _Any:
    pass


ANY = _Any()


# ------------------------------------------------------------ accounts
TOKEN_SEGS = [("mint", 32), ("own", 32), ("amount", 8), ("dtag", 4), ("delegate", 32), ("state", 1), ("ntag", 4), ("native", 8), ("damount", 8), ("ctag", 4), ("close", 32)]
MINT_SEGS = [("atag", 4), ("auth", 32), ("supply", 8), ("decimals", 1), ("init", 1), ("ftag", 4), ("freeze", 32)]
TOKEN_LEN = sum(w for _, w in TOKEN_SEGS)
MINT_LEN = sum(w for _, w in MINT_SEGS)


def account(a):
    """AccountInfo from ("acct", key, owner, segments, length)"""
    _, key, owner, segs, n = a
    return dict(key=key, is_signer=True, is_writable=True, lamports=1, data=("bytes", Rope(segs), n), owner=owner, executable=False, rent_epoch=0)


def accounts(l):
    return ("slice", [account(a) for a in l])


def info_fields(I, t):
    return [f[0] for f in I.ty(t)["v"][0]["f"]]


def info_key(I, st, v, t):
    k = info_fields(I, t).index("key")
    p = v.f[k]
    return I.read(st, p.a, p.p).f[0].int()


def info_data(I, st, v, t):
    """pointer to the bytes of an AccountInfo"""
    rc = v.f[info_fields(I, t).index("data")]
    if not (isinstance(rc, Obj) and rc.k == "rc"):
        raise Unsupported("account data")
    cell = I.read(st, rc.d.a, rc.d.p)
    names = [f[0] for f in I.ty(I.getaty(st, rc.d.a))["v"][0]["f"]]
    return cell.f[names.index("value")].f[0]


def vec_items(I, st, v):
    if not (isinstance(v, Obj) and v.k == "vec"):
        raise Unsupported("vector")
    a, n, et = v.d
    return I.rng(I.getmem(st, a), 0, n), n, et


def fields(I, v, t):
    return dict(zip([f[0] for f in I.ty(t)["v"][0]["f"]], v.f))


def invoke(c, st, H):
    """invoke_signed: the call is recorded, its answer is the input's, and the
    balances of the token accounts handed over are no longer known"""
    I, br, i = H.I, H.br, H.i
    it = I.ty(c.argtys[0])["e"]
    p = c.args[0]
    ins = fields(I, I.read(st, p.a, p.p, it), it)
    fts = dict(I.ty(it)["v"][0]["f"])
    prog = ins["program_id"].f[0].int()
    metas, n, et = vec_items(I, st, ins["accounts"])
    ms = []
    for m in metas.e:
        f = fields(I, m, et)
        ms.append((f["pubkey"].f[0].int(), f["is_signer"], f["is_writable"]))
    data, n, _ = vec_items(I, st, ins["data"])
    kind = data.get(0, 1).int() if n else None
    amount = data.get(1, 8).int() if n == 9 else None
    at = I.ty(I.ty(c.argtys[1])["e"])["e"]
    infos = br.slice(st, c.args[1], I.ty(c.argtys[1])["e"])
    keys = [info_key(I, st, v, at) for v in infos.e]
    if len(c.args) > 2:
        sg = br.norm(st, c.args[2], c.argtys[2])
        if len(sg) != 1:
            raise Unsupported("seeds")
        seeds = tuple(tuple((b[2], b[1].int()) for b in s[1]) for s in sg[0][1][1])
    else:
        seeds = ()
    k = len(st.ghost.get("cpi", ()))
    rec = dict(prog=prog, kind=kind, amount=amount, size=n, metas=tuple(ms), infos=tuple(keys), seeds=seeds)
    st.ghost["cpi"] = st.ghost.get("cpi", ()) + (rec,)
    flag = getattr(i, f"cpi{k}", None)
    if flag is None:
        raise Unsupported("more token program calls than any specified outcome has")
    bad = st.copy()
    out = []
    if I.pv.feasible(bad.pc, eq(flag, 0)):
        bad.assume(eq(flag, 0))
        out.append((bad, br.coerce(bad, ("err", ("Custom", 7)), c.retty)))
    if not I.pv.feasible(st.pc, eq(flag, 1)):
        return out
    st.assume(eq(flag, 1))
    hav = dict(st.ghost.get("havoc", {}))
    for mk, _, w in ms:
        if w is False:
            continue
        for v, key in zip(infos.e, keys):
            if key == mk:
                q = info_data(I, st, v, at)
                buf = I.getmem(st, q.a)
                off = {TOKEN_LEN: 64, MINT_LEN: 36}.get(q.m if isinstance(q.m, int) else None)
                if off is not None:
                    buf = buf.put(off, Rope([(8, T.var("balance", 0, 2**64 - 1))]))
                    st.mem[q.a] = buf
                    hav[q.a] = buf
    st.ghost["havoc"] = hav
    out.append((st, br.coerce(st, ("ok", ()), c.retty)))
    return out


def observe(accounts_arg):
    """result, token program calls, and whether account data was written by
    anything but the token program (and the final bytes of the first account)"""

    def wrap(I, st, mv, r):
        v = mv[accounts_arg]
        at = I.prog.find_adt("::AccountInfo")
        hav = st.ghost.get("havoc", {})
        same = []
        bufs = []
        for a in I.getmem(st, v.a).e:
            q = info_data(I, st, a, at)
            now = I.getmem(st, q.a)
            ini = hav.get(q.a, st.ghost["mem0"][q.a])
            same.append(now.s == ini.s)
            bufs.append(now)
        return dict(ret=r, trace=st.ghost.get("cpi", ()), same=tuple(same), data=bufs[0] if bufs else None)

    return wrap


# ---------------------------------------- contracts of spl_token's account codec
def _argmap(segs, total):
    def f(b):
        _, rope, n = b
        if isinstance(n, int) and n == total:
            out, off = ["exact"], 0
            for _, w in segs:
                out.append(rope.get(off, w).int())
                off += w
            return out + [0]
        return ["other"] + [0] * len(segs) + [n]

    return f


def _bytes(segs):
    def f(case, *a):
        if case == "exact":
            return [("bytes", Rope([(w, v) for (_, w), v in zip(segs, a)]), sum(w for _, w in segs))]
        return [("bytes", Rope([(1, a[0])]), a[-1])]

    return f


def opt(tag, v):
    return ("symenum", tag, {"None": (0,), "Some": (1, v)})


BADDATA = ("err", "InvalidAccountData")


def token_ok(t):
    """bytes of a token account the token program wrote"""
    return And(le(t["dtag"], 1), le(t["ntag"], 1), le(t["ctag"], 1), ge(t["state"], 1), le(t["state"], 2))


def mint_ok(t):
    return And(le(t["atag"], 1), le(t["ftag"], 1), eq(t["init"], 1))


def token_cases(case, *a):
    if case == "other":
        return [(True, BADDATA)]
    t = dict(zip([n for n, _ in TOKEN_SEGS], a))
    good = And(le(t["dtag"], 1), le(t["ntag"], 1), le(t["ctag"], 1), le(t["state"], 2))
    val = dict(mint=t["mint"], owner=t["own"], amount=t["amount"], delegate=opt(t["dtag"], t["delegate"]), state=("symenum", t["state"], {"Initialized": (1,), "Frozen": (2,)}), is_native=opt(t["ntag"], t["native"]), delegated_amount=t["damount"], close_authority=opt(t["ctag"], t["close"]))
    return [(Not(good), BADDATA), (And(good, eq(t["state"], 0)), ("err", "UninitializedAccount")), (And(good, ge(t["state"], 1)), ("ok", val))]


def mint_cases(case, *a):
    if case == "other":
        return [(True, BADDATA)]
    t = dict(zip([n for n, _ in MINT_SEGS], a))
    good = And(le(t["atag"], 1), le(t["ftag"], 1), le(t["init"], 1))
    val = dict(mint_authority=opt(t["atag"], t["auth"]), supply=t["supply"], decimals=t["decimals"], is_initialized=True, freeze_authority=opt(t["ftag"], t["freeze"]))
    return [(Not(good), BADDATA), (And(good, eq(t["init"], 0)), ("err", "UninitializedAccount")), (And(good, eq(t["init"], 1)), ("ok", val))]


for nm, adt, segs, total, cases in (("token", "Account", TOKEN_SEGS, TOKEN_LEN, token_cases), ("mint", "Mint", MINT_SEGS, MINT_LEN, mint_cases)):
    api(f"spl.{nm}", f"<spl_token::state::{adt} as solana_program::program_pack::Pack>::unpack", _bytes(segs))
    Contract(
        f"spl.{nm}",
        f"spl.{nm}",
        [C("case", ["exact", "other"])] + [V(n, 8 * w) for n, w in segs] + [V("length", lo=0, hi=2**20)],
        cases=cases,
        pre=lambda *a, total=total: True if a[0] == "exact" else Or(le(a[-1], total - 1), ge(a[-1], total + 1)),
        argmap=_argmap(segs, total),
    )
