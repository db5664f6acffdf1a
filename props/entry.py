"""P25: from instruction data to the operation."""
import hashlib, random
from .common import *
from .apis import KIND_TYPE
from mirv import solana as SOL
from mirv.solana import stub
from mirv.interp import Rope, Unsupported
from mirv.spec import api

PROC = "token_bonding_curve::processor::Processor::"


def sighash(n):
    return int.from_bytes(hashlib.sha256(b"global:" + n.encode()).digest()[:8], "little")


IDL_TAG = int.from_bytes(hashlib.sha256(b"anchor:idl").digest()[:8], "big")
# instruction: (operation, number of amounts, accounts, signers, writable)
I = dict(
    initialize_constant_price=("process_initialize", 9, 8, (0,), (0, 4, 6)),
    initialize_linear_price=("process_initialize", 4, 8, (0,), (0, 4, 6)),
    swap=("process_swap", 2, 10, (2,), (3, 4, 5, 6, 7, 8)),
    deposit_all_token_types=("process_deposit_all_token_types", 3, 10, (2,), (3, 4, 5, 6, 7, 8)),
    withdraw_all_token_types=("process_withdraw_all_token_types", 3, 11, (2,), (3, 4, 5, 6, 7, 8, 9)),
    deposit_single_token_type_exact_amount_in=("process_deposit_single_token_type_exact_amount_in", 2, 9, (2,), (3, 4, 5, 6, 7)),
    withdraw_single_token_type_exact_amount_out=("process_withdraw_single_token_type_exact_amount_out", 2, 10, (2,), (3, 4, 5, 6, 7, 8)),
)
MAXACC = 12
ARGS = [f"x{k}" for k in range(9)]
SHAPES = []
for n, (op, na, nacc, sg, wr) in I.items():
    SHAPES += [f"{n} {nacc} full", f"{n} {nacc + 1} full", f"{n} {nacc - 1} full", f"{n} 0 full", f"{n} {nacc} short"]
SHAPES += ["other 12 full", "other 12 tag", "other 12 empty"]


def shape(i):
    n, k, d = i.shape.split(" ")
    return n, int(k), d


def data(i):
    n, k, d = shape(i)
    h = i.tag if n == "other" else sighash(n)
    xs = [getattr(i, a) for a in ARGS]
    if d == "empty":
        segs = [(4, 0), (3, 0)]
    elif d == "tag":
        segs = [(8, h)]
    else:
        m = 9 if n == "other" else I[n][1]
        segs = [(8, h)] + [(8, x) for x in xs[:m]]
        if d == "short":
            segs = segs[:-1] + [(4, 1), (3, 2)]
    return ("bytes", Rope(segs), sum(w for w, _ in segs))


def account(i, k):
    a = SOL.account(("acct", getattr(i, f"key{k}"), getattr(i, f"owner{k}"), [(1, k)], 1))
    a["is_signer"] = eq(getattr(i, f"sig{k}"), 1)
    a["is_writable"] = eq(getattr(i, f"wri{k}"), 1)
    return a


def build(i):
    return [i.program, ("slice", [account(i, k) for k in range(shape(i)[1])]), data(i)]


def operation(name):
    """what an operation was called with; it answers as it likes"""

    def f(c, st, H):
        Ip, br, i = H.I, H.br, H.i
        rec = dict(op=name, amounts=[], accounts=(), extra=[])
        outs = [(st, [])]
        for v, t in zip(c.args, c.argtys):
            x = Ip.ty(t)
            inner = Ip.ty(x["e"]) if x["k"] == "ref" else None
            if inner is not None and inner["k"] == "slice" and "AccountInfo" in inner["s"]:
                at = inner["e"]
                infos = br.slice(st, v, x["e"])
                rec["accounts"] = tuple(acct_id(Ip, st, a, at) for a in infos.e)
                continue
            outs = [(s2, l + [n]) for s, l in outs for s2, n in br.norm(s, v, t)]
        res = []
        for s, l in outs:
            s.ghost["ops"] = s.ghost.get("ops", ()) + (dict(rec, args=tuple(l)),)
            for g, r in ((eq(i.o_ok, 1), ("ok", ())), (eq(i.o_ok, 0), ("err", ("Custom", 3)))):
                if Ip.pv.feasible(s.pc, g):
                    s2 = s.copy()
                    s2.assume(g)
                    res.append((s2, br.coerce(s2, r, c.retty)))
        return res

    return f


def acct_id(Ip, st, a, at):
    f = SOL.fields(Ip, a, at)
    own = f["owner"]
    return (SOL.info_key(Ip, st, a, at), Ip.read(st, own.a, own.p).f[0].int(), Ip.read(st, SOL.info_data(Ip, st, a, at).a, ()).s, f["is_signer"], f["is_writable"])


def observed(Ip, st, mv, r):
    return dict(ret=r, ops=st.ghost.get("ops", ()))


api("entry", "token_bonding_curve::entry", build, observed, encode=lambda i: encode(i))


def expected_args(i):
    n = shape(i)[0]
    op, na, nacc, sg, wr = I[n]
    xs = [getattr(i, a) for a in ARGS[:na]]
    if n == "initialize_constant_price":
        return [i.program, dict(zip(FEES, xs[:8])), dict(curve_type=KIND_TYPE["cp"], calculator=("dyn", "ConstantPriceCurve", dict(token_b_price=xs[8]))), None]
    if n == "initialize_linear_price":
        return [i.program, dict(zip(FEES, [0, 1] * 4)), dict(curve_type=KIND_TYPE["lin"], calculator=("dyn", "LinearPriceCurve", dict(zip(("slope_numerator", "slope_denominator", "initial_token_a_price_numerator", "initial_token_a_price_denominator"), xs)))), None]
    return [i.program] + xs


def flags_ok(i, idx, what):
    return And(*[eq(getattr(i, f"{what}{k}"), 1) for k in idx])


def post(i, rs):
    r = rs[0]
    n, k, d = shape(i)
    if "direct" in r:
        return replayed(i, r)
    if n == "other":
        return [("nothing else reaches an operation", len(r["ops"]) == 0), ("nothing else is accepted", errk(r["ret"]))]
    op, na, need, sg, wr = I[n]
    out = []
    if not r["ops"]:
        out.append(("an operation that did not run did not succeed", errk(r["ret"])))
        good = And(k >= need, d == "full", flags_ok(i, sg, "sig"), flags_ok(i, wr, "wri"))
        out.append(("a well-formed instruction is carried out", Not(good)))
        return out
    out.append(("one operation runs", len(r["ops"]) == 1))
    o = r["ops"][0]
    out.append(("it is the named operation", o["op"] == op))
    out.append(("enough accounts and data", k >= need and d == "full"))
    if k < need or d != "full" or o["op"] != op:
        return out
    out.append(("with the required signatures", flags_ok(i, sg, "sig")))
    out.append(("on the amounts of the instruction", match(tuple(expected_args(i)), o["args"])))
    acc = o["accounts"]
    out.append(("on the accounts in their roles", And(len(acc) == need, *[And(eq(a[0], getattr(i, f"key{j}")), eq(a[1], getattr(i, f"owner{j}")), a[2] == Rope([(1, j)]).s) for j, a in enumerate(acc)])))
    out.append(("its answer is the answer", Iff(eq(i.o_ok, 1), okk(r["ret"]))))
    return out


# ------------------------------------------------------------ concrete side
def scene(i):
    """a pool and a user for the instruction, from a seed"""
    from . import proc

    n, k, d = shape(i)
    op = {"process_initialize": proc.init, "process_swap": proc.swap_op, "process_deposit_all_token_types": proc.deposit_all, "process_withdraw_all_token_types": proc.withdraw_all, "process_deposit_single_token_type_exact_amount_in": proc.deposit_one, "process_withdraw_single_token_type_exact_amount_out": proc.withdraw_one}[I[n][0] if n in I else "process_swap"]
    rng = random.Random(i.scene)
    v = {q.name: (q.vals[0] if isinstance(q, C) else 0) for q in op.inputs}
    proc.valid_state(rng, v, op.roles)
    op.gen_(rng, v)
    v["shape"] = str(k)
    return op, Inp(v)


def encode(i):
    from . import proc

    n, k, d = shape(i)
    op, v = scene(i)
    raw = b"".join((x % 2 ** (8 * w)).to_bytes(w, "little") for w, x in ((w, x) for w, x in data(i)[1].s))
    al = proc.accts(v, op.roles)
    out = [v.program, v.pda, v.pda_ok, proc.bump_of(v), i.scene, 1, 1, 1, 1, n, len(I[n]) and I[n][2] if n in I else 0, raw.hex() or "-"]
    out += [getattr(i, a) for a in ARGS] + [getattr(i, f"sig{j}") for j in range(MAXACC)] + [getattr(i, f"wri{j}") for j in range(MAXACC)]
    out.append(len(al))
    for a in al:
        out += proc.enc_acct(a)
    return out


def replayed(i, r):
    """the compiled entry point against the compiled operation"""
    n, k, d = shape(i)
    if n == "other":
        return [("nothing else is accepted", errk(r["ret"]) and not r["trace"])]
    op, na, need, sg, wr = I[n]
    good = And(k >= need, d == "full", flags_ok(i, sg, "sig"), flags_ok(i, wr, "wri"))
    signed = And(k >= need, d == "full", flags_ok(i, sg, "sig"))
    return [("a well-formed instruction has the effect of its operation", Imp(good, r["direct"])), ("enough accounts and data, with the required signatures", Imp(okk(r["ret"]) or bool(r["trace"]), And(signed, r["direct"])))]


def gen(rng, d):
    d["scene"] = rng.getrandbits(32)
    for k in range(MAXACC):
        d[f"sig{k}"] = int(rng.random() < 0.6)
        d[f"wri{k}"] = int(rng.random() < 0.98)
    if rng.random() < 0.8:
        d["sig0"] = d["sig2"] = 1
    q = rng.random()
    n = d["shape"].split(" ")[0]
    for k, a in enumerate(ARGS):
        if q < 0.8:
            d[a] = rng.choice((1000, 20, rng.randint(1, 10**6))) if k == 0 else rng.choice((0, 1, 2**64 - 1, rng.randint(1, 10**6)))
    if n.startswith("deposit") or n.startswith("withdraw_single"):
        d["x1"], d["x2"] = [rng.choice((2**64 - 1, 0, 0 if "deposit_single" in n else 2**64 - 1, 10**6 + rng.randint(0, 9))) for _ in range(2)]
    elif not n.startswith("init") and rng.random() < 0.8:
        d["x1"] = d["x2"] = 0
    if n == "initialize_constant_price":
        for k in (0, 2, 4, 6):
            d[f"x{k}"], d[f"x{k + 1}"] = rng.choice(((0, 0), (0, 1), (1, 3), (2, 7), (3, 10)))
        d["x8"] = rng.choice((0, 1, 2, 3, 77))
    if n == "initialize_linear_price":
        for k in range(4):
            d[f"x{k}"] = rng.choice((0, 1, 2, 3, 5, 1000))
    return d


VARS = [V("program", 256), V("scene", 32), V("tag", 64), V("o_ok", lo=0, hi=1)] + [V(a, 64) for a in ARGS]
for _k in range(MAXACC):
    VARS += [V(f"key{_k}", 256), V(f"owner{_k}", 256), V(f"sig{_k}", lo=0, hi=1), V(f"wri{_k}", lo=0, hi=1)]


def pre(i):
    if shape(i)[0] != "other":
        return True
    return And(*[ne(i.tag, sighash(n)) for n in I], ne(i.tag, IDL_TAG), ne(i.tag, 0))


OPS = sorted({v[0] for v in I.values()})
dispatch = Spec(
    "instructions",
    [C("shape", SHAPES)] + VARS,
    [lambda i, rs: ("entry", i)],
    post,
    pre=pre,
    stubs={PROC + o: operation(o) for o in OPS},
    cover=[("done", lambda i, rs: okk(rs[0]["ret"])), ("refused", lambda i, rs: errk(rs[0]["ret"]))],
    gen=gen,
    samples=1500,
    panic="violation",
)
prop("P25", [dispatch])
