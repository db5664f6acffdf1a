"""The operations on accounts (P18-P24): which accounts they accept, what they
ask the token program to do.

Abstractions used here and where they are characterised: SwapVersion::unpack
(P16, P17), SwapCurve::* (P13, P14), fees (P12), the curves (P01-P11)."""
from .common import *
from .apis import KEYS, KIND_TAG, KIND_TYPE, LEN, W324
from .swapcurve import fee_cases
from mirv import solana as SOL, interp as IP
from mirv.interp import Rope
from mirv.solana import stub, ANY, TOKEN_SEGS, MINT_SEGS, TOKEN_LEN, MINT_LEN, SPL_ID, token_ok, mint_ok
from mirv.spec import api

PROC = "token_bonding_curve::processor::Processor::"
STN = "token_bonding_curve::state::SwapVersion::"
SCN = "token_bonding_curve::curve::base::SwapCurve::"
PAR = ["p0", "p1", "p2", "p3"]
TRANSFER, MINT_TO, BURN = 3, 7, 8

def short(i):
    """the role whose account data is cut short, if any"""
    return i.shape.split(" ")[1] if " " in i.shape else None


def nacc(i):
    return int(i.shape.split(" ")[0])


# what each role of an account holds
KINDS = dict(swap="state", authority="plain", uta="plain", token_program="plain", pool_mint="mint")


def role_kind(r):
    return KINDS.get(r, "token")


def role_vars(r):
    k = role_kind(r)
    out = [V(f"{r}_key", 256), V(f"{r}_owner", 256)]
    if k in ("token", "mint"):
        for n, w in TOKEN_SEGS if k == "token" else MINT_SEGS:
            out.append(V(f"{r}_{n}", 8 * w, special=(0, 1, 2)))
    return out


STATE_VARS = [V("version", 8), V("init", 8), V("bump", 8)] + [V(k, 256) for k in KEYS] + FV + [V("tag", 8)] + [V(p, 64) for p in PAR]
BASE_VARS = [V("program", 256), V("pda", 256), V("pda_ok", lo=0, hi=1), V("hv", 32)] + [V(f"cpi{k}", lo=0, hi=1) for k in range(4)]


def fields_of(i, r):
    segs = TOKEN_SEGS if role_kind(r) == "token" else MINT_SEGS
    return {n: getattr(i, f"{r}_{n}") for n, _ in segs}


def state_segs(i):
    return list(zip(W324, [i.version, i.init, i.bump] + [getattr(i, k) for k in KEYS] + fv(i) + [i.tag] + [getattr(i, p) for p in PAR]))


def acct(i, r):
    k = role_kind(r)
    if short(i) == r:
        segs = [(1, 1)]
    elif k == "state":
        segs = state_segs(i)
    elif k == "plain":
        segs = []
    else:
        segs = [(w, getattr(i, f"{r}_{n}")) for n, w in (TOKEN_SEGS if k == "token" else MINT_SEGS)]
    return ("acct", getattr(i, f"{r}_key"), getattr(i, f"{r}_owner"), segs, sum(w for w, _ in segs))


def accts(i, roles):
    return [acct(i, r) for r in roles[: nacc(i)]]


# ------------------------------------------------------------ abstractions
def state_ok(i):
    return And(short(i) != "swap", eq(i.version, 1), eq(i.init, 1), Or(*[eq(i.tag, t) for t in KIND_TAG.values()]))


def curve_type(tag):
    return ("symenum", tag, {KIND_TYPE[k]: (t,) for k, t in KIND_TAG.items()})


def unpack_stub(mock):
    def cases(i, b):
        _, rope, n = b
        if not (isinstance(n, int) and n == LEN):
            return [(True, ("err", "InvalidAccountData"))]
        v, off = [], 0
        for w in W324:
            v.append(rope.get(off, w).int())
            off += w
        good = And(eq(v[0], 1), eq(v[1], 1), Or(*[eq(v[18], t) for t in KIND_TAG.values()]))
        d = dict(is_initialized=True, bump_seed=v[2], fees=dict(zip(FEES, v[10:18])), swap_curve=dict(curve_type=curve_type(v[18]), calculator=("dyn", "$mock", mock(i))))
        d.update(zip(KEYS, v[3:10]))
        return [(Not(good), ("err", "InvalidAccountData")), (good, ("ok", ("dyn", "SwapV1", d)))]

    return stub(cases)


def cpa_cases(i, seeds, prog):
    """the pool's derived authority; other seeds give nobody knows what"""
    s = [(n, r.int()) for _, r, n in seeds[1]]
    if len(s) == 2 and s[0][0] == 32 and s[1][0] == 1:
        g = And(eq(s[0][1], i.swap_key), eq(s[1][1], i.bump), eq(prog, i.program))
    else:
        g = False
    return [(And(g, eq(i.pda_ok, 1)), ("ok", i.pda)), (And(g, eq(i.pda_ok, 0)), ("err", "InvalidSeeds")), (Not(g), ANY)]


def same_curve(sc):
    return isinstance(sc, dict) and isinstance(sc.get("calculator"), tuple) and sc["calculator"][0] == "mock"


def same_fees(i, f):
    return And(*[eq(getattr(i, k), f[k]) for k in FEES])


def oracle(expected, flag, answer):
    """an uninterpreted function of the curve, known at the specified arguments"""

    def cases(i, *a):
        g = expected(i, *a)
        return [(And(g, eq(flag(i), 1)), ("some", answer(i))), (And(g, eq(flag(i), 0)), None), (Not(g), ANY)]

    return stub(cases)


BASE_STUBS = {SOL.INVOKE: SOL.invoke, SOL.CPA: stub(cpa_cases)}
USES = ("spl.token", "spl.mint")


# ------------------------------------------------------------ what is expected
def call(kind, amount, metas, pda):
    return dict(kind=kind, amount=amount, metas=metas, pda=pda)


def transfer(src, dst, auth, amount, pda=False):
    return call(TRANSFER, amount, ((src, False, True), (dst, False, True), (auth, True, False)), pda)


def mint_to(mint, dst, auth, amount):
    return call(MINT_TO, amount, ((mint, False, True), (dst, False, True), (auth, True, False)), True)


def burn(acc, mint, auth, amount):
    return call(BURN, amount, ((acc, False, True), (mint, False, True), (auth, True, False)), False)


def cpi_match(i, e, g, amounts=True):
    if g["kind"] != e["kind"] or len(g["metas"]) != len(e["metas"]):
        return False
    fs = [eq(g["prog"], SPL_ID)]
    if amounts:
        fs.append(eq(g["amount"], e["amount"]))
    for (k, s, w), (k2, s2, w2) in zip(e["metas"], g["metas"]):
        if (s, w) != (s2, w2):
            return False
        fs.append(eq(k, k2))
        fs.append(Or(*[eq(k, x) for x in g["infos"]]))
    fs.append(Or(*[eq(i.token_program_key, x) for x in g["infos"]]))
    # a call signed for the pool, and any call signed at all, carries the pool's seeds
    if e["pda"] or g["seeds"]:
        if tuple(tuple(b[0] for b in s) for s in g["seeds"]) != ((32, 1),):
            return False
        fs += [eq(g["seeds"][0][0][1], i.swap_key), eq(g["seeds"][0][1][1], bump_of(i))]
    return And(*fs)


def bump_of(i):
    return i.new_bump if hasattr(i, 'new_bump') else i.bump


def trace_match(i, exp, got, amounts=True):
    """the calls made are the expected ones (in any order)"""
    if len(exp) != len(got):
        return False
    return And(*[Or(*[cpi_match(i, e, g, amounts) for g in got]) for e in exp])


def fits64(x):
    return le(x, U64)


def cpis_ok(i, r):
    return And(*[eq(getattr(i, f"cpi{k}"), 1) for k in range(len(r["trace"]))])


def is_token(i, r):
    """an account the pool's token program recognises as a token account"""
    return And(short(i) != r, eq(getattr(i, f"{r}_owner"), i.token_program_id), token_ok(fields_of(i, r)))


def is_mint(i, r):
    return And(short(i) != r, eq(getattr(i, f"{r}_owner"), i.token_program_id), mint_ok(fields_of(i, r)))


def frame(r, but=()):
    return all(x for k, x in enumerate(r["same"]) if k not in but)


# ------------------------------------------------------------ concrete side
FIXED = [SPL_ID]


def enc_acct(a):
    _, key, owner, segs, n = a
    out = [key, owner]
    for w, v in segs:
        out.append(f"k{v}" if w == 32 else f"{w}:{v}")
    return out + ["."]


def encode(i, roles, extra):
    out = [i.program, i.pda, i.pda_ok, bump_of(i), i.hv] + [getattr(i, f"cpi{k}") for k in range(4)] + list(extra)
    al = accts(i, roles)
    out.append(len(al))
    for a in al:
        out += enc_acct(a)
    return out


def curve_req(i):
    return [i.tag] + [getattr(i, p) for p in PAR] + fv(i)


def valid_state(rng, d, roles):
    """a consistent pool, before anything is disturbed"""
    ks = {}

    def k(n):
        if n not in ks:
            ks[n] = rng.getrandbits(200) + 5
        return ks[n]

    d["program"], d["pda"], d["pda_ok"] = k("program"), k("pda"), 1
    d["version"], d["init"], d["bump"] = 1, 1, rng.choice((255, 254, 253))
    for c in range(4):
        d[f"cpi{c}"] = 1
    d["token_program_id"] = SPL_ID
    for n in KEYS[1:]:
        d[n] = k(n)
    d["tag"] = rng.choice((0, 1, 3, 30, 30, 2))
    if d["tag"] == 30:
        d["p0"], d["p1"], d["p2"], d["p3"] = rng.choice(((1, 2, 150, 1), (1, 1000, 3, 2), (5, 1, 0, 1)))
    elif d["tag"] in (1, 3, 2):
        d["p0"] = rng.choice((1, 2, 100, 1000))
    for a, b in ((0, 1), (2, 3), (4, 5), (6, 7)):
        d[FEES[a]], d[FEES[b]] = rng.choice(((0, 0), (0, 1), (1, 100), (25, 10000), (3, 10)))
    for r in roles:
        d[f"{r}_key"] = k(r)
        kd = role_kind(r)
        if kd == "state":
            d[f"{r}_owner"] = d["program"]
        elif kd != "plain":
            d[f"{r}_owner"] = SPL_ID
        if kd == "token":
            d.update({f"{r}_dtag": 0, f"{r}_ntag": 0, f"{r}_ctag": 0, f"{r}_state": 1, f"{r}_amount": rng.randint(1, 10 ** rng.randint(3, 12)), f"{r}_own": k("somebody")})
        if kd == "token":
            for n in ("delegate", "close"):
                if f"{r}_{n}" in d and rng.random() < 0.5:
                    d[f"{r}_{n}"] = rng.choice((d["pda"], k("somebody"), d[f"{r}_own"]))
        if kd == "mint":
            if rng.random() < 0.5:
                d[f"{r}_freeze"] = rng.choice((d["pda"], k("somebody")))
            d.update({f"{r}_atag": 1, f"{r}_auth": d["pda"], f"{r}_ftag": 0, f"{r}_init": 1, f"{r}_supply": rng.choice((0, 10**9, 10**6, rng.randint(1, 10**12)))})
    d["authority_key"] = d["pda"]
    for r in roles:
        if role_kind(r) == "plain" and rng.random() < 0.3:
            d[f"{r}_owner"] = rng.choice((d["pda"], SPL_ID, d["program"], d["token_b"]))
    d["token_program_key"] = SPL_ID
    d["pool_mint_key"] = d["pool_mint"]
    return k


def is_key(n):
    return n.endswith("_key") or n.endswith("_owner") or n in KEYS or n.endswith("_mint") or n in ("program", "pda") or n.endswith("_own")


def disturb(rng, d, names, roles):
    """break (at most) a few of the named values, by a neighbour or noise"""
    q = rng.random()
    if q < 0.35:
        return
    for _ in range(1 if q < 0.85 else 2):
        n = rng.choice(names)
        if is_key(n):
            pool = [d[x] for x in d if x in KEYS or x.endswith("_key") or x in ("pda", "program")]
            d[n] = rng.choice(pool + [rng.getrandbits(256), SPL_ID])
        else:
            d[n] = rng.choice((0, 1, 2, 3, d[n] + 1, max(0, d[n] - 1), d[n] * 2))



def singles(rng, d, names):
    """names: with the largest value each may have"""
    pool = sorted({d[x] for x in d if x in KEYS or x.endswith("_key") or x == "pda"})
    out = []
    for n, hi in names:
        if is_key(n):
            vals = pool + [rng.getrandbits(256), SPL_ID] if n.endswith("_key") else rng.sample(pool, min(3, len(pool))) + [rng.getrandbits(256)]
        else:
            vals = {0, 1, 2, d[n] + 1, max(0, d[n] - 1)}
        out += [dict(d, **{n: v}) for v in vals if v != d[n] and v <= hi]
        if is_key(n):
            # ... and the address changed everywhere but there
            w = rng.getrandbits(256)
            same = [x for x, h in names if is_key(x) and x != n and d[x] == d[n] and w <= h]
            if same:
                out.append(dict(d, **{x: w for x in same}))
    return out


class Op:
    """one operation on accounts.

    ident(i): what must hold of the accounts, [(label, formula)]
    amounts(i): what must hold of the amounts, [(label, formula)]
    plans(i): what is asked of the token program, [(guard, calls)]
    """

    def __init__(self, key, fn, roles, need, args, oracles, stubs, ident, amounts, plans, extra, gen, shapes, uses=(), lead=None, nlead=0, trail=None, statevars=True):
        self.key, self.roles, self.need = key, roles, need
        self.ident, self.amounts, self.plans, self.gen_ = ident, amounts, plans, gen
        self.inputs = [C("shape", [str(n) for n in shapes] + [f"{need} {r}" for r in roles if role_kind(r) != "plain"])] + BASE_VARS + (STATE_VARS if statevars else [])
        for r in roles:
            self.inputs += role_vars(r)
        self.inputs += [V(a, 64) for a in args] + oracles
        self.stubs = dict(BASE_STUBS, **stubs)
        self.uses = USES + tuple(uses)
        self.args = list(args)
        build = lambda i: [i.program] + (lead(i) if lead else []) + [getattr(i, a) for a in args] + [SOL.accounts(accts(i, roles))] + (trail(i) if trail else [])
        api(key, PROC + fn, build, SOL.observe(1 + nlead + len(args)), encode=lambda i: encode(i, roles, extra(i)))

    def step(self):
        return lambda i, rs: (self.key, i)

    def all_ident(self, i):
        return [("enough accounts", nacc(i) >= self.need)] + self.ident(i)

    def gen(self):
        names = [v.name for v in self.inputs if isinstance(v, V) and not v.name.startswith("o_") and v.name not in ("hv", "program")]
        likely = [n for n in names if n.endswith("_key") or n.endswith("_owner") or n in KEYS or n in self.args]

        def g(rng, d):
            valid_state(rng, d, self.roles)
            self.gen_(rng, d)
            disturb(rng, d, likely if rng.random() < 0.7 else names, self.roles)
            return d

        return g

    def idents(self):
        def post(i, rs):
            r = rs[0]
            if not okk(r["ret"]):
                return []
            out = list(self.all_ident(i))
            out.append(("only the token program changes account data", self.frame(i, r)))
            for g, tr in self.plans(i):
                out.append(("only the pool's and the user's accounts are used, under the right authority", Imp(g, trace_match(i, tr, r["trace"], False))))
            return out

        return post

    def refine(self):
        """runs again with the limits near what the curve answered"""
        lim = [a for a in self.args if a != "amount"]
        names = [(v.name, v.hi) for v in self.inputs if isinstance(v, V) and not v.name.startswith("o_") and v.name not in ("hv", "program")]
        seen = {}

        def g(rng, d, rs):
            if rs and isinstance(rs[0], dict) and okk(rs[0]["ret"]):
                # each single change of a call that succeeds
                k = (d["shape"], d.get("tag"))
                seen[k] = seen.get(k, 0) + 1
                if seen[k] == 1 and len(seen) <= 6:
                    return singles(rng, d, names)
            o = rs[0].get("oracle") if rs and isinstance(rs[0], dict) else None
            if not o or not lim:
                return None
            have = [v for k, v in o.items() if isinstance(v, int) and v > 1] + [d[k] for k in d if k.endswith("_amount") or k.endswith("_supply") or k == "amount"]
            d = dict(d)
            for a in lim:
                if rng.random() < 0.3:
                    continue
                x, y = rng.choice(have), rng.choice(have)
                d[a] = rng.choice((x + rng.randint(-1, 1), rng.randint(min(x, y), max(x, y)), x + rng.randint(0, x // 5 + 2), max(0, x - rng.randint(0, x // 5 + 2))))
                d[a] = min(U64, max(0, d[a]))
            return d

        return g

    def frame(self, i, r):
        return frame(r)

    def moves(self):
        def post(i, rs):
            r = rs[0]
            am = self.amounts(i)
            if okk(r["ret"]):
                out = [(k, f) for k, f in am]
                out.append(("every token program call succeeded", cpis_ok(i, r)))
                out.append(("only the token program changes account data", self.frame(i, r)))
                for g, tr in self.plans(i):
                    out.append(("exactly the calculated amounts are moved", Imp(g, trace_match(i, tr, r["trace"]))))
                return out + self.final(i, r)
            n = max([len(tr) for _, tr in self.plans(i)] or [0])
            return [("a valid request is not refused", Not(And(*[f for _, f in self.all_ident(i) + am], *[eq(getattr(i, f"cpi{k}"), 1) for k in range(n)])))]

        return post

    def final(self, i, r):
        return []

    def both(self):
        a, b = self.idents(), self.moves()
        return lambda i, rs: a(i, rs) + b(i, rs)

    def spec(self, name, post, **kw):
        return Spec(name, self.inputs, [self.step()], post, uses=self.uses, stubs=self.stubs, cover=[("done", lambda i, rs: okk(rs[0]["ret"])), ("refused", lambda i, rs: errk(rs[0]["ret"]))], gen=self.gen(), refine=self.refine(), panic="violation", **kw)


def A(i, r):
    return getattr(i, f"{r}_key")


def is_pool(i):
    """the pool's own state and authority"""
    return [
        ("the pool belongs to this program", eq(i.swap_owner, i.program)),
        ("the pool is initialised and readable", state_ok(i)),
        ("the authority is the pool's derived one", And(eq(i.pda_ok, 1), eq(i.authority_key, i.pda))),
        ("the pool mint is the recorded one", eq(i.pool_mint_key, i.pool_mint)),
        ("the token program is the recorded one", eq(i.token_program_key, i.token_program_id)),
        ("the token program is the SPL token program", eq(i.token_program_key, SPL_ID)),
        ("the pool mint is readable", is_mint(i, "pool_mint")),
    ]


# ------------------------------------------------------------------ swap
SWAP_ROLES = ["swap", "authority", "uta", "source", "swap_source", "swap_destination", "destination", "pool_mint", "pool_fee", "token_program", "host"]
a_to_b = lambda i: eq(i.swap_source_key, i.token_a)


def swap_ident(i):
    return is_pool(i) + [
        ("the source reserve is one of the pool's", Or(eq(i.swap_source_key, i.token_a), eq(i.swap_source_key, i.token_b))),
        ("the destination reserve is one of the pool's", Or(eq(i.swap_destination_key, i.token_a), eq(i.swap_destination_key, i.token_b))),
        ("the reserves differ", ne(i.swap_source_key, i.swap_destination_key)),
        ("the source reserve is not the user's account", ne(i.swap_source_key, i.source_key)),
        ("the destination reserve is not the user's account", ne(i.swap_destination_key, i.destination_key)),
        ("the fee account is the recorded one", eq(i.pool_fee_key, i.pool_fee_account)),
        ("the source reserve is readable", is_token(i, "swap_source")),
        ("the destination reserve is readable", is_token(i, "swap_destination")),
        ("the host account is a pool token account", Imp(And(host_given(i), eq(i.o_swap_ok, 1), eq(i.o_conv_ok, 1), ge(i.o_conv, 1)), And(is_token(i, "host"), eq(i.host_mint, i.pool_mint_key)))),
    ]


def host_given(i):
    return nacc(i) >= 11


def swap_amounts(i):
    out = [
        ("the curve agrees", eq(i.o_swap_ok, 1)),
        ("at least the minimum is paid", ge(i.o_dst_amt, i.minimum)),
        ("the amounts fit", And(fits64(i.o_src_amt), fits64(i.o_dst_amt))),
        ("the owner fee converts", eq(i.o_conv_ok, 1)),
    ]
    pos = ge(i.o_conv, 1)
    if not host_given(i):
        out.append(("the owner fee fits", fits64(i.o_conv)))
        return out
    for g, hf in fee_cases("host", fv(i), i.o_conv):
        if hf is None:
            out.append(("the host fee is computable", Imp(pos, Not(g))))
        else:
            out.append(("the fees fit", Imp(And(pos, g), And(le(hf, i.o_conv), fits64(hf), fits64(sub(i.o_conv, hf))))))
    return out


def swap_plans(i):
    tin = transfer(i.source_key, i.swap_source_key, i.uta_key, i.o_src_amt)
    tout = transfer(i.swap_destination_key, i.destination_key, i.authority_key, i.o_dst_amt, True)
    fee = lambda to, x: mint_to(i.pool_mint_key, to, i.authority_key, x)
    pos = ge(i.o_conv, 1)
    out = [(Not(pos), [tin, tout])]
    if not host_given(i):
        return out + [(pos, [tin, fee(i.pool_fee_key, i.o_conv), tout])]
    for g, hf in fee_cases("host", fv(i), i.o_conv):
        if hf is None:
            continue
        if isinstance(hf, int) and hf == 0:
            out.append((And(pos, g), [tin, fee(i.pool_fee_key, i.o_conv), tout]))
        else:
            out.append((And(pos, g), [tin, fee(i.host_key, hf), fee(i.pool_fee_key, sub(i.o_conv, hf)), tout]))
    return out


def swap_expected(i, sc, amount, src, dst, dr, f):
    return And(same_curve(sc), eq(amount, i.amount), eq(src, i.swap_source_amount), eq(dst, i.swap_destination_amount), Iff(dr == "AtoB", a_to_b(i)), same_fees(i, f))


def swap_answer(i):
    return dict(new_swap_source_amount=i.o_src_new, new_swap_destination_amount=i.o_dst_new, source_amount_swapped=i.o_src_amt, destination_amount_swapped=i.o_dst_amt, trade_fee=i.o_trade_fee, owner_fee=i.o_owner_fee)


def swap_conv_expected(i, sc, fee, a, b, supply, dr, f):
    fwd = And(dr == "AtoB", eq(a, i.o_src_new), eq(b, i.o_dst_new))
    bwd = And(dr == "BtoA", eq(a, i.o_dst_new), eq(b, i.o_src_new))
    return And(same_curve(sc), eq(fee, i.o_owner_fee), eq(supply, i.pool_mint_supply), Or(And(a_to_b(i), fwd), And(Not(a_to_b(i)), bwd)), same_fees(i, f))


def swap_gen(rng, d):
    f = rng.random() < 0.5
    d["swap_source_key"], d["swap_destination_key"] = (d["token_a"], d["token_b"]) if f else (d["token_b"], d["token_a"])
    d["pool_fee_key"] = d["pool_fee_account"]
    d["host_mint"] = d["pool_mint"]
    d["amount"] = rng.choice((1000, 12345, rng.randint(1, 10**9)))
    d["minimum"] = rng.choice((0, 0, 1, rng.randint(0, d["amount"])))
    if rng.random() < 0.3:
        d["shape"] = "11"
    if rng.random() < 0.25:
        # the linear curve converts no fee into pool tokens: a swap that owes one fails
        d["tag"], (d["p0"], d["p1"], d["p2"], d["p3"]) = 30, (1, 2, 150, 1)
        d[FEES[0]], d[FEES[1]] = 0, 1
        d[FEES[2]], d[FEES[3]] = 1, rng.choice((3, 10, 100))


FLAG = lambda n: V(n, lo=0, hi=1)
swap_op = Op(
    "proc.swap",
    "process_swap",
    SWAP_ROLES,
    10,
    ["amount", "minimum"],
    [FLAG("o_swap_ok")] + [V(n, 128) for n in ("o_src_new", "o_dst_new", "o_src_amt", "o_dst_amt", "o_trade_fee", "o_owner_fee")] + [FLAG("o_conv_ok"), V("o_conv", 128)],
    {
        STN + "unpack": unpack_stub(lambda i: {}),
        SCN + "swap": oracle(swap_expected, lambda i: i.o_swap_ok, swap_answer),
        SCN + "deposit_single_token_type": oracle(swap_conv_expected, lambda i: i.o_conv_ok, lambda i: i.o_conv),
    },
    swap_ident,
    swap_amounts,
    swap_plans,
    lambda i: [i.amount, i.minimum] + curve_req(i) + [i.swap_source_amount, i.swap_destination_amount, "AtoB" if i.swap_source_key == i.token_a else "BtoA", i.pool_mint_supply],
    swap_gen,
    [0, 9, 10, 11],
    uses=("fee.host",),
)


prop("P19", [swap_op.spec("accounts of a swap", swap_op.idents())])
prop("P20", [swap_op.spec("amounts of a swap", swap_op.moves())])


# ---------------------------------------------------------- deposits, withdrawals
def combine(*parts):
    """product of guarded alternatives of calls"""
    out = [(True, [])]
    for p in parts:
        out = [(And(g, g2), c + c2) for g, c in out for g2, c2 in p]
    return [(g, c) for g, c in out if g is not False]


def method(expected, answer):
    return oracle(expected, lambda i: i.o_conv_ok, answer)


def yes(i):
    return [(eq(i.o_dep, 1), True), (eq(i.o_dep, 0), False)]


def pool_mock(i, **more):
    return dict(allows_deposits=stub(lambda i, me: yes(i)), new_pool_supply=stub(lambda i, me: [(True, i.o_supply)]), **more)


def reserves_ident(i):
    return is_pool(i) + [
        ("reserve A is the recorded one", eq(i.ra_key, i.token_a)),
        ("reserve B is the recorded one", eq(i.rb_key, i.token_b)),
        ("reserve A is readable", is_token(i, "ra")),
        ("reserve B is readable", is_token(i, "rb")),
    ]


def share(direction, pool, supply):
    def expected(i, me, amount, total, a, b, d):
        return And(me[0] == "mock", d == direction, eq(amount, pool(i)), eq(total, supply(i)), eq(a, i.ra_amount), eq(b, i.rb_amount))

    return method(expected, lambda i: dict(token_a_amount=i.o_a, token_b_amount=i.o_b))


def base_gen(rng, d):
    d["ra_key"], d["rb_key"] = d["token_a"], d["token_b"]
    d["pool_fee_key"] = d["pool_fee_account"]
    a = rng.choice((1000, 10**6, rng.randint(1, 10**9)))
    for v in ("amount", "minimum", "maximum", "minimum_a", "minimum_b", "maximum_a", "maximum_b"):
        if v in d:
            d[v] = rng.choice((0, 0, 1)) if v.startswith("min") else rng.choice((a, 2 * a, U64, U64))
    d["amount"] = a
    if rng.random() < 0.3:
        d["source_key"] = d["pool_fee_account"]
    d["ra_mint"], d["rb_mint"] = 77, 78
    for r in ("source", "destination"):
        if f"{r}_mint" in d:
            d[f"{r}_mint"] = rng.choice((77, 78))


def req(*args):
    return lambda i: [getattr(i, a) for a in args] + curve_req(i) + [i.ra_amount, i.rb_amount, i.pool_mint_supply]


SHARE = [FLAG("o_conv_ok"), V("o_a", 128), V("o_b", 128)]
DEP = [FLAG("o_dep"), V("o_supply", 128)]
stocked = lambda i: ge(i.pool_mint_supply, 1)


# P21
def dall_pool(i):
    return ite(stocked(i), i.amount, i.o_supply)


def dall_ident(i):
    return reserves_ident(i) + [
        ("the curve allows deposits", eq(i.o_dep, 1)),
        ("the user's account A is not the reserve", ne(i.source_a_key, i.ra_key)),
        ("the user's account B is not the reserve", ne(i.source_b_key, i.rb_key)),
    ]


def dall_amounts(i):
    return [
        ("the curve converts the pool tokens", eq(i.o_conv_ok, 1)),
        ("the minted amount fits", fits64(dall_pool(i))),
        ("something is taken of both tokens", And(ge(i.o_a, 1), ge(i.o_b, 1))),
        ("at most the maxima are taken", And(le(i.o_a, i.maximum_a), le(i.o_b, i.maximum_b))),
    ]


deposit_all = Op(
    "proc.deposit_all",
    "process_deposit_all_token_types",
    ["swap", "authority", "uta", "source_a", "source_b", "ra", "rb", "pool_mint", "destination", "token_program"],
    10,
    ["amount", "maximum_a", "maximum_b"],
    SHARE + DEP,
    {STN + "unpack": unpack_stub(lambda i: pool_mock(i, pool_tokens_to_trading_tokens=share("Ceiling", dall_pool, lambda i: ite(stocked(i), i.pool_mint_supply, i.o_supply))))},
    dall_ident,
    dall_amounts,
    lambda i: [(True, [transfer(i.source_a_key, i.ra_key, i.uta_key, i.o_a), transfer(i.source_b_key, i.rb_key, i.uta_key, i.o_b), mint_to(i.pool_mint_key, i.destination_key, i.authority_key, dall_pool(i))])],
    req("amount", "maximum_a", "maximum_b"),
    base_gen,
    [0, 9, 10, 11],
)


# P22
def from_fee(i):
    return eq(i.pool_fee_key, i.source_key)


def wd_fee(i, x):
    """the owner withdraw fee: none on the fee account's own tokens"""
    return [(from_fee(i), 0)] + [(And(Not(from_fee(i)), g), f) for g, f in fee_cases("wd", fv(i), x)]


def fee_call(i, f):
    if isinstance(f, int) and f == 0:
        return [(True, [])]
    return [(ge(f, 1), [transfer(i.source_key, i.pool_fee_key, i.uta_key, f)]), (eq(f, 0), [])]


def wall_ident(i):
    return reserves_ident(i) + [
        ("the fee account is the recorded one", eq(i.pool_fee_key, i.pool_fee_account)),
        ("the user's account A is not the reserve", ne(i.dest_a_key, i.ra_key)),
        ("the user's account B is not the reserve", ne(i.dest_b_key, i.rb_key)),
    ]


def wall_net(i):
    """the pool tokens converted: what is left after the fee"""
    return [(g, None if f is None else f) for g, f in wd_fee(i, i.amount)]


def wall_paid(i):
    return [ite(le(o, have), o, have) for o, have in ((i.o_a, i.ra_amount), (i.o_b, i.rb_amount))]


def wall_amounts(i):
    out = []
    for g, f in wall_net(i):
        out.append(("the fee is computable and within the amount", Not(g) if f is None else Imp(g, le(f, i.amount))))
    pa, pb = wall_paid(i)
    return out + [
        ("the curve converts the pool tokens", eq(i.o_conv_ok, 1)),
        ("the amounts fit", And(fits64(i.o_a), fits64(i.o_b))),
        ("at least the minima are paid", And(ge(pa, i.minimum_a), ge(pb, i.minimum_b))),
        ("nothing is paid only from an empty reserve", And(Or(ge(pa, 1), eq(i.ra_amount, 0)), Or(ge(pb, 1), eq(i.rb_amount, 0)))),
    ]


def wall_plans(i):
    out = []
    pa, pb = wall_paid(i)
    ta = transfer(i.ra_key, i.dest_a_key, i.authority_key, pa, True)
    tb = transfer(i.rb_key, i.dest_b_key, i.authority_key, pb, True)
    for g, f in wall_net(i):
        if f is not None:
            out += combine([(g, [])], fee_call(i, f), [(True, [burn(i.source_key, i.pool_mint_key, i.uta_key, sub(i.amount, f))])], [(ge(pa, 1), [ta]), (eq(pa, 0), [])], [(ge(pb, 1), [tb]), (eq(pb, 0), [])])
    return out


def wall_share(i, me, amount, total, a, b, d):
    net = Or(*[And(g, eq(amount, sub(i.amount, f))) for g, f in wall_net(i) if f is not None])
    return And(me[0] == "mock", d == "Floor", net, eq(total, i.pool_mint_supply), eq(a, i.ra_amount), eq(b, i.rb_amount))


withdraw_all = Op(
    "proc.withdraw_all",
    "process_withdraw_all_token_types",
    ["swap", "authority", "uta", "pool_mint", "source", "ra", "rb", "dest_a", "dest_b", "pool_fee", "token_program"],
    11,
    ["amount", "minimum_a", "minimum_b"],
    SHARE + DEP,
    {STN + "unpack": unpack_stub(lambda i: pool_mock(i, pool_tokens_to_trading_tokens=method(wall_share, lambda i: dict(token_a_amount=i.o_a, token_b_amount=i.o_b))))},
    wall_ident,
    wall_amounts,
    wall_plans,
    req("amount", "minimum_a", "minimum_b"),
    base_gen,
    [0, 10, 11, 12],
    uses=("fee.wd",),
)


# P23, P24
def single_dir(i, r):
    a = eq(getattr(i, f"{r}_mint"), i.ra_mint)
    return a, And(Not(a), eq(getattr(i, f"{r}_mint"), i.rb_mint))


def single_ident(i, r):
    a, b = single_dir(i, r)
    return reserves_ident(i) + [
        ("the user's account is readable", is_token(i, r)),
        ("the token is one of the pool's", Or(a, b)),
        ("the user's account is not the reserve", And(Imp(a, ne(getattr(i, f"{r}_key"), i.ra_key)), Imp(b, ne(getattr(i, f"{r}_key"), i.rb_key)))),
    ]


def single_expected(r):
    def expected(i, sc, amount, a, b, supply, d, f):
        da, db = single_dir(i, r)
        return And(same_curve(sc), eq(amount, i.amount), eq(a, i.ra_amount), eq(b, i.rb_amount), eq(supply, i.pool_mint_supply), Or(And(d == "AtoB", da), And(d == "BtoA", db)), same_fees(i, f))

    return expected


def done_pool(i):
    return ite(stocked(i), i.o_conv, i.o_supply)


def done_plans(i):
    m = mint_to(i.pool_mint_key, i.destination_key, i.authority_key, done_pool(i))
    a, b = single_dir(i, "source")
    return [(a, [transfer(i.source_key, i.ra_key, i.uta_key, i.amount), m]), (b, [transfer(i.source_key, i.rb_key, i.uta_key, i.amount), m])]


deposit_one = Op(
    "proc.deposit_one",
    "process_deposit_single_token_type_exact_amount_in",
    ["swap", "authority", "uta", "source", "ra", "rb", "pool_mint", "destination", "token_program"],
    9,
    ["amount", "minimum"],
    [FLAG("o_conv_ok"), V("o_conv", 128)] + DEP,
    {STN + "unpack": unpack_stub(pool_mock), SCN + "deposit_single_token_type": method(single_expected("source"), lambda i: i.o_conv)},
    lambda i: [("the curve allows deposits", eq(i.o_dep, 1))] + single_ident(i, "source"),
    lambda i: [
        ("the curve converts the tokens", Imp(stocked(i), eq(i.o_conv_ok, 1))),
        ("the minted amount fits", fits64(done_pool(i))),
        ("at least the minimum is minted", And(ge(done_pool(i), i.minimum), ge(done_pool(i), 1))),
    ],
    done_plans,
    req("amount", "minimum"),
    base_gen,
    [0, 8, 9, 10],
)


def wone_amounts(i):
    out = [("the curve converts the tokens", eq(i.o_conv_ok, 1))]
    for g, f in wd_fee(i, i.o_conv):
        if f is None:
            out.append(("the fee is computable", Not(g)))
        else:
            t = add(i.o_conv, f)
            out.append(("at most the maximum is charged", Imp(g, And(fits64(t), le(t, i.maximum), ge(t, 1)))))
    return out


def wone_plans(i):
    out = []
    a, b = single_dir(i, "destination")
    pay = [(g, [transfer(k, i.destination_key, i.authority_key, i.amount, True)]) for g, k in ((a, i.ra_key), (b, i.rb_key))]
    for g, f in wd_fee(i, i.o_conv):
        if f is not None:
            out += combine([(g, [])], fee_call(i, f), [(True, [burn(i.source_key, i.pool_mint_key, i.uta_key, i.o_conv)])], pay)
    return out


withdraw_one = Op(
    "proc.withdraw_one",
    "process_withdraw_single_token_type_exact_amount_out",
    ["swap", "authority", "uta", "pool_mint", "source", "ra", "rb", "destination", "pool_fee", "token_program"],
    10,
    ["amount", "maximum"],
    [FLAG("o_conv_ok"), V("o_conv", 128)] + DEP,
    {STN + "unpack": unpack_stub(pool_mock), SCN + "withdraw_single_token_type_exact_out": method(single_expected("destination"), lambda i: i.o_conv)},
    lambda i: [("the fee account is the recorded one", eq(i.pool_fee_key, i.pool_fee_account))] + single_ident(i, "destination"),
    wone_amounts,
    wone_plans,
    req("amount", "maximum"),
    base_gen,
    [0, 9, 10, 11],
    uses=("fee.wd",),
)
for pid, op, nm in (("P21", deposit_all, "two-sided deposit"), ("P22", withdraw_all, "two-sided withdrawal"), ("P23", deposit_one, "single-sided deposit"), ("P24", withdraw_one, "single-sided withdrawal")):
    prop(pid, [op.spec(nm, op.both())])


# ------------------------------------------------------------ P18: creation
NEWP = ["np0", "np1", "np2", "np3"]
NF = ["n_" + f for f in FEES]
PARSE = "core::str::<impl str>::parse::<anchor_lang::prelude::Pubkey>"
CON = "token_bonding_curve::constraints::SwapConstraints::<'_>::"
given = lambda i: i.constraints == "given"
flag_res = lambda f, e: [(eq(f, 1), ("ok", ())), (eq(f, 0), ("err", e))]


def new_state(i):
    return [1, 1, i.new_bump, i.token_program_key, i.ra_key, i.rb_key, i.pool_mint_key, i.ra_mint, i.rb_mint, i.pool_fee_key] + [getattr(i, f) for f in NF] + [i.new_tag] + [getattr(i, p) for p in NEWP]


def new_curve(i):
    def checked(i, me, a, b):
        g = And(me[0] == "mock", eq(a, i.ra_amount), eq(b, i.rb_amount))
        return [(And(g, c), r) for c, r in flag_res(i.o_supply_ok, "EmptySupply")] + [(Not(g), ANY)]

    return dict(
        validate=stub(lambda i, me: flag_res(i.o_valid, "InvalidCurve")),
        validate_supply=stub(checked),
        new_pool_supply=stub(lambda i, me: [(True, i.o_supply)]),
    )


def fpa_cases(i, seeds, prog):
    s = [(n, r.int()) for _, r, n in seeds[1]]
    g = And(eq(s[0][1], i.swap_key), eq(prog, i.program)) if len(s) == 1 and s[0][0] == 32 else False
    return [(g, (i.pda, i.new_bump)), (Not(g), ANY)]


def pack_stub(c, st, H):
    """SwapVersion::pack: the fixed layout (P16) into a buffer of exactly that
    size, refusal otherwise; the curve's own bytes are its parameters"""
    I, br, i = H.I, H.br, H.i
    out = []
    for s, v in br.norm(st, c.args[0], c.argtys[0]):
        x = v[1]
        q = c.args[1]
        if not (isinstance(q.m, int) and q.m == LEN):
            out.append((s, br.coerce(s, ("err", "InvalidAccountData"), c.retty)))
            continue
        kt = x["swap_curve"]["curve_type"]
        if x["swap_curve"]["calculator"][0] != "mock":
            raise IP.Unsupported("a curve that was not given")
        tag = KIND_TAG[[k for k, t in KIND_TYPE.items() if t == kt][0]]
        init = x["is_initialized"]
        vals = [1, ite(init, 1, 0) if isinstance(init, tuple) else int(init), x["bump_seed"]] + [x[k] for k in KEYS] + [x["fees"][f] for f in FEES] + [tag] + [getattr(i, p) for p in NEWP]
        I.write(s, q.a, q.p, Rope(list(zip(W324, vals))))
        out.append((s, br.coerce(s, ("ok", ()), c.retty)))
    return out


def init_ident(i):
    t = lambda r: And(short(i) != r, eq(getattr(i, f"{r}_owner"), i.token_program_key), token_ok(fields_of(i, r)))
    m = And(short(i) != "pool_mint", eq(i.pool_mint_owner, i.token_program_key), mint_ok(fields_of(i, "pool_mint")))
    fee = lambda n, d: Or(lt(getattr(i, "n_" + n), getattr(i, "n_" + d)), And(eq(getattr(i, "n_" + n), 0), eq(getattr(i, "n_" + d), 0)))
    out = [
        ("the pool is not in use", Not(state_ok(i))),
        ("the pool account has the right size", short(i) != "swap"),
        ("the authority is the pool's derived one", eq(i.authority_key, i.pda)),
        ("the token program is the SPL token program", eq(i.token_program_key, SPL_ID)),
        ("the accounts are readable", And(t("ra"), t("rb"), t("pool_fee"), t("destination"), m)),
        ("the reserves belong to the authority", And(eq(i.ra_own, i.authority_key), eq(i.rb_own, i.authority_key))),
        ("the user's accounts do not", And(ne(i.destination_own, i.authority_key), ne(i.pool_fee_own, i.authority_key))),
        ("the authority mints", And(eq(i.pool_mint_atag, 1), eq(i.pool_mint_auth, i.authority_key))),
        ("the mints differ", ne(i.ra_mint, i.rb_mint)),
        ("the curve accepts the reserves", eq(i.o_supply_ok, 1)),
        ("no delegates", And(eq(i.ra_dtag, 0), eq(i.rb_dtag, 0))),
        ("no close authorities", And(eq(i.ra_ctag, 0), eq(i.rb_ctag, 0))),
        ("no pool tokens exist", eq(i.pool_mint_supply, 0)),
        ("nobody can freeze pool tokens", eq(i.pool_mint_ftag, 0)),
        ("the fee account holds pool tokens", eq(i.pool_fee_mint, i.pool_mint_key)),
        ("fees are fractions", And(*[fee(FEES[k], FEES[k + 1]) for k in (0, 2, 4, 6)])),
        ("the curve is valid", eq(i.o_valid, 1)),
    ]
    if given(i):
        out += [
            ("the fee account belongs to the prescribed owner", And(eq(i.o_parse, 1), eq(i.pool_fee_own, i.o_owner))),
            ("the curve is an allowed one", eq(i.o_curve, 1)),
            ("the fees are allowed", eq(i.o_fees, 1)),
        ]
    return out


def state_of(d):
    if isinstance(d, (list, tuple)):
        return list(d)
    out, off = [], 0
    if d.n() != LEN:
        return []
    for w in W324:
        out.append(d.get(off, w).int())
        off += w
    return out


class Init(Op):
    def frame(self, i, r):
        return frame(r, but=(0,))

    def final(self, i, r):
        got, exp = state_of(r["data"]), new_state(i)
        names = ["version", "initialised flag", "nonce"] + KEYS + FEES + ["curve type"] + ["curve parameter"] * 4
        if len(got) != len(exp):
            return [("the pool is recorded", False)]
        return [(f"recorded: {n}", eq(a, b)) for n, a, b in zip(names, got, exp)]


def init_gen(rng, d):
    for f in NF:
        d[f] = d[f[2:]]
    d["new_tag"] = d["tag"]
    d["new_bump"] = rng.choice((255, 254, 253))
    d["o_parse"], d["o_curve"], d["o_fees"] = [int(rng.random() < 0.9) for _ in range(3)]
    for p, q in zip(NEWP, PAR):
        d[p] = d[q]
    d["init"] = rng.choice((0, 0, 0, 1))
    d["version"] = rng.choice((0, 1, 1, 2))
    for r in ("ra", "rb"):
        d[f"{r}_own"] = d["pda"]
    d["ra_mint"], d["rb_mint"] = 77, 78
    if d["new_tag"] == 30:
        d["ra_amount"] = 0
    if d["new_tag"] == 3:
        d["rb_amount"] = rng.choice((0, 1))
    d["pool_fee_mint"] = d["pool_mint_key"]
    d["pool_mint_supply"] = 0
    if d["constraints"] == "given":
        d["pool_fee_own"] = OWNER
        d["o_owner"] = OWNER


OWNER = int.from_bytes(bytes.fromhex("f7ab997047a6d5a6c2aab36a3f9795c779c7c405a714bf5ad7ac8272472b963d"), "little")
init = Init(
    "proc.initialize",
    "process_initialize",
    ["swap", "authority", "ra", "rb", "pool_mint", "pool_fee", "destination", "token_program"],
    8,
    [],
    [C("constraints", ["none", "given"]), V("new_bump", 8)]
    + [V(f, 64) for f in NF]
    + [V("new_tag", 8)]
    + [V(p, 64) for p in NEWP]
    + [FLAG(n) for n in ("o_supply_ok", "o_valid", "o_parse", "o_curve", "o_fees")]
    + [V("o_owner", 256), V("o_supply", 128)],
    {
        STN + "unpack": unpack_stub(lambda i: {}),
        STN + "pack": pack_stub,
        SOL.FPA: stub(fpa_cases),
        PARSE: stub(lambda i, s: [(eq(i.o_parse, 1), ("ok", i.o_owner)), (eq(i.o_parse, 0), ("err", "Invalid"))]),
        CON + "validate_curve": stub(lambda i, me, sc: [(And(same_curve(sc), c), r) for c, r in flag_res(i.o_curve, ("Custom", 9))] + [(not same_curve(sc), ANY)]),
        CON + "validate_fees": stub(lambda i, me, f: [(And(same_new(i, f), c), r) for c, r in flag_res(i.o_fees, ("Custom", 9))] + [(Not(same_new(i, f)), ANY)]),
    },
    init_ident,
    lambda i: [("the initial supply fits", fits64(i.o_supply))],
    lambda i: [(True, [mint_to(i.pool_mint_key, i.destination_key, i.authority_key, i.o_supply)])],
    lambda i: [i.constraints, i.o_parse, i.o_curve, i.o_fees] + [getattr(i, f) for f in NF] + [i.new_tag] + [getattr(i, p) for p in NEWP] + [i.ra_amount, i.rb_amount],
    init_gen,
    [0, 7, 8, 9],
    lead=lambda i: [dict(zip(FEES, [getattr(i, f) for f in NF])), dict(curve_type=curve_type(i.new_tag), calculator=("dyn", "$mock", new_curve(i)))],
    nlead=2,
    trail=lambda i: [None if not given(i) else ("some", dict(owner_key=("str", "owner"), valid_curve_types=("slice", ["ConstantPrice"]), fees=dict(zip(FEES, [0] * 8))))],
)


def same_new(i, f):
    return And(*[eq(getattr(i, "n_" + k), f[k]) for k in FEES])


prop("P18", [init.spec("creation of a pool", init.both(), pre=lambda i: Or(*[eq(i.new_tag, t) for t in KIND_TAG.values()]))])
