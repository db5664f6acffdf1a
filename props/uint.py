"""U256, the 256-bit integers of the uint crate, of which every other property
uses a model (mirv/intrin.py): the model is proved here of the crate's code."""
import os
from mirv.spec import Spec, V, C, api, match
from mirv import terms as T
from mirv.terms import And, Not, Imp, Iff, ge, le, lt, eq, sub, add, mul, div
from .reg import prop

U = "spl_math::uint::U256"
B = 2**64
N = 4
A_, B_ = [f"a{k}" for k in range(N)], [f"b{k}" for k in range(N)]
limbs = lambda i, ns: [getattr(i, n) for n in ns]
u = lambda ws: [list(ws)]
VA, VB = [V(n, 64) for n in A_], [V(n, 64) for n in B_]


def num(ws):
    r = 0
    for k, w in enumerate(ws):
        r = add(r, mul(w, B**k))
    return r


def val(x):
    """a result: U256 as its integer"""
    if isinstance(x, dict):
        return num(x["0"])
    if isinstance(x, tuple):
        return tuple(val(y) for y in x)
    return x


def op2(key, fn, nm, post, **kw):
    api("u." + key, fn, lambda a, b: [u(a), u(b)], lambda I, st, mv, r: val(r))
    return Spec(nm, VA + VB, [lambda i, rs: ("u." + key, limbs(i, A_), limbs(i, B_))], lambda i, rs: post(num(limbs(i, A_)), num(limbs(i, B_)), rs[0]), raw=["u." + key], samples=0, **kw)


def op1(key, fn, nm, post, **kw):
    api("u." + key, fn, lambda a: [u(a)], lambda I, st, mv, r: val(r))
    return Spec(nm, VA, [lambda i, rs: ("u." + key, limbs(i, A_))], lambda i, rs: post(num(limbs(i, A_)), rs[0]), raw=["u." + key], samples=0, **kw)


def conv(key, fn, nm, bits):
    api("u." + key, fn, lambda a: [a], lambda I, st, mv, r: val(r))
    return Spec(nm, [V("x", bits)], [lambda i, rs: ("u." + key, i.x)], lambda i, rs: [("the same number", eq(rs[0], i.x))], raw=["u." + key], samples=0)


def opt(ok, x):
    """Some(x) if ok else None"""
    return lambda a, b, r: [("the exact result, if it fits", Not(ok(a, b)) if r is None else And(ok(a, b), eq(r[1], x(a, b))))] if r is None or r[0] == "some" else [("does not panic", False)]


M = 2**256
panics = lambda r: isinstance(r, tuple) and r and r[0] == "panic"
SPECS = [
    op2("add", U + "::checked_add", "U256 checked_add", opt(lambda a, b: lt(add(a, b), M), add)),
    op2("sub", U + "::checked_sub", "U256 checked_sub", opt(lambda a, b: ge(a, b), sub)),
    op2("eq", f"<{U} as std::cmp::PartialEq>::eq", "U256 equality", lambda a, b, r: [("equality of the numbers", Iff(r, eq(a, b)))]),
]
for f, g in (("lt", lt), ("le", le), ("gt", T.gt), ("ge", ge)):
    SPECS.append(op2(f, f"<{U} as std::cmp::PartialOrd>::{f}", f"U256 {f}", lambda a, b, r, g=g: [("order of the numbers", Iff(r, g(a, b)))]))
for w in (128, 64):
    SPECS.append(op1(f"as{w}", f"{U}::as_u{w}", f"U256 as_u{w}", lambda a, r, w=w: [("the same number, or a panic if it does not fit", ge(a, 2**w) if panics(r) else And(lt(a, 2**w), eq(r, a)))], panic="allowed"))
    SPECS.append(op1(f"try{w}", f"spl_math::uint::<impl std::convert::TryFrom<{U}> for u{w}>::try_from", f"U256 try_into u{w}", lambda a, r, w=w: [("the same number, or an error if it does not fit", ge(a, 2**w) if r[0] == "err" else And(lt(a, 2**w), eq(r[1], a)))]))
    SPECS.append(conv(f"from{w}", f"<{U} as std::convert::From<u{w}>>::from", f"U256 from u{w}", w))
SPECS += [
    op1("zero", U + "::is_zero", "U256 is_zero", lambda a, r: [("zero", Iff(r, eq(a, 0)))]),
    op1("low128", U + "::low_u128", "U256 low_u128", lambda a, r: [("the low half", eq(r, T.rem(a, 2**128)))]),
    op1("bits", U + "::bits", "U256 bits", lambda a, r: [("the length", And(lt(a, 2**r), ge(a, 2 ** (r - 1)) if r else True) if isinstance(r, int) else False)]),
]
# a task for every shift: minutes, so in the thorough runs only
for w in ("usize", "u32") if os.environ.get("VERIF_TIER") == "thorough" else ():
    for f in ("Shl", "Shr"):
        nm = f"U256 {f.lower()} by {w}"
        api(f"u.{f}{w}", f"<{U} as std::ops::{f}<{w}>>::{f.lower()}", lambda a, k: [u(a), k], lambda I, st, mv, r: val(r))
        SPECS.append(Spec(nm, VA + [C("k", list(range(256)))], [lambda i, rs, f=f, w=w: (f"u.{f}{w}", limbs(i, A_), i.k)], lambda i, rs, f=f: [("the shifted number", eq(rs[0], div(num(limbs(i, A_)), 2**i.k) if f == "Shr" else T.rem(mul(num(limbs(i, A_)), 2**i.k), M)))], raw=[f"u.{f}{w}"], samples=0))
prop("P01", SPECS)
