from mirv import terms as T
from mirv.terms import And, Or, Not, Imp, Iff, ge, le, lt, gt, eq, ne, sub, add, mul, div, rem, ite
from mirv.spec import V, C, R, Spec, Contract, Inp, When, is_panic, match
from . import apis
from .apis import FEES, CURVES
from .reg import prop

U64 = 2**64 - 1
U128 = 2**128 - 1
DIR = C("dir", ["AtoB", "BtoA"])
RND = C("round", ["Floor", "Ceiling"])


def some(r):
    return isinstance(r, tuple) and r[0] == "some"


def okk(r):
    return isinstance(r, tuple) and r[0] == "ok"


def errk(r):
    return isinstance(r, tuple) and r[0] == "err"


def reached(cond):
    return lambda i, rs: bool(rs) and cond(rs[-1])


SOME = ("a value is returned", reached(some))
NONE = ("nothing is returned", reached(lambda r: r is None))
OK = ("accepted", reached(okk))
ERR = ("rejected", reached(errk))
FV = [V(f, 64) for f in FEES]


def fv(i):
    return [getattr(i, f) for f in FEES]
