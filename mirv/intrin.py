"""Models of the primitives the executor does not look inside.

These are the trusted contracts: 256-bit integers (the `uint` crate behind
spl_math::uint::U256), compiler intrinsics, allocation (Box, Vec, Rc,
RefCell), byte copies, logging and formatting, and panics.
Each model is a function (call, state) -> value | [(state, value)] | Panic.
"""
import re
from . import terms as T
from .terms import Poly, And, Or, Not, ge, le, lt, gt, eq, sub, add, mul, iv
from .interp import *

M256 = 2**256
MODELS = []


def model(*rx):
    def d(f):
        for r in rx:
            MODELS.append((re.compile(r), f))
        return f

    return d


# ----------------------------------------------------------------- panics
@model(
    r"^core::panicking::",
    r"^std::rt::begin_panic",
    r"^std::rt::panic",
    r"^core::option::(unwrap|expect)_failed",
    r"^std::option::(unwrap|expect)_failed",
    r"^(core|std)::result::unwrap_failed",
    r"^std::cell::panic_",
    r"^(core|std)::cell::panic",
    r".*::len_mismatch_fail",
    r".*slice_index_fail",
    r".*slice_.*_fail",
    r".*overflow_panic::",
    r".*panic_for_",
    r"^alloc::alloc::handle_alloc_error",
    r"^std::process::(abort|exit)",
    r"^(core|std)::intrinsics::abort",
    r".*::unwrap_failed",
)
def m_panic(c, st):
    return Panic(f"{c.name} at {c.I.where(st)}")


# ----------------------------------------------------------------- logging
@model(r"^solana_program::log::", r"^std::io::_e?print", r"^anchor_lang::prelude::sol_log", r"^anchor_lang::solana_program::log::")
def m_log(c, st):
    return UNIT


@model(r"^(core|std|alloc)::fmt::", r"^std::string::String::", r"^<std::string::String as ", r"^<str as std::string::ToString", r"^alloc::string::", r"^<.* as std::fmt::(Display|Debug)>::fmt", r"^.* as std::string::(ToString|SpecToString)>::")
def m_fmt(c, st):
    if c.I.tk(c.retty) == "enum":
        return En(0, [UNIT])
    if c.I.tk(c.retty) == "tuple":
        return UNIT
    if c.name == "<std::string::String as std::ops::Deref>::deref":
        return P(c.I.new_alloc(st, None, Obj("opaque", "fmt")), (), T.var("text.length", 0, 2**40))
    return Obj("opaque", "fmt")


@model(r"^(alloc|std)::io::error::<impl std::io::Error>::new::<", r"^std::io::Error::new::<")
def m_io_error(c, st):
    """an I/O error: only its being one matters"""
    return Obj("opaque", "io error")


# ----------------------------------------------------------------- U256
def arg(c, st, i):
    """argument, through a reference if it is one"""
    v = c.args[i]
    t = c.argtys[i]
    while c.I.tk(t) in ("ref", "ptr"):
        t = c.I.ty(t)["e"]
        v = c.I.read(st, v.a, v.p, t)
    return v


def fork_opt(c, st, cond, val):
    """Some(val) if cond else None"""
    out = []
    for s, b in c.I.fork(st, cond):
        out.append((s, some(val() if callable(val) else val) if b else NONE))
    return out


def fork_panic(c, st, cond, val, why):
    out = []
    for s, b in c.I.fork(st, cond):
        out.append((s, (val() if callable(val) else val) if b else Panic(f"{why} at {c.I.where(s)}")))
    return out


def bits_fork(c, st, v, maxbits):
    if isinstance(v, int):
        return [(st, v.bit_length())]
    out = []
    l, h = iv(v)
    lo = l.bit_length() if l and l > 0 else 0
    hi = min(maxbits, h.bit_length() if h is not None else maxbits)
    cur = st
    for k in range(lo, hi + 1):
        cond = And(lt(v, 2**k), ge(v, 2 ** (k - 1)) if k else True)
        if k < hi:
            s2 = cur.copy()
        else:
            s2 = cur
        if c.I.pv.feasible(s2.pc, cond):
            s2.assume(cond)
            out.append((s2, k))
    return out


@model(r"^spl_math::uint::U256::(\w+)(::<.*>)?$")
def m_u256(c, st):
    f = re.match(r"^spl_math::uint::U256::(\w+)", c.name).group(1)
    A = lambda i: arg(c, st, i)
    if f in ("zero",):
        return 0
    if f == "one":
        return 1
    if f in ("max_value", "MAX"):
        return M256 - 1
    if f == "is_zero":
        return eq(A(0), 0)
    if f == "checked_add":
        r = add(A(0), A(1))
        return fork_opt(c, st, lt(r, M256), r)
    if f == "checked_sub":
        r = sub(A(0), A(1))
        return fork_opt(c, st, ge(r, 0), r)
    if f == "checked_mul":
        r = mul(A(0), A(1))
        return fork_opt(c, st, lt(r, M256), r)
    if f in ("checked_div", "checked_rem"):
        a, b = A(0), A(1)
        return fork_opt(c, st, ge(b, 1), lambda: T.div(a, b) if f == "checked_div" else T.rem(a, b))
    if f == "saturating_sub":
        a, b = A(0), A(1)
        return [(s, sub(a, b) if x else 0) for s, x in c.I.fork(st, ge(a, b))]
    if f in ("saturating_add", "saturating_mul"):
        a, b = A(0), A(1)
        r = add(a, b) if f.endswith("add") else mul(a, b)
        return [(s, r if x else M256 - 1) for s, x in c.I.fork(st, lt(r, M256))]
    if f in ("overflowing_add", "overflowing_mul", "overflowing_sub"):
        a, b = A(0), A(1)
        r = {"add": add, "mul": mul, "sub": sub}[f[12:]](a, b)
        return [(s, Agg([r if x else T.rem(r, M256), not x])) for s, x in c.I.fork(st, And(lt(r, M256), ge(r, 0)))]
    if f in ("as_u128", "as_u64", "as_u32", "as_usize"):
        w = {"as_u128": 128, "as_u64": 64, "as_u32": 32, "as_usize": 64}[f]
        a = A(0)
        return fork_panic(c, st, lt(a, 2**w), a, f"Integer overflow when casting to u{w}")
    if f in ("low_u128", "low_u64", "low_u32"):
        return T.rem(A(0), 2 ** int(f[5:]))
    if f == "bits":
        return bits_fork(c, st, A(0), 256)
    if f == "leading_zeros":
        return [(s, 256 - k) for s, k in bits_fork(c, st, A(0), 256)]
    if f == "div_mod":
        a, b = A(0), A(1)
        return fork_panic(c, st, ge(b, 1), lambda: Agg([T.div(a, b), T.rem(a, b)]), "division by zero")
    if f in ("pow", "checked_pow") and isinstance(A(1), int) and A(1) <= 64:
        r = 1
        for _ in range(A(1)):
            r = mul(r, A(0))
        if f == "pow":
            return fork_panic(c, st, lt(r, M256), r, "arithmetic operation overflow")
        return fork_opt(c, st, lt(r, M256), r)
    return NotImplemented


@model(r"^<spl_math::uint::U256 as std::(cmp|ops|convert|clone|default)::([^>]*(<[^>]*>)?)>::(\w+)$")
def m_u256_ops(c, st):
    m = re.match(r"^<spl_math::uint::U256 as std::(\w+)::(.*)>::(\w+)$", c.name)
    tr, f = m.group(2), m.group(3)
    if tr.startswith("Into"):
        return NotImplemented
    if tr.startswith("From"):
        a = arg(c, st, 0)
        if c.I.tk(c.argtys[0]) == "int":
            return fork_panic(c, st, ge(a, 0), a, "Unsigned integer can't be created from negative value")
        if isinstance(a, (int, Poly)):
            return a
        return NotImplemented
    if tr == "Default":
        return 0
    if tr == "Clone":
        return arg(c, st, 0)
    if f in ("eq", "ne", "lt", "le", "gt", "ge"):
        return {"eq": eq, "ne": T.ne, "lt": lt, "le": le, "gt": gt, "ge": ge}[f](arg(c, st, 0), arg(c, st, 1))
    if f in ("cmp", "partial_cmp"):
        o = c.I.cmp(st, "Cmp", arg(c, st, 0), arg(c, st, 1), c.I.prog.find_ty("u128"))
        return o if f == "cmp" else some(o)
    if f in ("max", "min"):
        a, b = arg(c, st, 0), arg(c, st, 1)
        return T.ite(ge(a, b), a if f == "max" else b, b if f == "max" else a)
    assign = f.endswith("_assign")
    g = f[:-7] if assign else f
    a, b = arg(c, st, 0), arg(c, st, 1)
    if c.I.tk(c.argtys[1]) == "int":
        if c.I.decide(st, ge(b, 0)) is not True:
            return NotImplemented
    if g == "add":
        r, cond, why = add(a, b), None, "arithmetic operation overflow"
        cond = lt(r, M256)
    elif g == "sub":
        r = sub(a, b)
        cond, why = ge(r, 0), "arithmetic operation overflow"
    elif g == "mul":
        r = mul(a, b)
        cond, why = lt(r, M256), "arithmetic operation overflow"
    elif g in ("div", "rem"):
        cond, why = ge(b, 1), "division by zero"
        r = (lambda: T.div(a, b)) if g == "div" else (lambda: T.rem(a, b))
    elif g == "shl" and isinstance(b, int):
        r = T.rem(mul(a, 2**b), M256) if b < 256 else 0
        x = mul(a, 2**b)
        h = iv(x)[1]
        if h is not None and h < M256 or c.I.decide(st, lt(x, M256)) is True:
            r = x
        cond, why = True, ""
    elif g == "shr" and isinstance(b, int):
        r = T.div(a, 2**b)
        cond, why = True, ""
    elif g in ("bitand", "bitor", "bitxor"):
        return NotImplemented
    else:
        return NotImplemented
    res = fork_panic(c, st, cond, r, why)
    if not assign:
        return res
    out = []
    for s, v in res:
        if isinstance(v, Panic):
            out.append((s, v))
        else:
            p = c.args[0]
            c.I.write(s, p.a, p.p, v)
            out.append((s, UNIT))
    return out


@model(r"^spl_math::uint::<impl std::convert::TryFrom<spl_math::uint::U256> for (u\d+|usize)>::try_from$")
def m_u256_try(c, st):
    w = {"u128": 128, "u64": 64, "u32": 32, "u16": 16, "u8": 8, "usize": 64}[re.search(r" for (\w+)>", c.name).group(1)]
    a = arg(c, st, 0)
    return [(s, ok(a) if b else err(Obj("opaque", "str"))) for s, b in c.I.fork(st, lt(a, 2**w))]


# ----------------------------------------------------------------- machine ints
@model(r"^core::num::<impl (u|i)(\d+|size)>::(\w+)$")
def m_int(c, st):
    m = re.match(r"^core::num::<impl ((u|i)(\d+|size))>::(\w+)$", c.name)
    w = 64 if m.group(3) == "size" else int(m.group(3))
    sg = m.group(2) == "i"
    lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if sg else (0, 2**w - 1)
    f = m.group(4)
    A = lambda i: arg(c, st, i)
    OPS = {"add": add, "sub": sub, "mul": mul}
    if f in ("checked_add", "checked_sub", "checked_mul"):
        r = OPS[f[8:]](A(0), A(1))
        return fork_opt(c, st, And(ge(r, lo), le(r, hi)), r)
    if sg:
        return NotImplemented
    if f in ("checked_div", "checked_rem", "checked_div_euclid", "checked_rem_euclid"):
        a, b = A(0), A(1)
        return fork_opt(c, st, ge(b, 1), lambda: T.div(a, b) if "div" in f else T.rem(a, b))
    if f in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
        return c.I.norm(st, OPS[f.split("_")[1]](A(0), A(1)), c.argtys[0])
    if f in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
        r = OPS[f[12:]](A(0), A(1))
        return [(s, Agg([r if b else c.I.norm(s, r, c.argtys[0]), not b])) for s, b in c.I.fork(st, And(ge(r, lo), le(r, hi)))]
    if f in ("saturating_add", "saturating_mul"):
        r = OPS[f[11:]](A(0), A(1))
        return [(s, r if b else hi) for s, b in c.I.fork(st, le(r, hi))]
    if f == "saturating_sub":
        a, b = A(0), A(1)
        return [(s, sub(a, b) if x else 0) for s, x in c.I.fork(st, ge(a, b))]
    if f == "abs_diff":
        a, b = A(0), A(1)
        return [(s, sub(a, b) if x else sub(b, a)) for s, x in c.I.fork(st, ge(a, b))]
    if f in ("pow", "checked_pow", "saturating_pow") and isinstance(A(1), int) and A(1) <= 128:
        r = 1
        for _ in range(A(1)):
            r = mul(r, A(0))
        if f == "pow":
            return fork_panic(c, st, le(r, hi), r, "attempt to multiply with overflow")
        if f == "saturating_pow":
            return [(s, r if b else hi) for s, b in c.I.fork(st, le(r, hi))]
        return fork_opt(c, st, le(r, hi), r)
    if f in ("min_value",):
        return lo
    if f in ("max_value",):
        return hi
    if f == "to_le_bytes":
        return Rope([(w // 8, A(0))])
    if f in ("from_le_bytes",):
        r = A(0)
        return r.int() if isinstance(r, Rope) else NotImplemented
    if f == "leading_zeros":
        return [(s, w - k) for s, k in bits_fork(c, st, A(0), w)]
    if f == "div_ceil":
        a, b = A(0), A(1)
        return fork_panic(c, st, ge(b, 1), lambda: T.div(add(a, sub(b, 1)), b), "attempt to divide by zero")
    if f == "is_power_of_two" and isinstance(A(0), int):
        return bin(A(0)).count("1") == 1
    if f in ("to_be_bytes", "from_be_bytes", "swap_bytes"):
        if f == "to_be_bytes" and isinstance(A(0), int):
            return Rope([(w // 8, int.from_bytes(A(0).to_bytes(w // 8, "big"), "little"))])
        if f == "to_be_bytes":
            x = A(0)
            segs = []
            for i in reversed(range(w // 8)):
                segs.append((1, T.rem(T.div(x, 256**i), 256)))
            return Rope(segs)
        return NotImplemented
    return NotImplemented


# ----------------------------------------------------------------- intrinsics
@model(r"^(std|core)::intrinsics::(\w+)")
def m_intr(c, st):
    f = re.match(r"^(std|core)::intrinsics::(\w+)", c.name).group(2)
    a = c.args
    I = c.I
    if f in ("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "assume"):
        return UNIT
    if f in ("likely", "unlikely", "black_box"):
        return a[0]
    if f in ("is_val_statically_known", "ub_checks", "overflow_checks"):
        return False
    if f in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        r = {"a": add, "s": sub, "m": mul}[f[0]](a[0], a[1])
        lo, hi = I.int_range(c.argtys[0])
        return [(s, Agg([r if b else I.norm(s, r, c.argtys[0]), not b])) for s, b in I.fork(st, And(ge(r, lo), le(r, hi)))]
    if f in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
        return I.norm(st, {"a": add, "s": sub, "m": mul}[f.split("_")[1][0]](a[0], a[1]), c.argtys[0])
    if f in ("unchecked_div", "unchecked_rem", "exact_div"):
        return T.rem(a[0], a[1]) if f.endswith("rem") else T.div(a[0], a[1])
    if f == "saturating_sub":
        return [(s, sub(a[0], a[1]) if x else 0) for s, x in I.fork(st, ge(a[0], a[1]))]
    if f == "saturating_add":
        lo, hi = I.int_range(c.argtys[0])
        return [(s, add(a[0], a[1]) if x else hi) for s, x in I.fork(st, le(add(a[0], a[1]), hi))]
    if f in ("ctlz", "ctlz_nonzero"):
        w = I.ty(c.argtys[0])["w"]
        return [(s, w - k) for s, k in bits_fork(c, st, a[0], w)]
    if f in ("ctpop",):
        if isinstance(a[0], int):
            return bin(a[0]).count("1")
    if f in ("cttz", "cttz_nonzero"):
        if isinstance(a[0], int) and a[0]:
            return (a[0] & -a[0]).bit_length() - 1
    if f == "discriminant_value":
        t = I.ty(c.argtys[0])["e"]
        v = I.read(st, a[0].a, a[0].p, t)
        return I.discriminant(v, t)
    if f in ("raw_eq", "compare_bytes"):
        if f == "raw_eq":
            t = I.ty(c.argtys[0])["e"]
            x = I.read(st, a[0].a, a[0].p, t)
            y = I.read(st, a[1].a, a[1].p, t)
            return val_eq(x, y)
        n = a[2]
        if not isinstance(n, int):
            raise Unsupported("compare_bytes symbolic length")
        x, y = read_bytes(c, st, a[0], n), read_bytes(c, st, a[1], n)
        if isinstance(x.int(), int) and isinstance(y.int(), int):
            bx = x.int().to_bytes(n, "little")
            by = y.int().to_bytes(n, "little")
            return (bx > by) - (bx < by)
        e = val_eq(x, y)
        o = T.uf("memcmp", (x.int(), y.int()), -1, 1)
        st.assume(T.Iff(e, eq(o, 0)))
        return o
    if f == "three_way_compare":
        return I.cmp(st, "Cmp", a[0], a[1], c.argtys[0])
    if f in ("read_via_copy", "volatile_load"):
        t = I.ty(c.argtys[0])["e"]
        return I.read(st, a[0].a, a[0].p, t, a[0].m)
    if f in ("write_via_move", "volatile_store"):
        t = I.ty(c.argtys[0])["e"]
        I.write(st, a[0].a, a[0].p, a[1], t)
        return UNIT
    if f in ("copy_nonoverlapping", "copy"):
        return copy_mem(c, st, a[0], a[1], a[2], I.ty(c.argtys[0])["e"])
    if f in ("offset", "arith_offset"):
        return I.ptr_offset(a[0], c.argtys[0], a[1])
    if f in ("ptr_offset_from", "ptr_offset_from_unsigned"):
        x, y = I.pkey(a[0]), I.pkey(a[1])
        if x[:2] != y[:2]:
            raise Unsupported("offset_from across objects")
        return sub(x[2], y[2])
    if f in ("size_of", "min_align_of", "align_of", "pref_align_of"):
        m = re.search(r"::<(.*)>$", c.name)
        t = I.prog.tyname.get(m.group(1)) if m else None
        if t is not None:
            return I.size(t) if f == "size_of" else 8
    if f in ("integer_max", "integer_min"):
        x, y = (a[0], a[1]) if f.endswith("max") else (a[1], a[0])
        return [(s, a[0] if b else a[1]) for s, b in I.fork(st, ge(x, y))]
    if f == "transmute":
        return I.transmute(a[0], c.argtys[0], c.retty)
    if f == "needs_drop":
        return False
    if f == "const_eval_select":
        return NotImplemented
    if f == "forget":
        return UNIT
    if f == "ptr_metadata":
        return a[0].m if a[0].m is not None else UNIT
    if f == "bswap" and isinstance(a[0], int):
        n = I.ty(c.argtys[0])["w"] // 8
        return int.from_bytes(a[0].to_bytes(n, "little"), "big")
    if f == "select_unpredictable":
        return [(s, a[1] if b else a[2]) for s, b in I.fork(st, a[0])]
    if f == "caller_location":
        return Obj("opaque", "loc")
    if f == "unreachable":
        return Panic("unreachable")
    if f == "write_bytes" and isinstance(a[2], int):
        t = I.ty(c.argtys[0])["e"]
        if I.is_u8(t) and isinstance(a[1], int):
            I.write(st, a[0].a, a[0].p if a[0].p and isinstance(a[0].p[-1], tuple) else a[0].p + (("o", 0, t),), Rope([(a[2], int.from_bytes(bytes([a[1]]) * a[2], "little"))]))
            return UNIT
    return NotImplemented


@model(r".*::precondition_check$", r"^core::ub_checks::", r"^std::ub_checks::")
def m_pre(c, st):
    if c.I.tk(c.retty) == "bool":
        return False if "check_language_ub" in c.name else True
    return UNIT


@model(r"^(std|core)::mem::(size_of|align_of)::<(.*)>$", r"^(std|core)::mem::(size_of_val|align_of_val)::<(.*)>$")
def m_sizeof(c, st):
    n = re.match(r"^(?:std|core)::mem::\w+::<(.*)>$", c.name).group(1)
    t = c.I.prog.tyname.get(n)
    if t is None:
        return NotImplemented
    return c.I.size(t) if "size_of" in c.name else 8


@model(r"^(std|core)::mem::(forget|drop)", r"^std::ptr::drop_in_place", r"^core::ptr::drop_in_place")
def m_forget(c, st):
    return UNIT


@model(r"^(std|core)::hint::(black_box|assert_unchecked|must_use)")
def m_hint(c, st):
    return c.args[0] if "assert" not in c.name else UNIT


def val_eq(x, y):
    """equality of two data values as a formula"""
    if isinstance(x, Rope) and isinstance(y, Rope):
        if x.n() != y.n():
            return False
        # align segments
        xs, ys = list(x.s), list(y.s)
        if [w for w, _ in xs] == [w for w, _ in ys]:
            return And(*[eq(a, b) for (_, a), (_, b) in zip(xs, ys)])
        return eq(x.int(), y.int())
    if isinstance(x, (Agg,)) and isinstance(y, Agg):
        return And(*[val_eq(a, b) for a, b in zip(x.f, y.f)])
    if isinstance(x, Arr) and isinstance(y, Arr):
        return And(len(x.e) == len(y.e), *[val_eq(a, b) for a, b in zip(x.e, y.e)])
    if isinstance(x, En) and isinstance(y, En):
        if x.v != y.v:
            return False
        return And(*[val_eq(a, b) for a, b in zip(x.f, y.f)])
    if isinstance(x, SEn) and isinstance(y, (SEn, En)):
        cs = []
        for i in x.vs:
            if isinstance(y, En):
                if y.v == i:
                    return And(eq(x.d, x.dv[i]), *[val_eq(a, b) for a, b in zip(x.vs[i], y.f)])
            else:
                cs.append(And(eq(x.d, x.dv[i]), eq(y.d, y.dv[i]), *[val_eq(a, b) for a, b in zip(x.vs[i], y.vs[i])]))
        return Or(*cs)
    if isinstance(y, SEn):
        return val_eq(y, x)
    isf = lambda z: isinstance(z, (bool, tuple))
    if isf(x) and isf(y):
        return T.Iff(x, y)
    if isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)):
        return eq(x, y)
    if isinstance(x, Obj) and isinstance(y, Obj):
        if x is y or (x.k == y.k and x.d == y.d):
            return True
        raise Unsupported(f"equality of {x} {y}")
    raise Unsupported(f"equality of {x!r} {y!r}")


def read_bytes(c, st, p, n):
    """n bytes starting at p (pointer into a byte sequence)"""
    I = c.I
    a, path = p.a, p.p
    if n == 0:
        return Rope([])
    if path and isinstance(path[-1], tuple) and path[-1][0] == "o":
        v = I.getmem(st, a)
        ct = I.getaty(st, a)
        for q in path[:-1]:
            v, ct = I.descend(v, ct, q, st)
        if isinstance(v, Rope):
            return v.get(path[-1][1], n)
        raise Unsupported("read_bytes")
    v = I.read(st, a, path)
    while isinstance(v, Agg):
        v = v.f[0]
    if isinstance(v, Rope):
        return v.get(0, n)
    if isinstance(v, (int, Poly)) and n == 1:
        return Rope([(1, v)])
    raise Unsupported(f"read_bytes {v!r}")


def copy_mem(c, st, src, dst, n, t):
    I = c.I
    if isinstance(n, int) and n == 0:
        return UNIT
    if not isinstance(n, int):
        raise Unsupported("copy of symbolic length")
    if I.is_u8(t):
        r = read_bytes(c, st, src, n)
        p = dst.p
        if not (p and isinstance(p[-1], tuple) and p[-1][0] == "o"):
            p = p + (("o", 0, t),)
        I.write(st, dst.a, p, r)
        return UNIT
    for i in range(n):
        s = I.ptr_offset(src, c.argtys[0], i)
        d = I.ptr_offset(dst, c.argtys[1], i)
        I.write(st, d.a, d.p, I.read(st, s.a, s.p, t), t)
    return UNIT


@model(r"^core::slice::<impl \[.*\]>::(copy_from_slice|clone_from_slice)$", r"^core::slice::copy_from_slice_impl")
def m_copy_from_slice(c, st):
    d, s = c.args
    e = c.I.ty(c.I.ty(c.argtys[0])["e"])["e"]
    out = []
    for q, b in c.I.fork(st, eq(d.m, s.m)):
        if not b:
            out.append((q, Panic(f"copy_from_slice length mismatch at {c.I.where(q)}")))
            continue
        n = d.m if isinstance(d.m, int) else s.m
        if not isinstance(n, int):
            raise Unsupported("copy_from_slice symbolic length")
        if c.I.is_u8(e):
            r = read_bytes(c, q, s, n)
            p = d.p
            if not (p and isinstance(p[-1], tuple) and p[-1][0] == "o"):
                p = p + (("o", 0, e),)
            if n:
                c.I.write(q, d.a, p, r)
        else:
            for i in range(n):
                v = c.I.read(q, s.a, c.I.idx(s.p, c.I.ty(c.argtys[1])["e"], i)[0], e)
                c.I.write(q, d.a, c.I.idx(d.p, c.I.ty(c.argtys[0])["e"], i)[0], v, e)
        out.append((q, UNIT))
    return out


@model(r"^core::slice::cmp::<impl std::cmp::PartialEq(<\[.*\]>)? for \[u8\]>::(eq|ne)$")
def m_slice_eq(c, st):
    x, y = c.args
    if not (isinstance(x.m, int) and isinstance(y.m, int)):
        raise Unsupported("slice comparison of symbolic length")
    if x.m != y.m:
        r = False
    else:
        r = val_eq(read_bytes(c, st, x, x.m), read_bytes(c, st, y, y.m))
    return Not(r) if c.name.endswith("ne") else r


# ----------------------------------------------------------------- Box / Rc / RefCell / Vec
@model(r"^std::boxed::Box::<(.*)>::new$")
def m_box_new(c, st):
    I = c.I
    t = c.argtys[0]
    a = I.new_alloc(st, t, c.args[0])
    return mkbox(I, c.retty, P(a))


def mkbox(I, bt, p):
    """Box value of type bt around pointer p"""
    x = I.ty(bt)
    fs = I.fields(bt)
    out = []
    for i, f in enumerate(fs):
        if i == 0:
            out.append(mkbox(I, f, p) if I.tk(f) == "struct" else p)
        else:
            out.append(I.zst(f))
    return Agg(out)


@model(r"^std::boxed::Box::<(.*)>::new_uninit$")
def m_box_new_uninit(c, st):
    I = c.I
    inner = I.ty(c.retty)["args"][0] if I.ty(c.retty).get("args") else None
    if inner is None:
        return NotImplemented
    a = I.new_alloc(st, inner, UN)
    return mkbox(I, c.retty, P(a))


@model(r"^std::boxed::box_assume_init_into_vec_unsafe", r"^std::slice::<impl \[.*\]>::into_vec", r"^std::slice::<impl \[.*\]>::to_vec$", r"^<\[.*\] as std::borrow::ToOwned>::to_owned$")
def m_into_vec(c, st):
    I = c.I
    p = I.boxptr(c.args[0]) if not isinstance(c.args[0], P) else c.args[0]
    v = I.getmem(st, p.a)
    ct = I.getaty(st, p.a)
    off = 0
    path = list(p.p)
    if path and isinstance(path[-1], tuple) and path[-1][0] == "o":
        off = path.pop()[1]
    for q in path:
        v, ct = I.descend(v, ct, q, st)
    n = p.m
    while isinstance(v, Agg) and isinstance(v.f[-1], (Agg, Arr)):  # MaybeUninit, ManuallyDrop around the array
        v = v.f[-1]
    if n is None:
        n = len(v.e) if isinstance(v, Arr) else v.n()
    if isinstance(n, Poly):
        raise Unsupported("to_vec symbolic")
    v = I.rng(v, off, n)
    return mkvec(I, st, c.retty, v, n)


def mkvec(I, st, vt, v, n):
    et = I.ty(vt)["args"][0]
    a = I.new_alloc(st, None, v)
    return Obj("vec", (a, n, et))


def vec_arg(c, st, i=0):
    v = arg(c, st, i)
    if not (isinstance(v, Obj) and v.k == "vec"):
        raise Unsupported(f"vec model on {v!r}")
    return v


@model(r"^std::vec::Vec::<.*>::(new|with_capacity)$", r"^<std::vec::Vec<.*> as std::default::Default>::default$")
def m_vec_new(c, st):
    et = c.I.ty(c.retty)["args"][0]
    return mkvec(c.I, st, c.retty, Rope([]) if c.I.is_u8(et) else Arr([]), 0)


@model(r"^std::vec::Vec::<.*>::push$")
def m_vec_push(c, st):
    p = c.args[0]
    v = c.I.read(st, p.a, p.p)
    a, n, et = v.d
    buf = st.mem[a]
    st.mem[a] = Rope(merge(list(buf.s) + [(1, c.args[1])])) if isinstance(buf, Rope) else Arr(buf.e + (c.args[1],))
    c.I.write(st, p.a, p.p, Obj("vec", (a, add(n, 1), et)))
    return UNIT


@model(r"^<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend::<.*>$", r"^std::vec::Vec::<.*>::(append|extend_from_slice)$")
def m_vec_extend(c, st):
    p = c.args[0]
    v = c.I.read(st, p.a, p.p)
    w = c.args[1]
    if isinstance(w, P) and w.m is None:
        w2 = c.I.read(st, w.a, w.p)
        if isinstance(w2, Obj) and w2.k == "vec" and "append" in c.name:
            c.I.write(st, w.a, w.p, Obj("vec", (c.I.new_alloc(st, None, Arr([])), 0, w2.d[2])))
            w = w2
    a, n, et = v.d
    buf = st.mem[a]
    if isinstance(w, Obj) and w.k == "vec":
        add_, m = st.mem[w.d[0]], w.d[1]
    elif isinstance(w, P) and isinstance(w.m, int):
        add_, m = c.I.read(st, w.a, w.p, c.I.ty(c.argtys[1])["e"], w.m), w.m
    else:
        raise Unsupported("vec extend")
    st.mem[a] = Rope(merge(list(buf.s) + list(add_.s))) if isinstance(add_, Rope) else Arr((buf.e if isinstance(buf, Arr) else ()) + add_.e)
    c.I.write(st, p.a, p.p, Obj("vec", (a, add(n, m), et)))
    return UNIT


@model(r"^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::<.*>::as_(mut_)?slice$", r"^<std::vec::Vec<.*> as std::convert::AsRef<\[.*\]>>::as_ref$", r"^<std::vec::Vec<.*> as std::borrow::Borrow<\[.*\]>>::borrow$")
def m_vec_deref(c, st):
    v = vec_arg(c, st)
    a, n, et = v.d
    return P(a, (("o", 0, et),), n)


@model(r"^std::vec::Vec::<.*>::len$")
def m_vec_len(c, st):
    return vec_arg(c, st).d[1]


@model(r"^std::vec::Vec::<.*>::is_empty$")
def m_vec_empty(c, st):
    return eq(vec_arg(c, st).d[1], 0)


@model(r"^<std::vec::Vec<.*> as std::ops::Index<.*>>::index$")
def m_vec_index(c, st):
    v = vec_arg(c, st)
    a, n, et = v.d
    i = c.args[1]
    if isinstance(i, (int, Poly)):
        return fork_panic(c, st, lt(i, n), P(a, (("o", i, et),)), "index out of bounds")
    return NotImplemented


@model(r"^solana_program::log::sol_log", r"^<dyn solana_program::program_stubs::SyscallStubs as solana_program::program_stubs::SyscallStubs>::sol_log")
def m_log(c, st):
    return UNIT


@model(r"^<std::rc::Rc<.*> as std::ops::Deref>::deref$")
def m_rc_deref(c, st):
    v = arg1(c, st)
    if isinstance(v, Obj) and v.k == "rc":
        return v.d
    raise Unsupported(f"Rc deref of {v!r}")


def arg1(c, st, i=0):
    """argument i, one reference removed"""
    p = c.args[i]
    return c.I.read(st, p.a, p.p, c.I.ty(c.argtys[i])["e"])


@model(r"^<std::rc::Rc<.*> as std::clone::Clone>::clone$")
def m_rc_clone(c, st):
    v = arg1(c, st)
    if isinstance(v, Obj):
        return v
    raise Unsupported(f"Rc clone of {v!r}")


@model(r"^std::rc::Rc::<.*>::new$")
def m_rc_new(c, st):
    a = c.I.new_alloc(st, c.argtys[0], c.args[0])
    return Obj("rc", P(a))


@model(r"^std::cell::RefCell::<.*>::(try_)?borrow(_mut)?$")
def m_borrow(c, st):
    p = c.args[0]
    I = c.I
    t = I.ty(c.argtys[0])["e"]
    # field path: value: UnsafeCell<T> { value: T }
    fs = [f[0] for f in I.ty(t)["v"][0]["f"]]
    vi = fs.index("value")
    r = Obj("refguard", P(p.a, p.p + (vi, 0)))
    return ok(r) if "try_" in c.name else r


@model(r"^anchor_lang::prelude::AccountInfo::<'_>::try_borrow(_mut)?_(data|lamports)$")
def m_try_borrow_data(c, st):
    I = c.I
    p = c.args[0]
    t = I.ty(c.argtys[0])["e"]
    names = [f[0] for f in I.ty(t)["v"][0]["f"]]
    k = "data" if c.name.endswith("data") else "lamports"
    rc = I.read(st, p.a, p.p + (names.index(k),))
    if not (isinstance(rc, Obj) and rc.k == "rc"):
        raise Unsupported("borrow of account data")
    q = rc.d
    fs = [f[0] for f in I.ty(I.getaty(st, q.a))["v"][0]["f"]]
    return ok(Obj("refguard", P(q.a, q.p + (fs.index("value"), 0))))


@model(r"^<std::cell::Ref(Mut)?<'_, .*> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def m_ref_deref(c, st):
    v = arg1(c, st)
    if isinstance(v, Obj) and v.k == "refguard":
        return v.d
    raise Unsupported(f"Ref deref of {v!r}")


@model(r"^alloc::raw_vec", r"^std::alloc", r"^alloc::alloc")
def m_alloc(c, st):
    raise Unsupported(f"allocator internals: {c.name}")
