"""Integer terms (polynomials over atoms) and boolean formulas.

An int term is either a Python int or a Poly.  A formula is True/False or a
tuple:  ('ge',p)  p>=0   ('eq',p)  p==0   ('and',..) ('or',..) ('not',f).
Atoms are global: name, range [lo,hi] (hi may be None), and a list of
defining axioms (formulas) that hold for every valuation.
"""

INF = None


class Atom:
    __slots__ = ("id", "name", "lo", "hi", "axioms", "kind", "data", "users")

    def __init__(self, id, name, lo, hi, kind="var", data=None):
        self.id = id
        self.name = name
        self.lo = lo
        self.hi = hi
        self.kind = kind
        self.data = data
        self.axioms = []


ATOMS = []
_memo = {}


def reset():
    ATOMS.clear()
    _memo.clear()


def new_atom(name, lo=0, hi=None, kind="var", data=None):
    a = Atom(len(ATOMS), name, lo, hi, kind, data)
    ATOMS.append(a)
    return a


class Poly:
    __slots__ = ("m", "_h", "_iv", "_k")

    def __init__(self, m):
        self.m = m
        self._h = None
        self._iv = None
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.m.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __neg__(self):
        return mul(-1, self)

    def __repr__(self):
        return show(self)


def V(a):
    return Poly({(a.id,): 1})


def var(name, lo=0, hi=None, kind="var", data=None):
    return V(new_atom(name, lo, hi, kind, data))


def _norm(m):
    if not m:
        return 0
    if len(m) == 1 and () in m:
        return m[()]
    return Poly(m)


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        a, b = b, a
    m = dict(a.m)
    if isinstance(b, int):
        if b:
            v = m.get((), 0) + b
            if v:
                m[()] = v
            else:
                m.pop((), None)
    else:
        for k, c in b.m.items():
            v = m.get(k, 0) + c
            if v:
                m[k] = v
            else:
                m.pop(k, None)
    return _norm(m)


def sub(a, b):
    return add(a, mul(-1, b))


def mul(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a * b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        return Poly({k: c * b for k, c in a.m.items()})
    m = {}
    for k1, c1 in a.m.items():
        for k2, c2 in b.m.items():
            k = tuple(sorted(k1 + k2)) if k1 and k2 else (k1 or k2)
            v = m.get(k, 0) + c1 * c2
            if v:
                m[k] = v
            else:
                m.pop(k, None)
    return _norm(m)


def mono_iv(k):
    lo, hi = 1, 1
    i = 0
    while i < len(k):
        j = i
        while j < len(k) and k[j] == k[i]:
            j += 1
        a = ATOMS[k[i]]
        al, ah = a.lo, a.hi
        n = j - i
        if al is not None and al >= 0:
            l2, h2 = al**n, (None if ah is None else ah**n)
        elif n % 2 == 0:
            l2 = 0
            h2 = None if (ah is None or al is None) else max(abs(al), abs(ah)) ** n
        else:
            l2 = None if al is None else al**n
            h2 = None if ah is None else ah**n
        if lo == 1 and hi == 1:
            lo, hi = l2, h2
        elif lo is not None and lo >= 0 and l2 is not None and l2 >= 0:
            lo, hi = lo * l2, (None if hi is None or h2 is None else hi * h2)
            if h2 == 0 or hi == 0:
                pass
        else:
            if None in (lo, hi, l2, h2):
                lo = hi = None
            else:
                c = [lo * l2, lo * h2, hi * l2, hi * h2]
                lo, hi = min(c), max(c)
        i = j
    return lo, hi


def iv(t):
    """interval [lo,hi] from the atoms' own ranges"""
    if isinstance(t, int):
        return t, t
    if t._iv is not None:
        return t._iv
    lo, hi = 0, 0
    for k, c in t.m.items():
        l, h = mono_iv(k) if k else (1, 1)
        if c < 0:
            l, h = h, l
        if lo is not None:
            lo = None if l is None else lo + c * l
        if hi is not None:
            hi = None if h is None else hi + c * h
    t._iv = (lo, hi)
    return t._iv


def atoms_of(t):
    if isinstance(t, int):
        return set()
    s = set()
    for k in t.m:
        s.update(k)
    return s


def degree(t):
    if isinstance(t, int):
        return 0
    return max(len(k) for k in t.m)


def show(t):
    if isinstance(t, int):
        return str(t)
    out = []
    for k, c in sorted(t.m.items(), key=lambda x: (len(x[0]), x[0])):
        n = "*".join(ATOMS[i].name for i in k)
        if not k:
            out.append(str(c))
        elif c == 1:
            out.append(n)
        else:
            out.append(f"{c}*{n}")
    return " + ".join(out)


# ---------------------------------------------------------------- formulas
def ge0(p):
    if isinstance(p, int):
        return p >= 0
    lo, hi = iv(p)
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return False
    # integer tightening: divide by the gcd of the non-constant coefficients
    from math import gcd

    g = 0
    for k, c in p.m.items():
        if k:
            g = gcd(g, c)
            if g == 1:
                break
    if g > 1:
        m = {k: (c // g) for k, c in p.m.items() if k}
        c0 = p.m.get((), 0) // g
        if c0:
            m[()] = c0
        p = Poly(m)
    return ("ge", p)


def ge(a, b):
    return ge0(sub(a, b))


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), 1))


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    p = sub(a, b)
    if isinstance(p, int):
        return p == 0
    lo, hi = iv(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    # canonical sign
    if min(p.m.items())[1] < 0:
        p = mul(-1, p)
    return ("eq", p)


def ne(a, b):
    return Not(eq(a, b))


def Not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == "not":
        return f[1]
    if f[0] == "ge":
        return ge0(sub(mul(-1, f[1]), 1))
    if f[0] == "and":
        return Or(*[Not(x) for x in f[1:]])
    if f[0] == "or":
        return And(*[Not(x) for x in f[1:]])
    return ("not", f)


def And(*fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == "and":
            for x in f[1:]:
                if x not in out:
                    out.append(x)
        elif f not in out:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and",) + tuple(out)


def Or(*fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if f[0] == "or":
            for x in f[1:]:
                if x not in out:
                    out.append(x)
        elif f not in out:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or",) + tuple(out)


def Imp(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    if a == b:
        return True
    return And(Imp(a, b), Imp(b, a))


def fshow(f):
    if f is True or f is False:
        return str(f)
    if f[0] == "ge":
        pos, neg = {}, {}
        for k, c in f[1].m.items():
            (pos if c > 0 else neg)[k] = abs(c)
        return f"{show(_norm(pos))} >= {show(_norm(neg))}"
    if f[0] == "eq":
        pos, neg = {}, {}
        for k, c in f[1].m.items():
            (pos if c > 0 else neg)[k] = abs(c)
        return f"{show(_norm(pos))} == {show(_norm(neg))}"
    if f[0] == "not":
        return f"!({fshow(f[1])})"
    return "(" + (" & " if f[0] == "and" else " | ").join(fshow(x) for x in f[1:]) + ")"


def f_atoms(f, s=None):
    if s is None:
        s = set()
    if f is True or f is False:
        return s
    if f[0] in ("ge", "eq"):
        s |= atoms_of(f[1])
    else:
        for x in f[1:]:
            f_atoms(x, s)
    return s


def closure(fs):
    """all formulas plus defining axioms of every atom reachable"""
    seen = set()
    todo = []
    for f in fs:
        for a in f_atoms(f):
            if a not in seen:
                seen.add(a)
                todo.append(a)
    ax = []
    while todo:
        a = todo.pop()
        for f in ATOMS[a].axioms:
            ax.append(f)
            for b in f_atoms(f):
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
    return seen, ax


# ------------------------------------------------------ derived operations
def div(n, d):
    """floor division n // d (d>0 by context); memoised quotient atom"""
    if isinstance(d, int):
        if d == 1:
            return n
        if isinstance(n, int) and d != 0:
            return n // d
        if d > 0:
            # pull out exact multiples
            q, r = {}, {}
            for k, c in n.m.items():
                if c % d == 0:
                    q[k] = c // d
                elif not k:
                    if c // d:
                        q[k] = c // d
                    r[k] = c % d
                else:
                    r[k] = c
            q, r = _norm(q), _norm(r)
            if isinstance(r, int):
                return add(q, r // d)
            if not isinstance(q, int) or q != 0:
                return add(q, _div(r, d))
    return _div(n, d)


def _div(n, d):
    k = ("div", n, d)
    if k in _memo:
        return _memo[k]
    nl, nh = iv(n)
    dl, dh = iv(d)
    lo = 0
    hi = None
    if nl is not None and nl < 0:
        lo = nl
    if nh is not None:
        hi = max(nh, 0) // max(1, dl or 1)
    if nl is not None and nl >= 0 and dh and dh > 0:
        lo = nl // dh
    a = new_atom(f"q{len(ATOMS)}", lo, hi, "div", (n, d))
    q = V(a)
    r = sub(n, mul(q, d))
    ax = And(ge(r, 0), lt(r, d))
    if isinstance(d, int) or (dl is not None and dl >= 1):
        a.axioms.append(ax)
    else:
        a.axioms.append(Imp(ge(d, 1), ax))
    if nl is None or nl < 0:
        a.lo = None
    _memo[k] = q
    return q


def rem(n, d):
    return sub(n, mul(div(n, d), d))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b and type(a) == type(b):
        return a
    k = ("ite", c, a, b)
    if k in _memo:
        return _memo[k]
    al, ah = iv(a)
    bl, bh = iv(b)
    lo = None if al is None or bl is None else min(al, bl)
    hi = None if ah is None or bh is None else max(ah, bh)
    # boolean atom reuse
    if a == 1 and b == 0 and c[0] == "eq" and isinstance(c[1], Poly):
        m = c[1].m
        if len(m) == 2 and () in m:
            (kk, cc), = [(x, y) for x, y in m.items() if x]
            if len(kk) == 1 and ATOMS[kk[0]].lo == 0 and ATOMS[kk[0]].hi == 1 and cc == -m[()]:
                return Poly({kk: 1})
    x = new_atom(f"ite{len(ATOMS)}", lo, hi, "ite", (c, a, b))
    t = V(x)
    x.axioms.append(Imp(c, eq(t, a)))
    x.axioms.append(Imp(Not(c), eq(t, b)))
    _memo[k] = t
    return t


def uf(name, args, lo=0, hi=None):
    """memoised uninterpreted integer function value"""
    k = ("uf", name, tuple(args))
    if k in _memo:
        return _memo[k]
    t = var(f"{name}#{len(ATOMS)}", lo, hi, "uf", (name, tuple(args)))
    _memo[k] = t
    return t


def ev(t, env):
    """evaluate under env: atom id -> int"""
    if isinstance(t, int):
        return t
    r = 0
    for k, c in t.m.items():
        for i in k:
            c *= env(i)
        r += c
    return r


def fev(f, env):
    if f is True or f is False:
        return f
    if f[0] == "ge":
        return ev(f[1], env) >= 0
    if f[0] == "eq":
        return ev(f[1], env) == 0
    if f[0] == "not":
        return not fev(f[1], env)
    if f[0] == "and":
        return all(fev(x, env) for x in f[1:])
    return any(fev(x, env) for x in f[1:])


class Env:
    """total valuation: base atoms from dict (default 0/lo), derived computed"""

    def __init__(self, base):
        self.v = dict(base)

    def __call__(self, i):
        if i in self.v:
            return self.v[i]
        a = ATOMS[i]
        if a.kind == "div":
            d = ev(a.data[1], self)
            r = ev(a.data[0], self) // d if d > 0 else 0
        elif a.kind == "ite":
            c, x, y = a.data
            r = ev(x, self) if fev(c, self) else ev(y, self)
        else:
            r = a.lo or 0
        self.v[i] = r
        return r
