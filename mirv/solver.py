r"""Discharging verification conditions.

Formulas are over polynomials; the ladder is
  lia   z3 linear integer arithmetic with every nonlinear monomial opaque
  prod  the same after adding products of pairs of hypotheses (degree <= maxdeg)
  nia   z3 / z3-new / cvc5 on the nonlinear problem, in parallel
Every query is  hypotheses /\ not goal  and the obligation is discharged only
on "unsat".
"""
import os, subprocess, tempfile, time, itertools
import z3
from . import terms as T
from .terms import ATOMS, Poly, And, Or, Not, sub, mul, add, ge0, iv, mono_iv

STATS = {"lia": [0, 0.0], "prod": [0, 0.0], "nia": [0, 0.0], "syntactic": [0, 0.0], "feas": [0, 0.0]}
DEBUG = bool(os.environ.get("MIRV_DEBUG"))


class Lia:
    """incremental linear solver; formulas guarded by assumption literals"""

    def __init__(self, timeout=4000, reals=False):
        self.s = z3.SolverFor("QF_LIA") if not reals else z3.SolverFor("QF_LRA")
        self.s.set("timeout", int(timeout * BUSY))
        self.reals = reals
        self.mv = {}
        self.lits = {}
        self.alits = {}
        self.n = 0

    def mono(self, k):
        v = self.mv.get(k)
        if v is None:
            nm = "m" + "_".join(map(str, k))
            v = z3.Real(nm) if self.reals else z3.Int(nm)
            self.mv[k] = v
            lo, hi = mono_iv(k)
            if lo is not None:
                self.s.add(v >= lo)
            if hi is not None:
                self.s.add(v <= hi)
            if len(k) == 2:
                self.mccormick(k, v)
            elif len(k) > 2:
                # monotone bounds by one factor: k = a*rest
                for i in range(len(k)):
                    a = ATOMS[k[i]]
                    rest = k[:i] + k[i + 1 :]
                    rl, rh = mono_iv(rest)
                    if a.lo is not None and a.lo >= 0 and rl is not None and rl >= 0:
                        r = self.mono(rest)
                        self.s.add(v >= a.lo * r)
                        if a.hi is not None:
                            self.s.add(v <= a.hi * r)
        return v

    def mccormick(self, k, v):
        a, b = ATOMS[k[0]], ATOMS[k[1]]
        x, y = self.mono((k[0],)), self.mono((k[1],))
        if a.lo is not None and b.lo is not None:
            self.s.add(v >= a.lo * y + b.lo * x - a.lo * b.lo)
            if a.hi is not None:
                self.s.add(v <= a.hi * y + b.lo * x - a.hi * b.lo)
            if b.hi is not None:
                self.s.add(v <= b.hi * x + a.lo * y - b.hi * a.lo)
        if a.hi is not None and b.hi is not None:
            self.s.add(v >= a.hi * y + b.hi * x - a.hi * b.hi)

    def poly(self, p):
        if isinstance(p, int):
            return z3.IntVal(p)
        ts = []
        for k, c in p.m.items():
            if not k:
                ts.append(z3.IntVal(c) if not self.reals else z3.RealVal(c))
            elif c == 1:
                ts.append(self.mono(k))
            else:
                ts.append(c * self.mono(k))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def enc(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        o = f[0]
        if o == "ge":
            pos, neg = {}, {}
            for k, c in f[1].m.items():
                (pos if c > 0 else neg)[k] = abs(c)
            return self.poly(T._norm(pos)) >= self.poly(T._norm(neg))
        if o == "eq":
            pos, neg = {}, {}
            for k, c in f[1].m.items():
                (pos if c > 0 else neg)[k] = abs(c)
            return self.poly(T._norm(pos)) == self.poly(T._norm(neg))
        if o == "not":
            return z3.Not(self.enc(f[1]))
        if o == "and":
            return z3.And(*[self.enc(x) for x in f[1:]])
        return z3.Or(*[self.enc(x) for x in f[1:]])

    def lit(self, f):
        l = self.lits.get(f)
        if l is None:
            l = z3.Bool(f"l{len(self.lits)}")
            self.lits[f] = l
            self.s.add(z3.Implies(l, self.enc(f)))
        return l

    def alit(self, a):
        l = self.alits.get(a)
        if l is None:
            l = z3.Bool(f"a{a}")
            self.alits[a] = l
            for f in ATOMS[a].axioms:
                self.s.add(z3.Implies(l, self.enc(f)))
        return l

    def check(self, fs, ax=True):
        """fs: list of formulas; returns 'sat'/'unsat'/'unknown'"""
        self.n += 1
        ls = []
        for f in fs:
            if f is True:
                continue
            if f is False:
                return "unsat"
            ls.append(self.lit(f))
        if ax:
            seen, _ = T.closure([f for f in fs if f is not True])
            for a in seen:
                if ATOMS[a].axioms:
                    ls.append(self.alit(a))
        r = self.s.check(*ls)
        return str(r)

    def model_env(self):
        m = self.s.model()
        base = {}
        for k, v in self.mv.items():
            if len(k) == 1 and ATOMS[k[0]].kind not in ("div", "ite"):
                x = m.eval(v, model_completion=False)
                if z3.is_int_value(x):
                    base[k[0]] = x.as_long()
        return T.Env(base)


def smt2(fs, logic="QF_NIA", ints=True):
    seen, ax = T.closure(fs)
    allf = list(fs) + ax
    out = [f"(set-logic {logic})"]
    srt = "Int" if ints else "Real"
    for a in sorted(seen):
        out.append(f"(declare-const x{a} {srt})")
        at = ATOMS[a]
        if at.lo is not None:
            out.append(f"(assert (>= x{a} {num(at.lo)}))")
        if at.hi is not None:
            out.append(f"(assert (<= x{a} {num(at.hi)}))")
    for f in allf:
        out.append(f"(assert {senc(f)})")
    out.append("(check-sat)")
    return "\n".join(out) + "\n", seen


def num(n):
    return str(n) if n >= 0 else f"(- {-n})"


def senc_p(p):
    if isinstance(p, int):
        return num(p)
    ts = []
    for k, c in p.m.items():
        fac = [f"x{i}" for i in k]
        if c != 1 or not fac:
            fac = [num(c)] + fac
        ts.append(fac[0] if len(fac) == 1 else "(* " + " ".join(fac) + ")")
    return ts[0] if len(ts) == 1 else "(+ " + " ".join(ts) + ")"


def senc(f):
    if f is True:
        return "true"
    if f is False:
        return "false"
    if f[0] in ("ge", "eq"):
        pos, neg = {}, {}
        for k, c in f[1].m.items():
            (pos if c > 0 else neg)[k] = abs(c)
        op = ">=" if f[0] == "ge" else "="
        return f"({op} {senc_p(T._norm(pos))} {senc_p(T._norm(neg))})"
    if f[0] == "not":
        return f"(not {senc(f[1])})"
    return f"({f[0]} " + " ".join(senc(x) for x in f[1:]) + ")"


def run_parallel(cmds, text, timeout):
    """run several solvers on the same text, first definite answer wins"""
    fd, path = tempfile.mkstemp(suffix=".smt2", prefix="mirv")
    os.write(fd, text.encode())
    os.close(fd)
    procs = []
    try:
        for name, c in cmds:
            procs.append((name, subprocess.Popen(c + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        t0 = time.time()
        live = list(procs)
        res, who, outp = "unknown", "", ""
        while live and time.time() - t0 < timeout:
            for it in list(live):
                n, p = it
                if p.poll() is not None:
                    o = p.stdout.read()
                    live.remove(it)
                    first = o.strip().split("\n")[0] if o.strip() else ""
                    if first in ("unsat", "sat"):
                        return first, n, o
            time.sleep(0.01)
        return res, who, outp
    finally:
        for n, p in procs:
            if p.poll() is None:
                p.kill()
            try:
                p.wait(timeout=5)
            except Exception:
                pass
        os.unlink(path)


def lits_ge(f, out):
    """collect conjunctive ge/eq facts"""
    if f is True or f is False:
        return
    if f[0] == "and":
        for x in f[1:]:
            lits_ge(x, out)
    elif f[0] == "ge":
        out.append(f[1])
    elif f[0] == "eq":
        out.append(f[1])
        out.append(mul(-1, f[1]))


# time limits are for an idle machine; a busy one gets longer ones
BUSY = min(4.0, max(1.0, os.getloadavg()[0] / (os.cpu_count() or 1)))


class Prover:
    def __init__(self, nia_timeout=20, prod_deg=4):
        self.lia = Lia()
        self.nia_timeout = nia_timeout
        self.prod_deg = prod_deg
        self.log = []
        self.cache = {}

    # ---- feasibility (never used to discharge an obligation by itself)
    def feasible(self, pc, f):
        t = time.time()
        r = self.lia.check(list(pc) + [f])
        STATS["feas"][0] += 1
        STATS["feas"][1] += time.time() - t
        return r != "unsat"

    def prove(self, hyps, goal, hints=(), timeout=None, want_model=True, nia=True, tag=""):
        """returns (status, backend, env) with status proved|refuted|unknown"""
        if goal is True:
            STATS["syntactic"][0] += 1
            return "proved", "syntactic", None
        if goal is not False and goal[0] == "and":
            last = None
            for g in goal[1:]:
                last = self.prove(hyps, g, hints, timeout, want_model, nia, tag)
                if last[0] != "proved":
                    return last
            return last
        hyps = [h for h in hyps if h is not True]
        if goal in hyps:
            STATS["syntactic"][0] += 1
            return "proved", "syntactic", None
        neg = Not(goal)
        fs = hyps + list(hints) + ([neg] if neg is not True else [])
        if any(f is False for f in fs):
            STATS["syntactic"][0] += 1
            return "proved", "syntactic", None
        t = time.time()
        r = self.lia.check(fs)
        STATS["lia"][1] += time.time() - t
        if r == "unsat":
            STATS["lia"][0] += 1
            return "proved", "lia", None
        env = None
        if r == "sat" and want_model:
            try:
                env = self.lia.model_env()
                if not all(T.fev(f, env) for f in fs):
                    env = None
            except Exception:
                env = None
        if env is not None:
            return "refuted", "lia", env
        if not nia:
            return "unknown", "lia", None
        # relevance filter
        if nia:
            t = time.time()
            r = self.products(fs)
            STATS["prod"][1] += time.time() - t
            if r:
                STATS["prod"][0] += 1
                return "proved", "prod", None
            t = time.time()
            r, who, e = self.nia(fs, timeout or self.nia_timeout)
            STATS["nia"][1] += time.time() - t
            if r == "unsat":
                STATS["nia"][0] += 1
                return "proved", "nia:" + who, None
            if r == "sat":
                return "refuted", "nia:" + who, e
        return "unknown", "", None

    def products(self, fs, maxn=40, deg=None):
        deg = deg or self.prod_deg
        seen, ax = T.closure(fs)
        facts = []
        for f in list(fs) + ax:
            lits_ge(f, facts)
        facts = [p for p in dict.fromkeys(facts) if not isinstance(p, int)]
        base = []
        for a in seen:
            at = ATOMS[a]
            if at.lo is not None:
                base.append(sub(T.V(at), at.lo))
        facts = facts[-maxn:] + base
        facts = facts[:90]
        extra = []
        for i in range(len(facts)):
            for j in range(i, len(facts)):
                if T.degree(facts[i]) + T.degree(facts[j]) <= deg:
                    p = mul(facts[i], facts[j])
                    if not isinstance(p, int):
                        extra.append(p)
        if len(extra) > 3000:
            extra = extra[:3000]
        L = Lia(timeout=6000, reals=True)
        for f in list(fs) + ax:
            L.s.add(L.enc(f))
        for p in extra:
            L.s.add(L.enc(("ge", p)))
        return str(L.s.check()) == "unsat"

    def nia(self, fs, timeout):
        text, seen = smt2(fs)
        t2 = text + "(get-model)\n"
        timeout *= BUSY
        to = int(timeout)
        cmds = [
            ("z3", ["z3", f"-T:{to}"]),
            ("z3-new", ["z3-new", f"-T:{to}"]),
            ("cvc5", ["cvc5", "--produce-models", "--nl-ext-tplanes", f"--tlimit={to*1000}"]),
        ]
        r, who, out = run_parallel(cmds, t2, timeout)
        env = None
        if r == "sat":
            import re

            base = {}
            for m in re.finditer(r"\(define-fun x(\d+) \(\) Int\s+(\(- \d+\)|\d+)\)", out):
                v = m.group(2)
                base[int(m.group(1))] = int(v) if v[0] != "(" else -int(v[3:-1])
            env = T.Env({k: v for k, v in base.items() if ATOMS[k].kind not in ("div", "ite")})
            try:
                if not all(T.fev(f, env) for f in fs):
                    env = None
            except Exception:
                env = None
        return r, who, env
