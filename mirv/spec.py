"""Specifications over the real functions, and how they are decided.

A Spec is a set of inputs, a precondition, a list of steps (calls of functions
under contract, later ones may use the results of earlier ones) and a
postcondition.  The same Python text of the specification is read two ways:
over terms, where it yields the formulas to be discharged on every path of the
functions' MIR, and over integers, where it judges one concrete execution of
the compiled code.
"""
import os, sys, time, pickle, json, random, traceback, signal
from . import terms as T
from .terms import Poly, And, Or, Not, Imp, Iff, ge, le, lt, gt, eq, ne, sub, add, mul, div, iv
from . import interp as IP, intrin, solver, loops
from .interp import Unsupported, NeedInvariant, Agg, En, SEn, Rope, Arr, P, Obj, UN, UNIT, State

PANIC = "panic"


class LostAnchor(Exception):
    """a function or type the specification speaks about is not there"""


class Inp:
    """attribute bag for inputs"""

    def __init__(self, d):
        self.__dict__.update(d)


class V:
    """an integer input"""

    def __init__(self, name, bits=None, lo=0, hi=None, special=()):
        self.name = name
        self.lo = lo
        self.hi = hi if hi is not None else 2**bits - 1
        self.special = special


class C:
    """an input ranging over a fixed list (split up front)"""

    def __init__(self, name, vals):
        self.name, self.vals = name, vals


class R(V):
    """an integer input, proved separately on each of consecutive intervals"""

    def __init__(self, name, cuts, special=()):
        V.__init__(self, name, lo=cuts[0], hi=cuts[-1] - 1, special=special)
        self.ranges = [(a, b - 1) for a, b in zip(cuts, cuts[1:])]


class When:
    """a step taken only under a condition on what came before"""

    def __init__(self, cond, call):
        self.cond, self.call = cond, call


class Api:
    """wrap: what a caller observes of an outcome, beyond the returned value
    (calls made, memory written): fn(interp, state, handles, result)"""

    def __init__(self, key, fn, build, wrap=None, alt=None, encode=None):
        self.key, self.fn, self.build, self.wrap, self.alt = key, fn, build, wrap, alt
        self.encode = encode  # arguments -> tokens of the replay request

    def locate(self, prog):
        """the name of the function in this program: the anchor's, or (alt) the
        only function of that type reached from another anchor (of several, the
        one none of the others calls), the named further anchors apart"""
        if self.fn in prog.byname:
            return self.fn
        if self.alt is None or self.alt[0] not in prog.byname:
            raise LostAnchor(f"function not found: {self.fn}")
        parent, sig = self.alt[:2]
        others = {APIS[k].locate(prog) for k in self.alt[2:]}
        found, seen, todo = set(), set(), [prog.byname[parent]]
        while todo:
            s = todo.pop()
            if s in seen or s not in prog.bodies:
                continue
            seen.add(s)
            for c in prog.callees(s):
                f = prog.fns.get(c)
                if f is None or not f.get("local") or c not in prog.bodies:
                    continue
                if tuple(prog.ty[t]["s"] for t in prog.argtys(c)) == sig and f["name"] not in others:
                    found.add(f["name"])
                todo.append(c)
        if len(found) > 1:
            found -= {prog.fns[c]["name"] for n in found for c in prog.callees(prog.byname[n]) if c != prog.byname[n] and c in prog.fns}
        if len(found) != 1:
            raise LostAnchor(f"function not found: {self.fn} (candidates {sorted(found)})")
        return found.pop()


APIS = {}


def api(key, fn, build=lambda *a: list(a), wrap=None, alt=None, encode=None):
    APIS[key] = Api(key, fn, build, wrap, alt, encode)


CONTRACTS = {}


class Contract:
    """Exact contract of a function: cases(*args) -> list of (guard, result),
    guards exclusive and exhaustive, results in normalised form.  Or, with
    `rel`, a relational one: shape() -> (result, fresh atoms), facts."""

    def __init__(self, key, api, inputs, cases=None, rel=None, pre=None, uses=(), loops=False, hints=None, timeout=None, argmap=None, twin=None, counted=None, parts=()):
        # twin: arguments of a call of the same function whose result a ghost
        # function of the relation stands for (None: no such call)
        self.twin = twin
        self.parts = parts  # of the counted loop, proved separately
        self.counted = counted  # the contract of the body's counted loop, from the inputs
        self.argmap = argmap  # arguments as seen at a call -> the contract's inputs
        self.key, self.api, self.inputs, self.cases, self.rel = key, api, inputs, cases, rel
        self.pre, self.uses, self.loops, self.hints = pre, uses, loops, hints
        self.timeout = timeout
        CONTRACTS[key] = self

    @property
    def fn(self):
        return APIS[self.api].fn


class Spec:
    def __init__(self, name, inputs, steps, post, pre=None, uses=(), panic="violation", cover=(), gen=None, timeout=None, hints=None, loops=False, proof=True, samples=None, deadline=None, stubs=None, refine=None, raw=()):
        self.raw = raw  # these functions are U256's own: its code is executed, not its model
        self.refine = refine  # (rng, inputs, results) -> further inputs to run, or None
        self.stubs = stubs or {}  # function name -> its abstraction: fn(call, state, H)
        self.name, self.inputs, self.steps, self.post, self.pre = name, inputs, steps, post, pre
        self.uses, self.panic, self.cover, self.gen = uses, panic, cover, gen
        self.timeout, self.hints, self.loops = timeout, hints, loops
        self.samples = samples
        self.proof = proof  # False: runs of the compiled code only, beside the specifications that prove it
        self.deadline = deadline


# ------------------------------------------------------------ value bridging
def is_opt(x):
    return (x.get("def") or "").endswith("option::Option")


def is_res(x):
    return (x.get("def") or "").endswith("result::Result")


def is_pubkey(x):
    return x["k"] == "struct" and (x.get("def") or "").endswith("::Pubkey")


class Bridge:
    def __init__(self, I):
        self.I = I

    def coerce(self, st, v, t):
        """Python-side value -> MIR value of type t"""
        I = self.I
        x = I.ty(t)
        k = x["k"]
        if isinstance(v, IP.Val):
            return v
        if k in ("ref", "ptr"):
            if isinstance(v, tuple) and v and v[0] == "bytes":
                # slice of symbolic bytes: ('bytes', Rope, len)
                a = I.new_alloc(st, None, v[1])
                return P(a, (), v[2])
            if isinstance(v, tuple) and v and v[0] == "slice":
                et = I.ty(x["e"])["e"]
                a = I.new_alloc(st, None, Arr([self.coerce(st, q, et) for q in v[1]]))
                return P(a, (("o", 0, et),), len(v[1]))
            if isinstance(v, tuple) and v and v[0] == "str":
                b = v[1].encode()
                return P(I.new_alloc(st, None, Rope([(len(b), int.from_bytes(b, "little"))] if b else [])), (), len(b))
            a = I.new_alloc(st, x["e"], self.coerce(st, v, x["e"]))
            return P(a)
        if I.is_u256(t):
            return v
        if is_pubkey(x):
            return Agg([Rope([(32, v)])])
        if k in ("int", "uint", "char"):
            return v
        if k == "bool":
            return v if isinstance(v, (bool, tuple)) else ge(v, 1)
        if k in ("struct",):
            if isinstance(v, tuple) and v and v[0] == "dyn":
                return self.mkdyn(st, v, t)
            d = x.get("def") or ""
            if d.endswith("::Rc"):
                et = x["args"][0]
                return Obj("rc", P(I.new_alloc(st, et, self.coerce(st, v, et))))
            if d.endswith("::RefCell"):
                return Agg([Agg([self.coerce(st, v, x["args"][0])]) if n == "value" else Agg([Agg([0])]) for n, _ in x["v"][0]["f"]])
            fs = x["v"][0]["f"]
            if isinstance(v, dict):
                if set(v) != set(f[0] for f in fs):
                    raise LostAnchor(f"fields of {x['s']} are {[f[0] for f in fs]}")
                return Agg([self.coerce(st, v[f[0]], f[1]) for f in fs])
            if isinstance(v, (list, tuple)):
                if len(v) != len(fs):
                    raise LostAnchor(f"fields of {x['s']}")
                return Agg([self.coerce(st, a, f[1]) for a, f in zip(v, fs)])
            raise Unsupported(f"coerce {v!r} to {x['s']}")
        if k in ("tuple",):
            return Agg([self.coerce(st, a, f) for a, f in zip(v, x["f"])])
        if k == "array" and isinstance(v, Rope):
            return v
        if k == "array" and isinstance(v, (list, tuple)):
            return Arr([self.coerce(st, a, x["e"]) for a in v])
        if k == "enum":
            if is_opt(x):
                if v is None:
                    return En(0)
                return En(1, [self.coerce(st, v[1], x["v"][1]["f"][0][1])])
            if is_res(x):
                i = 0 if v[0] == "ok" else 1
                return En(i, [self.coerce(st, v[1], x["v"][i]["f"][0][1])])
            if isinstance(v, tuple) and v[0] == "symenum":
                vs, dv = {}, {}
                for i, q in enumerate(x["v"]):
                    if q["name"] in v[2]:
                        dv[i], pl = v[2][q["name"]][0], v[2][q["name"]][1:]
                        vs[i] = tuple(self.coerce(st, a, f[1]) for a, f in zip(pl, q["f"]))
                if len(vs) != len(v[2]):
                    raise LostAnchor(f"variants of {x['s']}")
                return SEn(v[1], vs, dv)
            n = v if isinstance(v, str) else v[0]
            args = () if isinstance(v, str) else v[1:]
            for i, q in enumerate(x["v"]):
                if q["name"] == n:
                    return En(i, [self.coerce(st, a, f[1]) for a, f in zip(args, q["f"])])
            raise LostAnchor(f"variant {n} of {x['s']}")
        raise Unsupported(f"coerce to {x['s']}")

    def mkdyn(self, st, v, t):
        _, adt, val = v
        I = self.I
        if adt == "$mock":
            I.mocks.append(val)
            return intrin.mkbox(I, t, P(I.new_alloc(st, None, UNIT), (), ("vt", None, len(I.mocks) - 1)))
        try:
            ct = I.prog.find_adt("::" + adt)
        except Unsupported as e:
            raise LostAnchor(str(e))
        a = I.new_alloc(st, ct, self.coerce(st, val, ct))
        return intrin.mkbox(I, t, P(a, (), ("vt", ct)))

    def norm(self, st, v, t, depth=0):
        """MIR value -> [(state, Python-side value)] (splits symbolic enums)"""
        I = self.I
        x = I.ty(t)
        k = x["k"]
        if isinstance(v, Obj):
            return [(st, ("obj", v))]
        if isinstance(v, P) and isinstance(v.m, tuple) and len(v.m) > 2:
            return [(st, ("mock", v.m[2]))]
        if I.is_u256(t) or k in ("int", "uint", "char", "bool"):
            return [(st, v)]
        if is_pubkey(x) and isinstance(v, Agg) and isinstance(v.f[0], Rope):
            return [(st, v.f[0].int())]
        if x.get("box") and I.tk(x["args"][0]) == "dyn":
            q = I.boxptr(v)
            if isinstance(q.m, tuple) and (q.m[1] is not None or len(q.m) > 2):
                ct = q.m[1]
                if len(q.m) > 2:
                    return [(st, ("mock", q.m[2]))]
                return [(s, ("dyn", I.ty(ct)["def"].split("::")[-1], n)) for s, n in self.norm(st, I.read(st, q.a, q.p, ct), ct, depth + 1)]
        if k == "enum":
            if isinstance(v, SEn):
                out = []
                for i, fs in v.vs.items():
                    c = eq(v.d, v.dv[i])
                    if not I.pv.feasible(st.pc, c):
                        continue
                    s2 = st.copy()
                    s2.assume(c)
                    out += self.norm(s2, En(i, fs), t, depth)
                return out
            if not isinstance(v, En):
                raise Unsupported(f"norm {v!r}")
            fts = [f[1] for f in x["v"][v.v]["f"]]
            if is_opt(x) and v.v == 0:
                return [(st, None)]
            nm = x["v"][v.v]["name"]
            if is_opt(x):
                nm = "some"
            elif is_res(x):
                nm = "ok" if v.v == 0 else "err"
            if not fts:
                return [(st, nm)]
            return [(s, (nm,) + tuple(vs)) for s, vs in self.seq(st, v.f, fts, depth)]
        if k == "struct":
            if I.is_transparent_union(t):
                return [(st, v)]
            fs = x["v"][0]["f"]
            if not isinstance(v, Agg):
                return [(st, ("obj", v))]
            if not fs:
                return [(st, {})]
            if len(fs) != len(v.f):
                return [(st, ("obj", v))]
            return [(s, dict(zip([f[0] for f in fs], vs))) for s, vs in self.seq(st, v.f, [f[1] for f in fs], depth)]
        if I.raw and k == "array" and isinstance(v, Arr):
            return [(s, tuple(vs)) for s, vs in self.seq(st, v.e, [x["e"]] * len(v.e), depth)]
        if k in ("tuple",):
            return [(s, tuple(vs)) for s, vs in self.seq(st, v.f, x["f"], depth)]
        if k in ("ref", "ptr") and isinstance(v, P) and I.tk(x["e"]) not in ("slice", "str", "dyn"):
            return self.norm(st, I.read(st, v.a, v.p, x["e"]), x["e"], depth + 1)
        if k in ("ref", "ptr") and isinstance(v, P) and I.tk(x["e"]) == "slice" and isinstance(v.m, (int, Poly)):
            et = I.ty(x["e"])["e"]
            if I.is_u8(et):
                return [(st, ("bytes", self.slice(st, v, x["e"]), v.m))]
            if isinstance(v.m, int):
                w = self.slice(st, v, x["e"])
                return [(s, ("slice", vs)) for s, vs in self.seq(st, w.e, [et] * v.m, depth)]
        return [(st, ("obj", v))]

    def slice(self, st, v, t):
        """what a slice pointer points at: Arr or Rope"""
        I = self.I
        if v.p and isinstance(v.p[-1], tuple) and v.p[-1][0] == "o":
            if not isinstance(v.m, int):
                raise Unsupported("slice of symbolic length")
            return I.read(st, v.a, v.p, t, v.m)
        w = I.read(st, v.a, v.p)
        return I.rng(w, 0, v.m) if isinstance(v.m, int) and isinstance(w, (Arr, Rope)) else w

    def seq(self, st, vs, ts, depth):
        acc = [(st, [])]
        for v, t in zip(vs, ts):
            nxt = []
            for s, l in acc:
                for s2, x in self.norm(s, v, t, depth + 1):
                    nxt.append((s2, l + [x]))
            acc = nxt
        return acc


def pyargs(c, st, br):
    """normalised arguments of a call replaced by a contract"""
    out = []
    for v, t in zip(c.args, c.argtys):
        r = br.norm(st, v, t)
        if len(r) != 1:
            raise Unsupported("contract argument needs a split")
        out.append(r[0][1])
    return out


def flat(v):
    """flatten a normalised value to its scalar leaves (for contract inputs)"""
    if isinstance(v, dict):
        r = []
        for x in v.values():
            r += flat(x)
        return r
    if isinstance(v, tuple) and v and not (isinstance(v[0], str) and v[0] in ("ge", "eq", "not", "and", "or")):
        if v[0] == "obj":
            raise Unsupported("opaque contract argument")
        r = []
        for x in v:
            r += flat(x)
        return r
    return [v]


def mock_call(I):
    """a method of a trait object about which only its answers are known:
    the call is recorded, the answer is the specification's"""
    br = Bridge(I)

    def call(c, st):
        m = c.name.split("::")[-1]
        val = I.mocks[c.opaque]
        if m in val and callable(val[m]):
            return val[m](c, st, I.H)
        args = []
        for v, t in list(zip(c.args, c.argtys))[1:]:
            r = br.norm(st, v, t)
            if len(r) != 1:
                raise Unsupported("argument of a trait call needs a split")
            args.append(r[0][1])
        st.ghost["calls"] = st.ghost.get("calls", ()) + ((m,) + tuple(args),)
        if m not in val:
            raise Unsupported(f"unexpected call of {m}")
        return [(st, br.coerce(st, val[m], c.retty))]

    return call


def contract_fn(ct, I):
    br = Bridge(I)

    def call(c, st):
        a = []
        if ct.argmap is not None:
            a = ct.argmap(*pyargs(c, st, br))
        else:
            for x in pyargs(c, st, br):
                a += flat(x)
        if len(a) != len(ct.inputs):
            raise Unsupported(f"arguments of {ct.key}")
        # the contract is proved for its inputs' ranges
        fs = [And(ge(v, x.lo), le(v, x.hi)) for x, v in zip(ct.inputs, a) if isinstance(x, V) and not isinstance(v, bool)]
        fs += [any(v == y and type(v) is type(y) for y in x.vals) for x, v in zip(ct.inputs, a) if isinstance(x, C)]
        if ct.pre is not None:
            fs.append(ct.pre(*a))
        for f in fs:
            if I.decide(st, f) is not True and I.pv.prove(st.pc, f, timeout=10)[0] != "proved":
                raise Unsupported(f"precondition of {ct.key} not established at {I.where(st)}: {T.fshow(f)}")
        if ct.rel is not None:
            alts = ct.rel(*a)
            if not isinstance(alts, list):
                alts = [alts]
            out = []
            for j, (res, facts) in enumerate(alts):
                s2 = st if j == len(alts) - 1 else st.copy()
                f = And(*facts)
                if f is False or (len(alts) > 1 and not I.pv.feasible(s2.pc, f)):
                    continue
                s2.assume(f)
                s2.ghost["rel"] = s2.ghost.get("rel", ()) + ((ct.key, tuple(a), res),)
                out.append((s2, br.coerce(s2, res, c.retty)))
            return out
        out = []
        cur = st
        cs = ct.cases(*a)
        for i, (g, r) in enumerate(cs):
            if g is False:
                continue
            last = i == len(cs) - 1
            d = I.decide(cur, g)
            if d is False:
                continue
            if d is True or last:
                cur.assume(g)
                out.append((cur, br.coerce(cur, r, c.retty)))
                break
            s2 = cur.copy()
            s2.assume(g)
            out.append((s2, br.coerce(s2, r, c.retty)))
            cur.assume(Not(g))
        return out

    return call


def match(exp, got):
    """formula: normalised result `got` is `exp`"""
    if isinstance(exp, (int, Poly)) and not isinstance(exp, bool):
        if isinstance(got, (int, Poly)) and not isinstance(got, bool):
            return eq(exp, got)
        return False
    if exp is None or got is None:
        return exp is None and got is None
    if isinstance(exp, bool) or (isinstance(exp, tuple) and exp and exp[0] in ("ge", "eq", "not", "and", "or")):
        if isinstance(got, bool) or (isinstance(got, tuple) and got and got[0] in ("ge", "eq", "not", "and", "or")):
            return Iff(exp, got)
        return False
    if isinstance(exp, str):
        return exp == got
    if isinstance(exp, dict):
        return And(*[match(exp[k], got[k]) for k in exp]) if isinstance(got, dict) and all(k in got for k in exp) else False
    if isinstance(exp, tuple) and exp and exp[0] == "symenum":
        g = got if isinstance(got, tuple) else (got,)
        if g and g[0] in exp[2]:
            w = exp[2][g[0]]
            return And(eq(exp[1], w[0]), match(tuple(w[1:]), tuple(g[1:])))
        return False
    if isinstance(exp, tuple):
        if not isinstance(got, tuple) or len(got) != len(exp):
            return False
        return And(*[match(a, b) for a, b in zip(exp, got)])
    raise Unsupported(f"match {exp!r}")


# ------------------------------------------------------------------ running
class Ctx:
    """one task: an interpreter, a prover, and what was established"""

    def __init__(self, prog, tier="quick", nia_timeout=None):
        self.prog = prog
        self.pv = solver.Prover(nia_timeout=nia_timeout or (20 if tier == "quick" else 120))
        self.records = []
        self.funcs = set()
        self.models = set()
        self.contracts = set()
        self.npaths = 0
        self.consts = set()
        self.loopinfo = []

    def interp(self, uses=(), demoted=(), me=None):
        I = IP.Interp(self.prog, self.pv, intrin.MODELS)
        I.mocks = []
        I.opaque_call = mock_call(I)
        for k in uses:
            if k in demoted:
                continue
            ct = CONTRACTS[k]
            try:
                I.contracts[APIS[ct.api].locate(self.prog)] = contract_fn(ct, I)
            except LostAnchor:
                pass  # its callers inline whatever took its place
        return I

    def done(self, I):
        self.funcs |= {self.prog.fns[s]["name"] for s in I.used}
        self.models |= I.used_models
        self.contracts |= I.used_contracts
        self.npaths += I.npaths

    def sym(self, key):
        a = APIS[key]
        try:
            s = self.prog.find(a.locate(self.prog))
        except Unsupported as e:
            raise LostAnchor(str(e))
        if s not in self.prog.bodies:
            raise LostAnchor(f"no body for {a.fn}")
        return s

    def call(self, I, st, key, args):
        """outcomes of one API call: list of (state, result)"""
        a = APIS[key]
        s = self.sym(key)
        tys = self.prog.argtys(s)
        vals = a.build(*args)
        if len(vals) != len(tys):
            raise LostAnchor(f"arity of {a.fn}")
        br = Bridge(I)
        mv = [br.coerce(st, v, t) for v, t in zip(vals, tys)]
        st.frames = []
        st.ghost["mem0"] = dict(st.mem)
        rt = self.prog.retty(s)
        out = []
        name = self.prog.fns[s]["name"]
        if name in I.contracts:
            # the function's contract stands for it
            I.used_contracts.add(name)
            for s2, v in I.contracts[name](IP.Call(I, name, None, mv, tys, rt, None, s), st):
                for s3, r in br.norm(s2, v, rt):
                    out.append((s3, a.wrap(I, s3, mv, r) if a.wrap else r))
            return out
        for o in I.run(s, mv, st):
            if o.kind == "panic":
                out.append((o.st, (PANIC, o.why)))
            else:
                for s2, r in br.norm(o.st, o.val, rt):
                    out.append((s2, a.wrap(I, s2, mv, r) if a.wrap else r))
        return out

    def with_loops(self, f):
        """f(invs) run until the loop contracts are inductive"""
        r, invs = loops.run_with_loops(lambda invs: f(invs), None)
        return r, invs


def combos(inputs):
    cs = [x for x in inputs if isinstance(x, C)]
    acc = [{}]
    for c in cs:
        acc = [dict(a, **{c.name: v}) for a in acc for v in c.vals]
    for r in inputs:
        if isinstance(r, R):
            acc = [dict(a, **{r.name: v}) for a in acc for v in r.ranges]
    return acc


def ct_combos(ct):
    cs = combos(ct.inputs)
    return [dict(c, part=p) for c in cs for p in ct.parts] if ct.parts else cs


def input_terms(inputs, combo):
    d = dict(combo)
    for x in inputs:
        if isinstance(x, R):
            d[x.name] = T.var(x.name, *combo[x.name])
        elif isinstance(x, V):
            d[x.name] = T.var(x.name, x.lo, x.hi)
    return d


def cname(combo):
    return ",".join(f"{k}={v}" if not isinstance(v, tuple) or k == "part" else f"{k}:{v[0]:#x}..{v[1]:#x}" for k, v in combo.items())


def is_panic(r):
    return isinstance(r, tuple) and len(r) == 2 and r[0] == PANIC


def run_spec_combo(ctx, spec, combo, demoted):
    T.reset()
    d = input_terms(spec.inputs, combo)
    i = Inp(d)
    ivars = {n: min(T.atoms_of(t)) for n, t in d.items() if isinstance(t, Poly)}

    def go(invs):
        I = ctx.interp(spec.uses, demoted)
        I.raw = bool(spec.raw)
        I.invs = invs
        H = I.H = Inp(dict(I=I, br=Bridge(I), i=i))
        for nm, f in spec.stubs.items():
            I.contracts[nm] = lambda c, st, f=f: f(c, st, H)
        if spec.deadline:
            I.deadline = time.time() + spec.deadline
        st = State()
        if spec.pre is not None:
            st.assume(spec.pre(i))
        work = [(st, [])]
        final = []
        for step in spec.steps:
            nxt = []
            for s, rs in work:
                c = step(i, rs) if not (rs and is_panic(rs[-1])) else None
                if isinstance(c, When):
                    d = I.decide(s, c.cond)
                    if d is None:
                        final.append((s.copy(), rs))
                        final[-1][0].assume(Not(c.cond))
                        s.assume(c.cond)
                    c = None if d is False else c.call
                if c is None:
                    final.append((s, rs))
                    continue
                for s2, r in ctx.call(I, s, c[0], c[1:]):
                    nxt.append((s2, rs + [r]))
            work = nxt
        return I, final + work

    if spec.loops:
        (I, outs), invs = loops.run_with_loops(go, None)
        terminates(ctx, invs, spec.name + f"[{cname(combo)}]")
    else:
        I, outs = go({})
    ctx.done(I)
    base = spec.name + (f"[{cname(combo)}]" if combo else "")
    seen_cover = set()
    todo = []
    for n, (s, rs) in enumerate(outs):
        for f in s.pc:
            consts_of(f, ctx.consts)
        obl = []
        if rs and is_panic(rs[-1]):
            if spec.panic == "violation":
                obl.append((f"no panic ({rs[-1][1]})", False))
        else:
            for k, f in spec.post(i, rs):
                obl.append((k, f))
        for ck, cf in spec.cover:
            if ck not in seen_cover and not (rs and is_panic(rs[-1])) and cf(i, rs):
                seen_cover.add(ck)
        hints = cuts(spec.hints, i, rs, s.ghost) if spec.hints and not (rs and is_panic(rs[-1])) else ()
        for k, f in obl:
            todo.append((s.pc, f, hints, spec.timeout, dict(name=f"{base}/path{n}/{k}", spec=spec.name, combo=combo), ivars))
            if f is not True and f is not False:
                consts_of(f, ctx.consts)
    discharge(ctx, todo)
    return seen_cover


def cuts(f, *a):
    """intermediate facts: each is itself proved before it is used"""
    try:
        return tuple(f(*a))
    except Exception:
        if LEMDEBUG:
            traceback.print_exc()
        return ()


def lemmas(ctx, pc, hints, timeout=None):
    """the hints that were proved, each from those before it.  A hint is a
    formula, or a step of a proof whose soundness is plain:
      ("lin", f)          f, by linear arithmetic only
      ("mul", p, q)       from p >= 0 and q >= 0: p*q >= 0
      ("cancel", p, c)    from c >= 1 and p*c >= 1 - c: p >= 0
      ("by", f, hyps)     f, from the given formulas alone, each of them proved
      ("case", c, hs, hs', f)  f, from c with the hints hs and from not c with hs'
    """
    got = []
    pv = ctx.pv

    def ok(f, hyps=None, nia=True):
        r = pv.prove(pc + got if hyps is None else hyps, f, timeout=timeout or 10, want_model=False, nia=nia)[0] == "proved"
        if not r and LEMDEBUG:
            print("  LEMMA FAILED", T.fshow(f)[:600], file=sys.stderr)
        return r

    for h in hints:
        if h is True:
            continue
        if h is False or h[0] in ("ge", "eq", "not", "and", "or"):
            if ok(h):
                got.append(h)
        elif h[0] == "lin":
            if ok(h[1], nia=False):
                got.append(h[1])
        elif h[0] == "mul":
            if ok(ge(h[1], 0), nia=False) and ok(ge(h[2], 0), nia=False):
                got.append(ge(mul(h[1], h[2]), 0))
        elif h[0] == "cancel":
            if ok(ge(h[2], 1), nia=False) and ok(ge(mul(h[1], h[2]), sub(1, h[2])), nia=False):
                got.append(ge(h[1], 0))
        elif h[0] == "by":
            if all(ok(x, nia=False) for x in h[2]) and ok(h[1], list(h[2])):
                got.append(h[1])
        elif h[0] == "case":
            _, c, h1, h2, f = h
            good = True
            for cc, hs in ((c, h1), (Not(c), h2)):
                hy = pc + got + [cc]
                if not pv.prove(hy + lemmas(ctx, hy, hs, timeout), f, timeout=timeout or 10, want_model=False)[0] == "proved":
                    good = False
                    if LEMDEBUG:
                        print("  CASE FAILED", T.fshow(cc)[:200], "=>", T.fshow(f)[:600], file=sys.stderr)
                    break
            if good:
                got.append(f)
        else:
            raise Unsupported(f"hint {h[0]}")
    return got


LEMDEBUG = bool(os.environ.get("MIRV_LEM"))
SEM = None


def discharge(ctx, todo):
    """prove the collected obligations, several at a time"""
    rest = []
    for k, (pc, f, hints, to, rec, ivars) in enumerate(todo):
        # the cheap back ends first
        t0 = time.time()
        status, backend, env = ctx.pv.prove(pc, f, nia=False)
        if status == "unknown":
            rest.append(k)
        else:
            finish_rec(ctx, rec, status, backend, env, time.time() - t0, pc, f, ivars)
    if not rest:
        return

    memo = {}

    def one(k):
        pc, f, hints, to, rec, ivars = todo[k]
        if SEM is not None:
            SEM.acquire()
        try:
            t0 = time.time()
            key = (id(pc), id(hints))
            if key not in memo:
                memo[key] = lemmas(ctx, pc, hints) if hints else []
            status, backend, env = ctx.pv.prove(pc + memo[key], f, timeout=to)
        finally:
            if SEM is not None:
                SEM.release()
        finish_rec(ctx, rec, status, backend, env, time.time() - t0, pc, f, ivars)

    if len(rest) <= 2:
        for k in rest:
            one(k)
        return
    import multiprocessing

    nxt = multiprocessing.Value("i", 0)

    def worker():
        ctx.records = []
        for v in solver.STATS.values():
            v[0], v[1] = 0, 0.0
        while True:
            with nxt.get_lock():
                j = nxt.value
                nxt.value += 1
            if j >= len(rest):
                return ctx.records, {k: list(v) for k, v in solver.STATS.items()}
            one(rest[j])

    w = min(6, len(rest))
    res = run_tasks([(j, worker) for j in range(w)], w)
    for j in range(w):
        if res[j][0] != "ok":
            raise RuntimeError(f"discharge worker: {res[j]}")
        ctx.records += res[j][1][0]
        for k, v in res[j][1][1].items():
            solver.STATS[k][0] += v[0]
            solver.STATS[k][1] += v[1]


def finish_rec(ctx, rec, status, backend, env, t, pc, f, ivars):
    rec = dict(rec, status=status, backend=backend, t=t)
    if status != "proved":
        rec["pc"] = [T.fshow(x) for x in pc][:60]
        rec["goal"] = T.fshow(f)
        if env is not None:
            rec["inputs"] = {nm: env(a) for nm, a in ivars.items()}
    ctx.records.append(rec)


def consts_of(f, out):
    if f is True or f is False or len(out) > 400:
        return
    if f[0] in ("ge", "eq"):
        for k, c in f[1].m.items():
            if abs(c) > 1:
                out.add(abs(c))
    else:
        for x in f[1:]:
            consts_of(x, out)


def terminates(ctx, invs, base):
    """each loop under an inferred contract has a decreasing measure"""
    for v in invs.values():
        fn = ctx.prog.fns[v.sym]["name"]
        ctx.loopinfo.append(f"{fn} bb{v.hdr}: {len(v.kept - v.dropped)} inferred invariants, decreasing measure {'found' if v.rank else 'NOT found'}")
        ctx.records.append(dict(name=f"{base}/loop {fn} bb{v.hdr} terminates", status="proved" if v.rank else "unknown", backend="lia", t=0.0, goal="a decreasing measure"))


def check_contract(ctx, ct, demoted, only=None):
    """the body against its own contract"""
    for combo in ct_combos(ct) if only is None else [only]:
        T.reset()
        d = input_terms(ct.inputs, combo)
        names = [x.name for x in ct.inputs]
        a = [d[n] for n in names]
        ivars = {n: min(T.atoms_of(t)) for n, t in d.items() if isinstance(t, Poly)}

        def go(invs):
            I = ctx.interp(ct.uses, demoted)
            I.invs = invs
            if ct.counted is not None:
                cl = ct.counted(*a, **({"part": combo["part"]} if ct.parts else {}))
                I.invs[cl.find(I)] = cl
                ctx.loopinfo.append(f"{cl.fn}: one assertion per iteration")
                cl.records = ctx.records
            st = State()
            if ct.pre is not None:
                st.assume(ct.pre(*a))
            tw = ct.twin(*a) if ct.twin is not None else None
            if tw is None:
                return I, [(s, r, ()) for s, r in ctx.call(I, st, ct.api, a)]
            return I, [(s2, r, (q,)) for s, q in ctx.call(I, st, ct.api, tw) for s2, r in ctx.call(I, s, ct.api, a)]

        if ct.loops:
            (I, outs), invs = loops.run_with_loops(go, None)
            terminates(ctx, invs, f"contract {ct.key}[{cname(combo)}]")
        else:
            I, outs = go({})
        ctx.done(I)
        todo = []
        for n, (s, r, tw) in enumerate(outs):
            goals = []
            if tw and is_panic(tw[0]):
                continue  # reported by the twin's own obligations
            if is_panic(r):
                goals.append((f"no panic ({r[1]})", False))
            elif ct.rel is not None:
                goals.append(("relation", ct.rel(*a, got=r, **({"twin": tw[0]} if tw else {}))))
            else:
                neg = []
                for j, (g, x) in enumerate(ct.cases(*a)):
                    goals.append((f"case{j}", Imp(And(g, *neg), match(x, r))))
                    neg.append(Not(g))
            for k, f in goals:
                hints = cuts(ct.hints, a, r, s.ghost) if ct.hints and not is_panic(r) else ()
                todo.append((s.pc, f, hints, ct.timeout, dict(name=f"contract {ct.key}{'[' + cname(combo) + ']' if combo else ''}/path{n}/{k}", contract=ct.key), ivars))
        discharge(ctx, todo)


# ------------------------------------------------------------- task running
INNER = []


def run_tasks(tasks, jobs=8, limit=None, drop=None, cap=None):
    """tasks: list of (name, thunk).  Each runs in a forked process; returns
    {name: result or ('error', text)}.  drop(name, result, waiting), returns the
    names of the tasks this result makes pointless: they end as 'dropped'.  cap(name): a limit in seconds for that task"""

    def kill(pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except Exception:
            pass
        try:
            os.waitpid(pid, 0)
        except Exception:
            pass

    res = {}
    todo = list(tasks)
    live = {}
    t_end = time.time() + limit if limit else None
    while todo or live:
        while todo and len(live) < jobs:
            name, fn = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                if not INNER:
                    os.setpgid(0, 0)  # inner tasks end with the group of their parent
                INNER.append(1)
                try:
                    sys.setrecursionlimit(100000)
                    try:
                        out = ("ok", fn())
                    except LostAnchor as e:
                        out = ("lost", str(e))
                    except Unsupported as e:
                        out = ("unsupported", str(e))
                    except NeedInvariant as e:
                        out = ("unsupported", str(e))
                    except Exception:
                        out = ("error", traceback.format_exc())
                        if os.environ.get("MIRV_TRACE"):
                            sys.stderr.write(out[1])
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (name, pid, time.time() + (cap(name) if cap is not None else 10**9), [])
        import select

        rd, _, _ = select.select(list(live), [], [], 1.0)
        late = [r for r in live if r not in rd and time.time() > live[r][2]]
        for r in rd + late:
            name, pid, _, buf = live[r]
            if r in late:
                kill(pid)
                os.close(r)
                del live[r]
                res[name] = ("timeout", "time limit of the task")
            else:
                b = os.read(r, 1 << 20)
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                try:
                    res[name] = pickle.loads(b"".join(buf))
                except Exception:
                    res[name] = ("error", "task died")
            gone = drop(name, res[name], [n for n, _ in todo] + [v[0] for v in live.values()]) if drop is not None else ()
            if gone:
                todo = [x for x in todo if x[0] not in gone]
                for r2, (n2, pid2, _, _) in list(live.items()):
                    if n2 in gone:
                        kill(pid2)
                        os.close(r2)
                        del live[r2]
                for n2 in gone:
                    res[n2] = ("dropped", "a contract it rests on failed")
                break
        if t_end and time.time() > t_end:
            for r, (name, pid, _, _) in live.items():
                kill(pid)
                os.close(r)
                res[name] = ("timeout", "time limit")
            for name, _ in todo:
                res[name] = ("timeout", "not started")
            break
    return res


def spec_task(prog, spec, combo, demoted, tier):
    def f():
        ctx = Ctx(prog, tier)
        cov = run_spec_combo(ctx, spec, combo, demoted)
        return pack_ctx(ctx, cov)

    return f


def contract_task(prog, ct, demoted, tier, only=None):
    def f():
        ctx = Ctx(prog, tier)
        check_contract(ctx, ct, demoted, only)
        return pack_ctx(ctx, set())

    return f


def pack_ctx(ctx, cov):
    return dict(records=ctx.records, funcs=ctx.funcs, models=ctx.models, contracts=ctx.contracts, npaths=ctx.npaths, consts=ctx.consts, cover=cov, stats={k: list(v) for k, v in solver.STATS.items()}, loops=ctx.loopinfo)
