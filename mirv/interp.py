"""Symbolic executor for the MIR written by mirdump.

Every path of a function body is executed over symbolic inputs (terms.py);
the states that reach a return (or a panic) are the verification-condition
generator's strongest postconditions.  Calls are resolved as rustc resolved
them; a call is replaced by a contract when one is registered for it, by a
model when the callee is one of the trusted primitives (intrin.py), and
otherwise by the callee's own MIR.
"""
import re
import json
import time
from . import terms as T
from .terms import Poly, And, Or, Not, ge, le, lt, gt, eq, sub, add, mul, iv


class Unsupported(Exception):
    pass


class NeedInvariant(Exception):
    def __init__(self, sym, hdr, why):
        super().__init__(f"loop needs invariant: {sym} bb{hdr} ({why})")
        self.sym, self.hdr = sym, hdr


# ------------------------------------------------------------------ values
class Val:
    __slots__ = ()


class Agg(Val):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.f)) + "}"


class En(Val):
    __slots__ = ("v", "f")

    def __init__(self, v, f=()):
        self.v = v
        self.f = tuple(f)

    def __repr__(self):
        return f"#{self.v}" + ("(" + ", ".join(map(repr, self.f)) + ")" if self.f else "")


class SEn(Val):
    """enum with a symbolic discriminant; d is the discriminant value"""

    __slots__ = ("d", "vs", "dv")

    def __init__(self, d, vs, dv):
        self.d = d
        self.vs = vs  # variant index -> fields tuple
        self.dv = dv  # variant index -> discriminant value

    def __repr__(self):
        return f"#<{self.d}>{self.vs}"


class Rope(Val):
    """bytes: tuple of (width, little-endian integer term)"""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = tuple(s)

    def n(self):
        return sum(w for w, _ in self.s)

    def __repr__(self):
        return f"Rope{self.s}"

    def split(self, i):
        """two lists of segments, at byte i"""
        a, b = [], []
        o = 0
        for w, t in self.s:
            if o + w <= i:
                a.append((w, t))
            elif o >= i:
                b.append((w, t))
            else:
                k = i - o
                if t is UN:
                    a.append((k, UN))
                    b.append((w - k, UN))
                else:
                    hi = T.div(t, 256**k)
                    a.append((k, sub(t, mul(hi, 256**k))))
                    b.append((w - k, hi))
            o += w
        if o < i:
            raise Unsupported("rope split out of range")
        return a, b

    def get(self, o, n):
        _, b = self.split(o)
        a, _ = Rope(b).split(n)
        return Rope(merge(a))

    def put(self, o, r):
        a, rest = self.split(o)
        _, b = Rope(rest).split(r.n())
        return Rope(merge(a + list(r.s) + b))

    def int(self):
        o, t = 0, 0
        for w, x in self.s:
            if x is UN:
                raise Unsupported("read of uninitialised bytes")
            t = add(t, mul(256**o, x))
            o += w
        return t


def merge(segs):
    out = []
    for w, t in segs:
        if w == 0:
            continue
        if out and isinstance(t, int) and isinstance(out[-1][1], int):
            pw, pt = out[-1]
            out[-1] = (pw + w, pt + (t << (8 * pw)))
        elif out and t is UN and out[-1][1] is UN:
            out[-1] = (out[-1][0] + w, UN)
        else:
            out.append((w, t))
    return out


class Arr(Val):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return f"Arr{list(self.e)}"


class P(Val):
    __slots__ = ("a", "p", "m")

    def __init__(self, a, p=(), m=None):
        self.a, self.p, self.m = a, tuple(p), m

    def __repr__(self):
        return f"&{self.a}{list(self.p) if self.p else ''}" + (f"[{self.m}]" if self.m is not None else "")


class Obj(Val):
    __slots__ = ("k", "d")

    def __init__(self, k, d=None):
        self.k, self.d = k, d

    def __repr__(self):
        return f"<{self.k} {self.d}>"


class FnV(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"fn{self.t}"


class _Un(Val):
    def __repr__(self):
        return "UNINIT"


UN = _Un()
UNIT = Agg(())


def some(x):
    return En(1, (x,))


NONE = En(0)


def ok(x):
    return En(0, (x,))


def err(x):
    return En(1, (x,))


# ------------------------------------------------------------------ states
class Frame:
    __slots__ = ("sym", "body", "loc", "bb", "dest", "ret", "visits", "forks", "inv", "prev")

    def copy(self):
        f = Frame()
        f.sym, f.body, f.loc, f.bb, f.dest, f.ret = self.sym, self.body, self.loc, self.bb, self.dest, self.ret
        f.visits = dict(self.visits)
        f.forks = dict(self.forks)
        f.inv = self.inv
        f.prev = self.prev
        return f


class State:
    __slots__ = ("pc", "mem", "aty", "frames", "ghost", "hints", "steps")

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.aty = {}
        self.frames = []
        self.ghost = {}
        self.hints = []
        self.steps = 0

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.aty = dict(self.aty)
        s.frames = [f.copy() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.hints = list(self.hints)
        s.steps = self.steps
        return s

    def assume(self, f):
        if f is True:
            return
        if f is not False and f[0] == "and":
            for x in f[1:]:
                self.assume(x)
            return
        if f not in self.pc:
            self.pc.append(f)


class Outcome:
    __slots__ = ("kind", "val", "st", "why")

    def __init__(self, kind, val, st, why=""):
        self.kind, self.val, self.st, self.why = kind, val, st, why

    def __repr__(self):
        return f"Outcome({self.kind} {self.val} {self.why})"


class Call:
    """what a model or a contract sees of a call"""

    def __init__(self, I, name, inst, args, argtys, retty, frame, sym):
        self.I, self.name, self.inst, self.args, self.argtys, self.retty, self.frame, self.sym = (
            I, name, inst, args, argtys, retty, frame, sym)


class Panic:
    def __init__(self, why):
        self.why = why


class Program:
    def __init__(self, dump):
        d = json.load(open(dump)) if isinstance(dump, str) else dump
        self.ty = {int(k): v for k, v in d["tys"].items()}
        for k, v in self.ty.items():
            if v["k"] == "pat":
                b = dict(self.ty[v["e"]])
                self.ty[k] = b
        self.fns = d["fns"]
        self.bodies = d["bodies"]
        self.layouts = {int(k): v for k, v in d["layouts"].items()}
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.vt = {}
        for f, c, inst in d["vtable"]:
            self.vt[(f, c)] = inst
        self.coerce = d["coerce"]
        self.byname = {}
        for s, f in self.fns.items():
            self.byname.setdefault(f["name"], s)
        self.tyname = {}
        for k, v in self.ty.items():
            self.tyname.setdefault(v.get("s"), k)
        self._loops = {}

    def find(self, name):
        """symbol of the function instance with this name"""
        s = self.byname.get(name)
        if s is None:
            raise Unsupported(f"function not found: {name}")
        return s

    def find_ty(self, pat):
        for k, v in self.ty.items():
            if v.get("s") == pat:
                return k
        raise Unsupported(f"type not found: {pat}")

    def find_adt(self, pat):
        for k, v in self.ty.items():
            if v.get("k") in ("struct", "enum", "union") and (v.get("def") or "").endswith(pat):
                return k
        raise Unsupported(f"adt not found: {pat}")

    def argtys(self, sym):
        b = self.bodies[sym]
        return [l["ty"] for l in b["locals"][1 : b["arg_count"] + 1]]

    def retty(self, sym):
        return self.bodies[sym]["locals"][0]["ty"]

    def callees(self, sym):
        """symbols called directly from sym's body"""
        out = []
        for blk in self.bodies[sym]["blocks"]:
            t = blk["terminator"]["kind"]
            if isinstance(t, dict) and "Call" in t and "Constant" in t["Call"]["func"]:
                x = self.ty[t["Call"]["func"]["Constant"]["const_"]["ty"]]
                if x.get("inst"):
                    out.append(x["inst"]["sym"])
        return out

    # -- natural loops: header -> set of blocks
    def loops(self, sym):
        if sym in self._loops:
            return self._loops[sym]
        b = self.bodies[sym]["blocks"]
        succ = [succs(x["terminator"]["kind"]) for x in b]
        n = len(b)
        # back edges by DFS with dominators (iterative)
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        rpo = order[::-1]
        idx = {x: i for i, x in enumerate(rpo)}
        pred = {x: [] for x in rpo}
        for x in rpo:
            for y in succ[x]:
                pred[y].append(x)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in rpo[1:]:
                ps = [p for p in pred[x] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    d = a
                if idom.get(x) != d:
                    idom[x] = d
                    ch = True

        def dom(a, x):
            while True:
                if a == x:
                    return True
                if x == 0:
                    return False
                x = idom[x]

        res = {}
        for x in rpo:
            for h in succ[x]:
                if dom(h, x):
                    s = res.setdefault(h, {h})
                    todo = [x]
                    while todo:
                        y = todo.pop()
                        if y not in s:
                            s.add(y)
                            todo.extend(pred[y])
        self._loops[sym] = res
        return res


def succs(t):
    if isinstance(t, str):
        return []
    k = next(iter(t))
    v = t[k]
    if k == "Goto":
        return [v["target"]]
    if k == "SwitchInt":
        return [b for _, b in v["targets"]["branches"]] + [v["targets"]["otherwise"]]
    if k in ("Call", "Assert", "Drop"):
        return [v["target"]] if v.get("target") is not None else []
    return []


INTK = ("int", "uint")


class Interp:
    def __init__(self, prog, prover, models, contracts=None):
        self.prog = prog
        self.pv = prover
        self.models = models
        self.contracts = contracts or {}
        self.nalloc = 0
        self.gallocs = {}
        self.mcache = {}
        self.invs = {}
        self.max_unroll = 400
        self.max_sym_iter = 6
        self.trace = False
        self.used = set()  # crate functions whose own MIR was executed
        self.used_contracts = set()
        self.used_models = set()
        self.visited = {}  # sym -> set of blocks
        self.deadline = None
        self.opaque_call = None
        self.gmem = {}
        self.gty = {}
        self.npaths = 0

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.prog.ty[i]

    def tk(self, i):
        return self.prog.ty[i]["k"]

    def int_range(self, t):
        v = self.ty(t)
        if v["k"] == "uint":
            return 0, 2 ** v["w"] - 1
        if v["k"] == "int":
            return -(2 ** (v["w"] - 1)), 2 ** (v["w"] - 1) - 1
        if v["k"] == "char":
            return 0, 0x10FFFF
        raise Unsupported(f"int_range {v}")

    def is_u8(self, t):
        v = self.ty(t)
        return v["k"] == "uint" and v["w"] == 8

    def fields(self, t, v=0):
        x = self.ty(t)
        k = x["k"]
        if k in ("struct", "union"):
            return [f[1] for f in x["v"][0]["f"]]
        if k == "enum":
            return [f[1] for f in x["v"][v]["f"]]
        if k in ("tuple", "closure"):
            return x["f"]
        return []

    def is_zst(self, t):
        x = self.ty(t)
        k = x["k"]
        if k in ("never", "fndef"):
            return True
        if k in ("tuple", "closure", "struct"):
            return all(self.is_zst(f) for f in self.fields(t))
        if k == "union":
            return all(self.is_zst(f) for f in self.fields(t))
        if k == "enum":
            return len(x["v"]) == 1 and all(self.is_zst(f) for f in self.fields(t))
        if k == "array":
            return x["n"] == 0 or self.is_zst(x["e"])
        return False

    def is_transparent_union(self, t):
        x = self.ty(t)
        return x["k"] == "union"

    raw = False

    def is_u256(self, t):
        return not self.raw and self.ty(t)["k"] == "struct" and self.ty(t).get("def") == "spl_math::uint::U256"

    def disc(self, t, v):
        x = self.ty(t)
        d = int(x["v"][v]["discr"])
        y = self.prog.ty.get(x.get("dty"))
        if y is not None and y["k"] == "int" and d >= 2 ** (y["w"] - 1):
            d -= 2 ** y["w"]
        return d

    def variant_of(self, t, d):
        for i in range(len(self.ty(t)["v"])):
            if self.disc(t, i) == d:
                return i
        raise Unsupported("bad discriminant")

    # ------------------------------------------------------------ allocation
    def new_alloc(self, st, ty, val=UN):
        self.nalloc += 1
        a = self.nalloc
        st.mem[a] = val
        st.aty[a] = ty
        return a

    def getmem(self, st, a):
        if a in st.mem:
            return st.mem[a]
        if a in self.gmem:
            return self.gmem[a]
        raise Unsupported(f"dangling pointer to {a}")

    def getaty(self, st, a):
        return st.aty[a] if a in st.aty else self.gty[a]

    # ------------------------------------------------------------ fresh values
    def fresh(self, t, name, st=None, depth=0, deep=False):
        """an arbitrary value of type t"""
        x = self.ty(t)
        k = x["k"]
        if self.is_u256(t):
            return T.var(name, 0, 2**256 - 1)
        if k in INTK or k == "char":
            lo, hi = self.int_range(t)
            return T.var(name, lo, hi)
        if k == "bool":
            v = T.var(name, 0, 1)
            return ge(v, 1)
        if k in ("tuple", "closure"):
            return Agg([self.fresh(f, f"{name}.{i}", st, depth + 1) for i, f in enumerate(x["f"])])
        if k == "struct":
            if "Rc<" in x["s"][:12]:
                return Obj("opaque", name)
            return Agg([self.fresh(f[1], f"{name}.{f[0]}", st, depth + 1) for f in x["v"][0]["f"]])
        if k == "enum":
            ds = [self.disc(t, i) for i in range(len(x["v"]))]
            if not ds:
                return UN
            if len(ds) == 1:
                return En(0, [self.fresh(f[1], f"{name}.{f[0]}", st, depth + 1) for f in x["v"][0]["f"]])
            d = T.var(name + ".discr", min(ds), max(ds))
            vs = {}
            for i, v in enumerate(x["v"]):
                vs[i] = tuple(self.fresh(f[1], f"{name}.{v['name']}.{f[0]}", st, depth + 1) for f in v["f"])
            s = SEn(d, vs, {i: q for i, q in enumerate(ds)})
            gap = Or(*[eq(d, q) for q in ds])
            if gap is not True and st is not None and max(ds) - min(ds) + 1 != len(ds):
                st.assume(gap)
            return s
        if k == "array":
            if self.is_u8(x["e"]):
                return Rope([(x["n"], T.var(name, 0, 256 ** x["n"] - 1))]) if x["n"] else Rope([])
            return Arr([self.fresh(x["e"], f"{name}[{i}]", st, depth + 1) for i in range(x["n"])])
        if k in ("ref", "ptr") and st is not None and self.tk(x["e"]) not in ("slice", "str", "dyn"):
            a = self.new_alloc(st, x["e"], self.fresh(x["e"], "*" + name, st, depth + 1))
            return P(a)
        return Obj("opaque", name)

    # ------------------------------------------------------------ constants
    def size(self, t):
        l = self.layout(t)
        return l["size"]["num_bits"] // 8 if isinstance(l["size"], dict) else l["size"]

    def layout(self, t):
        l = self.prog.layouts.get(t)
        if l is None:
            raise Unsupported(f"no layout for {self.ty(t)['s']}")
        if isinstance(l, str):
            l = json.loads(l)
            self.prog.layouts[t] = l
        return l

    def ropeint(self, bs):
        return int.from_bytes(bytes(b or 0 for b in bs), "little")

    def decode(self, t, bs, prov, o=0):
        x = self.ty(t)
        k = x["k"]
        if self.is_u256(t):
            return self.ropeint(bs[o : o + 32])
        if k in INTK or k in ("bool", "char"):
            n = {"bool": 1, "char": 4}.get(k) or x["w"] // 8
            if k == "int":
                return int.from_bytes(bytes(b or 0 for b in bs[o : o + n]), "little", signed=True)
            v = self.ropeint(bs[o : o + n])
            return bool(v) if k == "bool" else v
        if k in ("ref", "ptr"):
            e = x["e"]
            ek = self.tk(e)
            meta = None
            if ek in ("slice", "str"):
                meta = self.ropeint(bs[o + 8 : o + 16])
            elif ek == "dyn":
                vt = prov.get(o + 8)
                g = self.prog.allocs.get(vt) if vt is not None else None
                meta = ("vt", g["VTable"]) if g and "VTable" in g else ("vt", None)
            if o in prov:
                return self.gptr(prov[o], e, self.ropeint(bs[o : o + 8]), meta)
            return P(("dangling", self.ropeint(bs[o : o + 8])), (), meta)
        if k == "array":
            if self.is_u8(x["e"]):
                return Rope(merge([(1, b if b is not None else UN) for b in bs[o : o + x["n"]]]))
            es = self.size(x["e"])
            return Arr([self.decode(x["e"], bs, prov, o + i * es) for i in range(x["n"])])
        if k in ("tuple", "closure", "struct"):
            fs = self.fields(t)
            off = self.offsets(self.layout(t)["fields"], len(fs))
            return Agg([self.decode(f, bs, prov, o + off[i]) for i, f in enumerate(fs)])
        if k == "union":
            for f in self.fields(t):
                if not self.is_zst(f):
                    return self.decode(f, bs, prov, o)
            return UNIT
        if k == "enum":
            l = self.layout(t)
            vs = l["variants"]
            if isinstance(vs, dict) and "Single" in vs:
                i = vs["Single"]["index"] if isinstance(vs["Single"], dict) else vs["Single"]
                fs = self.fields(t, i)
                off = self.offsets(l["fields"], len(fs))
                return En(i, [self.decode(f, bs, prov, o + off[j]) for j, f in enumerate(fs)])
            m = vs["Multiple"]
            off = self.offsets(l["fields"], 1)
            to = off[m["tag_field"] if isinstance(m["tag_field"], int) else 0]
            tag = m["tag"]
            w = json.dumps(tag)
            mm = re.search(r'"Int": ?\{"length": ?"I(\d+)"', w)
            n = int(mm.group(1)) // 8 if mm else 8
            tv = self.ropeint(bs[o + to : o + to + n])
            hasptr = (o + to) in prov
            enc = m["tag_encoding"]
            if enc == "Direct":
                i = self.variant_of(t, tv)
            else:
                nn = enc["Niche"]
                st_ = nn["niche_variants"]["start"]
                en_ = nn["niche_variants"]["end"]
                rel = (tv - int(nn["niche_start"])) % (256**n)
                if not hasptr and rel <= en_ - st_:
                    i = st_ + rel
                else:
                    i = nn["untagged_variant"]
            fs = self.fields(t, i)
            vo = [z["num_bits"] // 8 if isinstance(z, dict) else z for z in m["variants"][i]["offsets"]]
            return En(i, [self.decode(f, bs, prov, o + vo[j]) for j, f in enumerate(fs)])
        if k == "fndef":
            return FnV(t)
        if k == "fnptr" and o in prov:
            g = self.prog.allocs[prov[o]]
            return Obj("fnptr", g.get("Function"))
        raise Unsupported(f"decode {x}")

    def offsets(self, f, n):
        if isinstance(f, str):
            return [0] * n
        if "Arbitrary" in f:
            return [z["num_bits"] // 8 if isinstance(z, dict) else z for z in f["Arbitrary"]["offsets"]]
        return [0] * n

    def gptr(self, gid, e, off, meta):
        """pointer to a constant allocation, decoded as pointee type e"""
        key = (gid, e, off, meta if not isinstance(meta, Poly) else None)
        if key in self.gallocs:
            return P(self.gallocs[key], (), meta)
        g = self.prog.allocs.get(gid)
        if g is None:
            raise Unsupported(f"constant allocation {gid} not dumped")
        aid = ("g", gid, e, off, meta)
        self.gallocs[key] = aid
        self.gty[aid] = e
        if "Memory" in g or ("Static" in g and g.get("init")):
            mm = g.get("Memory") or g["init"]
            bs = mm["bytes"]
            prov = {o: p for o, p in mm["provenance"]["ptrs"]}
            x = self.ty(e)
            try:
                if x["k"] == "str":
                    v = Rope(merge([(1, b) for b in bs[off : off + meta]]))
                elif x["k"] == "slice":
                    if self.is_u8(x["e"]):
                        v = Rope(merge([(1, b if b is not None else UN) for b in bs[off : off + meta]]))
                    else:
                        es = self.size(x["e"])
                        v = Arr([self.decode(x["e"], bs, prov, off + i * es) for i in range(meta)])
                elif x["k"] == "dyn":
                    ct = meta[1]
                    v = self.decode(ct, bs, prov, off)
                    self.gty[aid] = ct
                else:
                    v = self.decode(e, bs, prov, off)
            except Unsupported:
                v = Obj("opaque", f"const{gid}")
        else:
            v = Obj("opaque", f"static{gid}")
        self.gmem[aid] = v
        return P(aid, (), meta)

    def const(self, c):
        t = c["ty"]
        k = c["kind"]
        if isinstance(k, str):
            if k == "ZeroSized":
                return self.zst(t)
            raise Unsupported(f"const {k}")
        if "Allocated" in k:
            a = k["Allocated"]
            key = ("c", c.get("id"))
            prov = {o: p for o, p in a["provenance"]["ptrs"]}
            return self.decode(t, a["bytes"], prov)
        if "Ty" in k:
            raise Unsupported(f"const Ty {k}")
        raise Unsupported(f"const {k}")

    def zst(self, t):
        x = self.ty(t)
        if x["k"] == "fndef":
            return FnV(t)
        if x["k"] == "array":
            return Rope([]) if self.is_u8(x["e"]) else Arr([self.zst(x["e"])] * x["n"])
        if x["k"] == "enum":
            return En(0, [self.zst(f) for f in self.fields(t, 0)])
        if x["k"] == "union":
            return UNIT
        return Agg([self.zst(f) for f in self.fields(t)])

    # ------------------------------------------------------------ memory
    def descend(self, v, t, comp, st):
        """value and type of one path component below (v,t)"""
        x = self.ty(t) if t is not None else None
        if isinstance(comp, int):
            if x is not None and x["k"] == "union":
                return v, self.fields(t)[comp]
            ft = self.fields(t)[comp] if x is not None else None
            if v is UN:
                return UN, ft
            if isinstance(v, (Agg, En)):
                return v.f[comp], ft
            if isinstance(v, Obj):
                if v.k == "opaque":
                    return self.opaque_field(v, ft, comp), ft
            raise Unsupported(f"field {comp} of {v!r}")
        if comp[0] == "v":
            _, vi, fi = comp
            ft = self.fields(t, vi)[fi]
            if v is UN:
                return UN, ft
            if isinstance(v, En):
                if v.v != vi:
                    raise Unsupported("downcast to another variant")
                return v.f[fi], ft
            if isinstance(v, SEn):
                return v.vs[vi][fi], ft
            raise Unsupported(f"downcast of {v!r}")
        if comp[0] == "o":
            _, k, et = comp
            if isinstance(k, Poly):
                raise Unsupported("symbolic index")
            if isinstance(v, Rope):
                return v.get(k, 1).int(), et
            if isinstance(v, Arr):
                if k >= len(v.e):
                    raise Unsupported("index out of materialised range")
                return v.e[k], et
            if v is UN:
                return UN, et
            if k == 0 and x is not None and x["k"] not in ("array", "slice"):
                return v, et
            raise Unsupported(f"index of {v!r}")
        raise Unsupported(f"path {comp}")

    def opaque_field(self, v, ft, comp):
        key = ("opq", id(v), comp)
        if ft is None:
            raise Unsupported(f"field of opaque {v}")
        c = self.__dict__.setdefault("_opq", {})
        kk = (v.d, comp)
        if kk not in c:
            c[kk] = self.fresh(ft, f"{v.d}.{comp}")
        return c[kk]

    def read(self, st, a, path, t=None, meta=None):
        if isinstance(a, tuple) and a[0] == "dangling":
            if t is not None and self.is_zst(t):
                return self.zst(t)
            raise Unsupported(f"read through dangling pointer {a}")
        v = self.getmem(st, a)
        ct = self.getaty(st, a)
        n = len(path)
        for i, c in enumerate(path):
            if i == n - 1 and isinstance(c, tuple) and c[0] == "o" and t is not None and t != c[2]:
                x = self.ty(t)
                if x["k"] in ("array", "slice") and x["e"] == c[2]:
                    cnt = x.get("n") if x["k"] == "array" else meta
                    return self.rng(v, c[1], cnt)
            v, ct = self.descend(v, ct, c, st)
        if t is not None and ct is not None and t != ct:
            v = self.retype_read(v, ct, t)
        return v

    def rng(self, v, k, n):
        if isinstance(k, Poly) or isinstance(n, Poly):
            raise Unsupported("symbolic range read")
        if isinstance(v, Rope):
            return v.get(k, n)
        if isinstance(v, Arr):
            if k + n > len(v.e):
                raise Unsupported("range read out of bounds")
            return Arr(v.e[k : k + n])
        raise Unsupported(f"range of {v!r}")

    def retype_read(self, v, ct, t):
        """memory holds type ct, read as type t"""
        x, y = self.ty(ct), self.ty(t)
        if y["k"] in ("array",) and y["e"] == ct and y["n"] == 1:
            return Rope([(1, v)]) if self.is_u8(ct) else Arr([v])
        if x["k"] == "array" and y["k"] == "slice":
            return v
        try:
            return self.transmute(v, ct, t)
        except Unsupported:
            return v

    def write(self, st, a, path, val, t=None):
        if isinstance(a, tuple) and a[0] == "dangling":
            if t is not None and self.is_zst(t):
                return
            raise Unsupported("write through dangling pointer")
        if a not in st.mem:
            if a in self.gmem:
                raise Unsupported("write to constant memory")
            raise Unsupported(f"write to dead allocation {a}")
        st.mem[a] = self.wr(st.mem[a], st.aty[a], path, val, t)

    def wr(self, v, ct, path, val, t):
        if not path:
            if t is not None and ct is not None and t != ct:
                x = self.ty(ct)
                if x["k"] not in ("slice",) and not (x["k"] == "array" and self.ty(t)["k"] == "slice"):
                    try:
                        return self.transmute(val, t, ct)
                    except Unsupported:
                        return val
            return val
        c = path[0]
        x = self.ty(ct) if ct is not None else None
        if isinstance(c, int):
            if x is not None and x["k"] == "union":
                return self.wr(v, self.fields(ct)[c], path[1:], val, t)
            fts = self.fields(ct) if x is not None else None
            if v is UN:
                v = Agg([UN] * len(fts))
            if not isinstance(v, (Agg, En)):
                raise Unsupported(f"write field of {v!r}")
            fs = list(v.f)
            fs[c] = self.wr(fs[c], fts[c] if fts else None, path[1:], val, t)
            return Agg(fs) if isinstance(v, Agg) else En(v.v, fs)
        if c[0] == "v":
            _, vi, fi = c
            fts = self.fields(ct, vi)
            if v is UN or (isinstance(v, En) and v.v != vi):
                v = En(vi, [UN] * len(fts))
            if isinstance(v, En):
                fs = list(v.f)
                fs[fi] = self.wr(fs[fi], fts[fi], path[1:], val, t)
                return En(vi, fs)
            if isinstance(v, SEn):
                vs = dict(v.vs)
                fs = list(vs[vi])
                fs[fi] = self.wr(fs[fi], fts[fi], path[1:], val, t)
                vs[vi] = tuple(fs)
                return SEn(v.d, vs, v.dv)
            raise Unsupported("write to downcast")
        if c[0] == "o":
            _, k, et = c
            if isinstance(k, Poly):
                raise Unsupported("symbolic index write")
            if v is UN:
                n = x["n"] if x and x["k"] == "array" else None
                if n is None:
                    raise Unsupported("write into uninit slice")
                v = Rope([(n, UN)]) if self.is_u8(et) else Arr([UN] * n)
            rest = path[1:]
            if isinstance(v, Rope):
                if not rest and isinstance(val, Rope):
                    return v.put(k, val)
                if rest:
                    raise Unsupported("path below byte")
                return v.put(k, Rope([(1, val)]))
            if isinstance(v, Arr):
                if not rest and isinstance(val, Arr) and t is not None and t != et:
                    return Arr(v.e[:k] + val.e + v.e[k + len(val.e) :])
                e = list(v.e)
                e[k] = self.wr(e[k], et, rest, val, t)
                return Arr(e)
            if k == 0 and x is not None and x["k"] not in ("array", "slice"):
                return self.wr(v, ct, rest, val, t)
            raise Unsupported(f"write index of {v!r}")
        raise Unsupported(f"write path {c}")

    # ------------------------------------------------------------ transmute
    def strip(self, v, t):
        """peel single-field wrappers down to a leaf"""
        while True:
            x = self.ty(t)
            k = x["k"]
            if self.is_u256(t):
                return v, t
            if k == "union":
                nz = [f for f in self.fields(t) if not self.is_zst(f)]
                if len(nz) != 1:
                    return v, t
                t = nz[0]
                continue
            if k in ("struct", "tuple", "closure"):
                fs = self.fields(t)
                nz = [i for i, f in enumerate(fs) if not self.is_zst(f)]
                if len(nz) != 1:
                    return v, t
                i = nz[0]
                v = v.f[i] if isinstance(v, Agg) else v
                t = fs[i]
                continue
            if k == "array" and x["n"] == 1 and not self.is_u8(x["e"]):
                v = v.e[0] if isinstance(v, Arr) else v
                t = x["e"]
                continue
            return v, t

    def build(self, v, t, lt_):
        """wrap leaf v of type lt_ as a value of type t"""
        x = self.ty(t)
        k = x["k"]
        if t == lt_ or self.is_u256(t):
            return v
        if k == "union":
            nz = [f for f in self.fields(t) if not self.is_zst(f)]
            if len(nz) == 1:
                return self.build(v, nz[0], lt_)
            if not nz:
                return UNIT
            return v
        if k in ("struct", "tuple", "closure"):
            fs = self.fields(t)
            nz = [i for i, f in enumerate(fs) if not self.is_zst(f)]
            if len(nz) == 1:
                return Agg([self.build(v, f, lt_) if i == nz[0] else self.zst(f) for i, f in enumerate(fs)])
            if isinstance(v, Agg) and len(v.f) == len(fs):
                return v
            raise Unsupported(f"transmute into {x['s']}")
        if k == "array" and x["n"] == 1 and not self.is_u8(x["e"]):
            return Arr([self.build(v, x["e"], lt_)])
        return v

    def transmute(self, v, f, t):
        if f == t:
            return v
        if v is UN:
            return UN
        fx, tx = self.ty(f), self.ty(t)
        # enum <-> int (fieldless) and pointer-like options are not needed
        if self.is_zst(t):
            return self.zst(t)
        lv, lf = self.strip(v, f)
        _, ltt = self.strip(UN, t)
        a, b = self.ty(lf), self.ty(ltt)
        ak, bk = a["k"], b["k"]
        if isinstance(lv, Rope) and bk in INTK:
            i = lv.int()
            if lv.n() * 8 != b["w"]:
                raise Unsupported("transmute size")
            if bk == "int":
                raise Unsupported("transmute bytes to signed")
            return self.build(i, t, ltt)
        if ak == "uint" and bk == "array" and self.is_u8(b["e"]):
            if a["w"] // 8 != b["n"]:
                raise Unsupported("transmute size")
            return self.build(Rope([(b["n"], lv)]), t, ltt)
        if ak in INTK and bk in INTK:
            if a["w"] == b["w"] and ak == bk:
                return self.build(lv, t, ltt)
            raise Unsupported("transmute ints")
        if ak in ("ptr", "ref") and bk in ("ptr", "ref"):
            return self.build(self.castptr(lv, a["e"], b["e"]), t, ltt)
        if ak == "array" and bk == "array":
            if isinstance(lv, Arr) and a["e"] != b["e"]:
                if a["n"] != b["n"]:
                    raise Unsupported("transmute array length")
                lv = Arr([self.transmute(e, a["e"], b["e"]) for e in lv.e])
            return self.build(lv, t, ltt)
        if ak in ("ptr", "ref", "int", "uint") and bk == "enum":
            # Option<NonNull> etc.
            for i, vv in enumerate(b["v"]):
                if len(vv["f"]) == 1 and len(b["v"]) == 2:
                    inner = self.transmute(lv, lf, vv["f"][0][1])
                    return self.build(En(i, (inner,)), t, ltt)
        if ak == bk and ak in ("enum", "struct", "tuple", "slice", "str"):
            return self.build(lv, t, ltt)
        if isinstance(lv, P) and bk in INTK:
            if isinstance(lv.a, tuple) and lv.a[0] == "dangling":
                return self.build(lv.a[1], t, ltt)
        if ak in INTK and bk in ("ptr", "ref") and isinstance(lv, int):
            return self.build(P(("dangling", lv)), t, ltt)
        if isinstance(lv, Obj):
            return lv
        raise Unsupported(f"transmute {fx['s']} -> {tx['s']}")

    # ------------------------------------------------------------ pointer casts
    def castptr(self, p, f, t):
        """pointer to f viewed as pointer to t"""
        if f == t or not isinstance(p, P):
            return p
        fx, tx = self.ty(f), self.ty(t)
        fk, tk = fx["k"], tx["k"]
        m = p.m
        if tk not in ("slice", "str", "dyn"):
            m2 = None
        else:
            m2 = m
        last = p.p[-1] if p.p else None
        if fk in ("slice", "str") and tk in ("slice", "str"):
            return p
        if fk in ("array", "slice") and fx["e"] == t:
            if isinstance(last, tuple) and last[0] == "o" and last[2] == t:
                return P(p.a, p.p, m2)
            return P(p.a, p.p + (("o", 0, t),), m2)
        if tk == "array" and tx["e"] == f:
            return P(p.a, p.p, m2)
        if fk == "str" and tk == "uint":
            return P(p.a, p.p + (("o", 0, t),), m2)
        if tk in ("slice",) and tx["e"] == f:
            return P(p.a, p.p, m2)
        # descend through first non-ZST fields
        path, c = [], f
        while c != t:
            x = self.ty(c)
            if x["k"] == "union":
                nz = [i for i, q in enumerate(self.fields(c)) if not self.is_zst(q)]
                if len(nz) != 1:
                    path = None
                    break
                path.append(nz[0])
                c = self.fields(c)[nz[0]]
            elif x["k"] in ("struct", "tuple"):
                nz = [i for i, q in enumerate(self.fields(c)) if not self.is_zst(q)]
                if not nz:
                    path = None
                    break
                path.append(nz[0])
                c = self.fields(c)[nz[0]]
            elif x["k"] in ("array", "slice") and x["e"] == t:
                if isinstance(last, tuple) and not path and last[0] == "o" and last[2] == t:
                    pass
                else:
                    path.append(("o", 0, t))
                c = t
            else:
                path = None
                break
        if path is not None:
            return P(p.a, p.p + tuple(path), m2)
        # ascend: strip components that a descend from t would add
        path, c = [], t
        while c != f:
            x = self.ty(c)
            if x["k"] in ("union", "struct", "tuple"):
                nz = [i for i, q in enumerate(self.fields(c)) if not self.is_zst(q)]
                if not nz:
                    path = None
                    break
                path.append(nz[0])
                c = self.fields(c)[nz[0]]
            elif x["k"] in ("array", "slice") and x["e"] == f:
                path.append(("o", 0, f))
                c = f
            else:
                path = None
                break
        if path is not None:
            n = len(path)
            if n == 0 or p.p[-n:] == tuple(path):
                return P(p.a, p.p[: len(p.p) - n], m2)
            # repr(transparent) arrays of wrappers: keep the path, reads retype
            return P(p.a, p.p, m2)
        # untyped pointers (*u8, *()) are kept as they are
        return P(p.a, p.p, m2)

    def unsize(self, v, f, t):
        fx, tx = self.ty(f), self.ty(t)
        if fx["k"] in ("ref", "ptr") and tx["k"] in ("ref", "ptr"):
            return self.unsize_ptr(v, fx["e"], tx["e"])
        if fx["k"] == "struct" and tx["k"] == "struct":
            fs, ts = self.fields(f), self.fields(t)
            if isinstance(v, Obj):
                return v
            return Agg([x if a == b or self.is_zst(a) else self.unsize(x, a, b) for x, a, b in zip(v.f, fs, ts)])
        raise Unsupported(f"unsize {fx['s']} to {tx['s']}")

    def unsize_ptr(self, p, f, t):
        fx, tx = self.ty(f), self.ty(t)
        if fx["k"] == "array" and tx["k"] == "slice":
            return P(p.a, p.p, fx["n"])
        if tx["k"] == "dyn":
            if fx["k"] == "dyn":
                return p
            if not isinstance(p, P):
                return p
            return P(p.a, p.p, ("vt", f))
        if fx["k"] == "struct" and tx["k"] == "struct":
            # e.g. RefCell<T> -> RefCell<dyn>
            a, b = self.fields(f)[-1], self.fields(t)[-1]
            return self.unsize_ptr(p, a, b)
        raise Unsupported(f"unsize ptr {fx['s']} to {tx['s']}")

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        """-> (alloc, path, type, meta)"""
        l = pl["local"]
        a, path, t, meta = fr.loc[l], (), fr.body["locals"][l]["ty"], None
        var = None
        for pr in pl["projection"]:
            if pr == "Deref":
                v = self.read(st, a, path, t)
                x = self.ty(t)
                if isinstance(v, Agg) and x["k"] == "struct":  # Box
                    v = self.boxptr(v)
                    t = self.ty(t)["args"][0] if self.ty(t).get("args") else None
                else:
                    t = x["e"]
                if not isinstance(v, P):
                    raise Unsupported(f"deref of {v!r} ({x['s']})")
                a, path, meta = v.a, v.p, v.m
                # type-directed: pointers into arrays viewed as elements keep 'o'
                continue
            if isinstance(pr, dict):
                k = next(iter(pr))
                q = pr[k]
                if k == "Field":
                    if var is not None:
                        path = path + (("v", var, q[0]),)
                        var = None
                    else:
                        path = path + (q[0],)
                    t = q[1]
                    continue
                if k == "Downcast":
                    var = q
                    continue
                if k == "Index":
                    i = self.read(st, fr.loc[q], (), None)
                    path, t = self.idx(path, t, i)
                    continue
                if k == "ConstantIndex":
                    i = q["offset"]
                    if q["from_end"]:
                        n = self.ty(t).get("n")
                        if n is None:
                            n = meta
                        i = sub(n, i)
                    path, t = self.idx(path, t, i)
                    continue
                if k == "Subslice":
                    x = self.ty(t)
                    n = x.get("n") if x["k"] == "array" else meta
                    end = sub(n, q["to"]) if q["from_end"] else q["to"]
                    et = x["e"]
                    path, _ = self.idx(path, t, q["from"])
                    meta = sub(end, q["from"])
                    if x["k"] == "array":
                        # type of the subslice of an array is an array of the new length
                        t = self.array_ty(et, meta)
                    continue
            raise Unsupported(f"projection {pr}")
        return a, path, t, meta

    def array_ty(self, et, n):
        for k, v in self.prog.ty.items():
            if v["k"] == "array" and v["e"] == et and v["n"] == n:
                return k
        raise Unsupported("array type not present")

    def idx(self, path, t, i):
        x = self.ty(t)
        et = x["e"]
        last = path[-1] if path else None
        if isinstance(last, tuple) and last[0] == "o" and last[2] == et and et != t:
            return path[:-1] + (("o", add(last[1], i), et),), et
        return path + (("o", i, et),), et

    def boxptr(self, v):
        while not isinstance(v, P):
            if isinstance(v, Agg):
                v = v.f[0]
            else:
                raise Unsupported(f"boxptr {v!r}")
        return v

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        """-> (value, type)"""
        if "Constant" in o:
            c = o["Constant"]["const_"]
            return self.const(c), c["ty"]
        if "RuntimeChecks" in o:
            return o["RuntimeChecks"] == "OverflowChecks", self.prog.find_ty("bool")
        pl = o.get("Copy") or o.get("Move")
        if pl is None:
            raise Unsupported(f"operand {o}")
        a, path, t, meta = self.place(st, fr, pl)
        if not path:
            v = self.getmem(st, a) if not isinstance(a, tuple) or a[0] == "g" else self.read(st, a, path, t, meta)
            ct = self.getaty(st, a) if not isinstance(a, tuple) or a[0] == "g" else t
            if ct != t:
                v = self.read(st, a, path, t, meta)
        else:
            v = self.read(st, a, path, t, meta)
        return v, t

    def as_term(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Poly)):
            return v
        if isinstance(v, tuple):
            return T.ite(v, 1, 0)
        raise Unsupported(f"not an integer: {v!r}")

    def decide(self, st, f):
        """True / False / None using the path condition"""
        if f is True or f is False:
            return f
        if f in st.pc:
            return True
        nf = Not(f)
        if nf is not True and nf in st.pc:
            return False
        if not self.pv.feasible(st.pc, f):
            return False
        if not self.pv.feasible(st.pc, nf):
            return True
        return None

    def fork(self, st, f):
        """split on f: list of (state, bool); infeasible sides dropped"""
        d = self.decide(st, f)
        if d is True:
            return [(st, True)]
        if d is False:
            return [(st, False)]
        s2 = st.copy()
        st.assume(f)
        s2.assume(Not(f))
        return [(st, True), (s2, False)]

    def norm(self, st, v, t):
        """wrap an exact integer into the type's range"""
        lo, hi = self.int_range(t)
        l, h = iv(v)
        if l is not None and l >= lo and h is not None and h <= hi:
            return v
        if isinstance(v, int):
            return (v - lo) % (hi - lo + 1) + lo
        f = And(ge(v, lo), le(v, hi))
        if self.decide(st, f) is True:
            return v
        m = hi - lo + 1
        if lo == 0:
            return T.rem(v, m)
        return add(T.rem(sub(v, lo), m), lo)

    def binop(self, st, op, x, tx, y, ty_, retty=None):
        k = self.tk(tx)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            return self.cmp(st, op, x, y, tx)
        if k == "bool":
            if op == "BitAnd":
                return And(x, y)
            if op == "BitOr":
                return Or(x, y)
            if op == "BitXor":
                return Not(T.Iff(x, y))
            raise Unsupported(f"bool {op}")
        if op == "Offset":
            return self.ptr_offset(x, tx, y)
        if k not in INTK:
            raise Unsupported(f"binop {op} on {k}")
        w = self.ty(tx)["w"]
        if op in ("Add", "AddUnchecked"):
            return self.norm(st, add(x, y), tx)
        if op in ("Sub", "SubUnchecked"):
            return self.norm(st, sub(x, y), tx)
        if op in ("Mul", "MulUnchecked"):
            return self.norm(st, mul(x, y), tx)
        if op in ("Div", "Rem"):
            if k == "int":
                if isinstance(x, int) and isinstance(y, int) and y != 0:
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return q if op == "Div" else x - q * y
                if self.decide(st, And(ge(x, 0), ge(y, 1))) is not True:
                    raise Unsupported("signed division")
            return T.div(x, y) if op == "Div" else T.rem(x, y)
        if op in ("Shl", "ShlUnchecked"):
            if isinstance(y, int):
                return self.norm(st, mul(x, 2 ** (y % w)), tx)
            raise Unsupported("symbolic shift")
        if op in ("Shr", "ShrUnchecked"):
            if isinstance(y, int):
                return T.div(x, 2 ** (y % w))
            raise Unsupported("symbolic shift")
        if op in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(x, int) and isinstance(y, int):
                r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op]
                return r
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int) and k == "uint":
                if op == "BitAnd":
                    if y == 0:
                        return 0
                    if y == 2**w - 1:
                        return x
                    if (y + 1) & y == 0:
                        return T.rem(x, y + 1)
                    m = (~y) & (2**w - 1)
                    if (m + 1) & m == 0:
                        return sub(x, T.rem(x, m + 1))
                elif y == 0:
                    return x
                elif op == "BitXor" and y == 2**w - 1:
                    return sub(2**w - 1, x)
            # single-bit operands
            lx, hx = iv(x)
            ly, hy = iv(y)
            if lx == 0 and hx == 1 and ly == 0 and hy == 1:
                a, b = ge(x, 1), ge(y, 1)
                f = {"BitAnd": And(a, b), "BitOr": Or(a, b), "BitXor": Not(T.Iff(a, b))}[op]
                return T.ite(f, 1, 0)
            if op == "BitOr" and lx == 0 and ly == 0 and hx is not None and hy is not None:
                # disjoint bits: one is a multiple of a power of two above the other
                for p, q, hq in ((x, y, hy), (y, x, hx)):
                    n = hq.bit_length()
                    if isinstance(p, Poly) and all(c % (1 << n) == 0 for c in p.m.values()):
                        return add(p, q)
                    if isinstance(p, int) and p % (1 << n) == 0:
                        return add(p, q)
            r = T.uf(f"bit{op}{w}", (x, y), 0, 2**w - 1)
            if op == "BitAnd" and k == "uint":
                st.assume(le(r, x))
                st.assume(le(r, y))
            elif k == "uint":
                st.assume(le(r, add(x, y)))
                if op == "BitOr":
                    st.assume(ge(r, x))
                    st.assume(ge(r, y))
            else:
                raise Unsupported("signed bit operation")
            return r
        raise Unsupported(f"binop {op}")

    def ptr_offset(self, p, t, n):
        if not isinstance(p, P):
            raise Unsupported("offset of non-pointer")
        e = self.ty(t)["e"]
        last = p.p[-1] if p.p else None
        if isinstance(last, tuple) and last[0] == "o" and last[2] == e:
            return P(p.a, p.p[:-1] + (("o", add(last[1], n), e),), p.m)
        if isinstance(n, int) and n == 0:
            return p
        if isinstance(p.a, tuple) and p.a[0] == "dangling":
            return p
        return P(p.a, p.p + (("o", n, e),), p.m)

    def pkey(self, p):
        """canonical (alloc, path without trailing zero-offset components, offset)"""
        path = list(p.p)
        off = 0
        if path and isinstance(path[-1], tuple) and path[-1][0] == "o":
            off = path[-1][1]
            path = path[:-1]
        while path and (path[-1] == 0):
            path = path[:-1]
        return p.a, tuple(path), off

    def cmp(self, st, op, x, y, t):
        k = self.tk(t)
        if k == "bool":
            x, y = self.as_term(x), self.as_term(y)
            if op == "Eq":
                pass
        if k in ("ptr", "ref"):
            if isinstance(x, P) and isinstance(y, P):
                if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    a, b = self.pkey(x), self.pkey(y)
                    if a[:2] == b[:2]:
                        x, y = a[2], b[2]
                    elif isinstance(x.a, tuple) and isinstance(y.a, tuple) and x.a[0] == "dangling" and y.a[0] == "dangling":
                        x, y = x.a[1], y.a[1]
                    elif op in ("Eq", "Ne"):
                        return op == "Ne"
                    else:
                        raise Unsupported("pointer order across objects")
            else:
                raise Unsupported(f"pointer comparison {x} {y}")
        if k == "fnptr":
            raise Unsupported("fn pointer comparison")
        if op == "Cmp":
            rt = None
            f1, f2 = lt(x, y), eq(x, y)
            ot = self.prog.find_adt("cmp::Ordering")
            d = T.ite(f1, -1, T.ite(f2, 0, 1))
            return SEn(d, {0: (), 1: (), 2: ()}, {0: -1, 1: 0, 2: 1})
        return {"Eq": eq, "Ne": T.ne, "Lt": lt, "Le": le, "Gt": gt, "Ge": ge}[op](x, y)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        k = next(iter(r)) if isinstance(r, dict) else r
        q = r[k]
        if k == "Use":
            return self.operand(st, fr, q[0])[0]
        if k in ("Ref", "AddressOf"):
            pl = q[2] if k == "Ref" else q[1]
            a, path, t, meta = self.place(st, fr, pl)
            return P(a, path, meta)
        if k == "BinaryOp":
            x, tx = self.operand(st, fr, q[1])
            y, ty_ = self.operand(st, fr, q[2])
            return self.binop(st, q[0], x, tx, y, ty_, dty)
        if k == "CheckedBinaryOp":
            x, tx = self.operand(st, fr, q[1])
            y, ty_ = self.operand(st, fr, q[2])
            e = {"Add": add, "Sub": sub, "Mul": mul}[q[0]](x, y)
            lo, hi = self.int_range(tx)
            ov = Or(lt(e, lo), gt(e, hi))
            # the wrapped value is only used when the following Assert passes
            return Agg([e if ov is not True else self.norm(st, e, tx), ov])
        if k == "UnaryOp":
            v, t = self.operand(st, fr, q[1])
            if q[0] == "Not":
                if self.tk(t) == "bool":
                    return Not(v)
                lo, hi = self.int_range(t)
                return sub(lo + hi, v)
            if q[0] == "Neg":
                return self.norm(st, mul(-1, v), t)
            if q[0] == "PtrMetadata":
                if not isinstance(v, P):
                    raise Unsupported("metadata of non-pointer")
                return v.m if v.m is not None else UNIT
            raise Unsupported(f"unop {q[0]}")
        if k == "Cast":
            kind, o, t = q
            v, f = self.operand(st, fr, o)
            return self.cast(st, kind, v, f, t)
        if k == "Discriminant":
            a, path, t, meta = self.place(st, fr, q)
            v = self.read(st, a, path, t)
            return self.discriminant(v, t)
        if k == "Repeat":
            v, t = self.operand(st, fr, q[0])
            n = self.ty(dty)["n"]
            if self.is_u8(t):
                if isinstance(v, int):
                    return Rope([(n, int.from_bytes(bytes([v]) * n, "little"))]) if n else Rope([])
                return Rope([(1, v)] * n)
            return Arr([v] * n)
        if k == "Aggregate":
            kind, ops = q
            vs = [self.operand(st, fr, o) for o in ops]
            if kind == "Tuple":
                return Agg([v for v, _ in vs])
            kk = next(iter(kind))
            if kk == "Adt":
                x = self.ty(dty)
                if x["k"] == "enum":
                    return En(kind[kk][1], [v for v, _ in vs])
                if x["k"] == "union":
                    return vs[0][0]
                return Agg([v for v, _ in vs])
            if kk == "Array":
                if self.is_u8(self.ty(dty)["e"]):
                    return Rope(merge([(1, v) for v, _ in vs]))
                return Arr([v for v, _ in vs])
            if kk == "Closure":
                return Agg([v for v, _ in vs])
            if kk == "RawPtr":
                p, m = vs[0][0], vs[1][0]
                if not isinstance(p, P):
                    raise Unsupported("raw pointer from non-pointer")
                if self.is_zst(vs[1][1]):
                    m = None
                pt = self.ty(vs[0][1])["e"]
                return P(p.a, p.p, m)
            raise Unsupported(f"aggregate {kind}")
        if k == "CopyForDeref":
            a, path, t, meta = self.place(st, fr, q)
            return self.read(st, a, path, t)
        if k == "Len":
            a, path, t, meta = self.place(st, fr, q)
            x = self.ty(t)
            return x["n"] if x["k"] == "array" else meta
        raise Unsupported(f"rvalue {k}")

    def discriminant(self, v, t):
        x = self.ty(t)
        if x["k"] != "enum":
            return 0
        if isinstance(v, En):
            return self.disc(t, v.v)
        if isinstance(v, SEn):
            return v.d
        if v is UN:
            # a zero-sized enum (Option<!>) is never written: one variant is inhabited
            live = [i for i in range(len(x["v"])) if not any(self.uninhabited(f) for f in self.fields(t, i))]
            if len(live) == 1 and all(self.is_zst(f) for f in self.fields(t, live[0])):
                return self.disc(t, live[0])
        raise Unsupported(f"discriminant of {v!r} ({x['s']})")

    def uninhabited(self, t):
        x = self.ty(t)
        if x["k"] == "never":
            return True
        if x["k"] == "enum":
            return all(any(self.uninhabited(f) for f in self.fields(t, i)) for i in range(len(x["v"])))
        if x["k"] in ("struct", "tuple"):
            return any(self.uninhabited(f) for f in self.fields(t))
        return False

    def cast(self, st, kind, v, f, t):
        if isinstance(kind, dict):
            pc = kind.get("PointerCoercion")
            if pc == "Unsize":
                return self.unsize(v, f, t)
            if isinstance(pc, str) and pc in ("MutToConstPointer", "ArrayToPointer"):
                if pc == "ArrayToPointer":
                    return self.castptr(v, self.ty(f)["e"], self.ty(t)["e"])
                return v
            if pc is not None:
                return v  # reify / closure fn pointers: keep the fn value
            raise Unsupported(f"cast {kind}")
        if kind == "IntToInt":
            fx, tx = self.ty(f), self.ty(t)
            if fx["k"] == "bool":
                return self.as_term(v)
            if fx["k"] == "enum":
                return self.norm(st, self.discriminant(v, f), t)
            if tx["k"] == "char":
                return v
            return self.norm(st, v, t)
        if kind == "PtrToPtr" or kind == "FnPtrToPtr":
            return self.castptr(v, self.ty(f)["e"], self.ty(t)["e"])
        if kind in ("Transmute", "BoxDerefTransmute"):
            if self.ty(f)["k"] == "enum" and self.ty(t)["k"] in INTK:
                return self.discriminant(v, f)
            if self.ty(t)["k"] == "enum" and self.ty(f)["k"] in INTK:
                return self.int_to_enum(v, t)
            if self.ty(f)["k"] == "struct" and self.ty(t)["k"] in ("ptr", "ref") and not isinstance(v, P):
                return self.castptr_any(self.boxptr(v), t)
            if isinstance(v, SEn) or isinstance(v, En):
                return v
            return self.transmute(v, f, t)
        if kind == "Subtype":
            return v
        raise Unsupported(f"cast {kind}")

    def castptr_any(self, p, t):
        return p

    def int_to_enum(self, v, t):
        x = self.ty(t)
        if any(vv["f"] for vv in x["v"]):
            raise Unsupported("int to enum with fields")
        dv = {i: self.disc(t, i) for i in range(len(x["v"]))}
        if isinstance(v, int):
            return En(self.variant_of(t, v))
        return SEn(v, {i: () for i in dv}, dv)

    # ------------------------------------------------------------ calls
    def push(self, st, sym, args, dest, ret):
        b = self.prog.bodies.get(sym)
        if b is None:
            raise Unsupported(f"no MIR for {self.prog.fns.get(sym, {}).get('name', sym)}")
        fr = Frame()
        fr.sym, fr.body, fr.bb, fr.dest, fr.ret = sym, b, 0, dest, ret
        fr.visits, fr.forks, fr.inv, fr.prev = {}, {}, None, None
        fr.loc = []
        n = b["arg_count"]
        for i, l in enumerate(b["locals"]):
            v = UN
            if 1 <= i <= n:
                v = args[i - 1]
            fr.loc.append(self.new_alloc(st, l["ty"], v))
        if len(args) != n:
            raise Unsupported(f"arity of {self.prog.fns[sym]['name']}: {len(args)} vs {n}")
        st.frames.append(fr)
        if len(st.frames) > 120:
            raise Unsupported("call depth")
        if self.prog.fns[sym].get("local"):
            self.used.add(sym)

    def model_for(self, name):
        if name in self.mcache:
            return self.mcache[name]
        h = None
        for rx, fn in self.models:
            if self.raw and "spl_math::uint::" in rx.pattern:
                continue
            if rx.match(name):
                h = fn
                break
        self.mcache[name] = h
        return h

    def call(self, st, fr, c):
        """execute a Call terminator; returns list of successor states/outcomes"""
        f = c["func"]
        args, argtys = [], []
        for o in c["args"]:
            v, t = self.operand(st, fr, o)
            args.append(v)
            argtys.append(t)
        dest = self.place(st, fr, c["destination"])
        if "Constant" in f:
            ft = f["Constant"]["const_"]["ty"]
        else:
            v, ft = self.operand(st, fr, f)
            if isinstance(v, FnV):
                ft = v.t
            elif isinstance(v, Obj) and v.k == "fnptr":
                return self.invoke(st, v.d, args, argtys, dest, c["target"], fr)
        x = self.ty(ft)
        if x["k"] != "fndef":
            raise Unsupported(f"call through {x['k']}")
        inst = x.get("inst")
        if inst is None:
            raise Unsupported(f"unresolved call {x.get('s')}")
        return self.invoke(st, inst, args, argtys, dest, c["target"], fr, ft)

    def invoke(self, st, inst, args, argtys, dest, target, fr, ft=None):
        kind = inst["kind"]
        name = inst["name"]
        if isinstance(kind, dict) and "Virtual" in kind:
            p = args[0]
            if not isinstance(p, P):
                p = self.boxptr(p)
            ct = p.m[1] if isinstance(p.m, tuple) else None
            if p.m is not None and isinstance(p.m, tuple) and len(p.m) > 2:
                if self.opaque_call is None:
                    raise Unsupported("opaque dyn call")
                call = Call(self, name, inst, args, argtys, dest[2], fr, None)
                call.opaque = p.m[2]
                return self.finish(st, self.opaque_call(call, st), dest, target, name)
            if ct is None:
                raise Unsupported(f"virtual call on unknown type: {name}")
            inst2 = self.prog.vt.get((ft, ct))
            if inst2 is None:
                raise Unsupported(f"no vtable entry {name} for {self.ty(ct)['s']}")
            args = [P(p.a, p.p, None)] + list(args[1:])
            # the callee's own types: its self is a pointer to the type behind the trait object
            ats = self.prog.argtys(inst2["sym"]) if inst2.get("sym") in self.prog.bodies else argtys
            return self.invoke(st, inst2, args, ats if len(ats) == len(argtys) else argtys, dest, target, fr)
        sym = inst["sym"]
        call = Call(self, name, inst, args, argtys, dest[2], fr, sym)
        ct = self.contracts.get(name)
        if ct is not None:
            self.used_contracts.add(name)
            return self.finish(st, ct(call, st), dest, target, name)
        h = self.model_for(name)
        if h is not None:
            r = h(call, st)
            if r is not NotImplemented:
                self.used_models.add(name)
                if isinstance(r, TailCall):
                    return self.invoke_tail(st, r, dest, target, fr)
                return self.finish(st, r, dest, target, name)
        if kind == "Intrinsic":
            raise Unsupported(f"intrinsic {name}")
        if inst.get("empty_shim"):
            return self.finish(st, [(st, UNIT)], dest, target, name)
        if sym not in self.prog.bodies:
            raise Unsupported(f"no body: {name}")
        b = self.prog.bodies[sym]
        n = b["arg_count"]
        # Fn* traits: closure bodies take the tuple's elements
        if b.get("spread_arg") is None and (len(args) != n or self.is_rust_call(ft, name, kind)):
            args = self.untuple(st, sym, args, argtys, n)
        self.push(st, sym, args, dest, target)
        return [st]

    def is_rust_call(self, ft, name, kind):
        if ft is None or kind != "Item":
            return False
        return bool(re.match(r"^(std|core)::ops::(Fn|FnMut|FnOnce)::call", self.ty(ft).get("def") or ""))

    def untuple(self, st, sym, args, argtys, n):
        if len(args) == 2 and isinstance(args[1], Agg):
            a = [args[0]] + list(args[1].f)
            if len(a) == n:
                return a
        raise Unsupported(f"arity mismatch calling {self.prog.fns[sym]['name']}")

    def finish(self, st, res, dest, target, name):
        out = []
        if not isinstance(res, list):
            res = [(st, res)]
        for s, v in res:
            if isinstance(v, Panic):
                out.append(Outcome("panic", None, s, v.why or name))
                continue
            if isinstance(v, TailCall):
                out.extend(self.invoke_tail(s, v, dest, target, s.frames[-1]))
                continue
            if v is not None:
                self.write(s, dest[0], dest[1], v, dest[2])
            if target is None:
                raise Unsupported(f"diverging call returned: {name}")
            s.frames[-1].bb = target
            out.append(s)
        return out

    def invoke_tail(self, st, r, dest, target, fr):
        if r.wrap is not None:
            raise Unsupported("wrap")
        return self.invoke(st, r.inst, r.args, r.argtys, dest, target, fr, r.ft)

    # ------------------------------------------------------------ execution
    def run(self, sym, args, st=None, path_limit=4000):
        """execute sym on args; list of outcomes"""
        st = st or State()
        rt = self.prog.retty(sym)
        ra = self.new_alloc(st, rt)
        base = len(st.frames)
        self.push(st, sym, args, (ra, (), rt, None), None)
        st.frames[-1].ret = None
        st.ghost["__ret"] = ra
        st.ghost["__base"] = base
        work = [st]
        outs = []
        n = 0
        while work:
            s = work.pop()
            if isinstance(s, Outcome):
                outs.append(s)
                continue
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit")
            if len(outs) + len(work) > path_limit:
                raise Unsupported("path limit")
            work.extend(self.step(s, base))
        self.npaths += len(outs)
        return outs

    def step(self, st, base=0):
        """execute one basic block; returns successor states / outcomes"""
        fr = st.frames[-1]
        bb = fr.bb
        self.visited.setdefault(fr.sym, set()).add(bb)
        loops = self.prog.loops(fr.sym)
        if bb in loops:
            c = fr.visits.get(bb, 0) + 1
            fr.visits[bb] = c
            inv = self.invs.get((fr.sym, bb))
            if inv is not None:
                if not inv.arrive(self, st, fr, bb):
                    return []
                fr.visits[bb] = 0
                fr.forks[bb] = 0
            if c > self.max_unroll or fr.forks.get(bb, 0) > self.max_sym_iter:
                raise NeedInvariant(fr.sym, bb, "unroll limit")
            # leaving and re-entering resets inner loop counters
            for h in loops:
                if h != bb and h in loops[bb]:
                    fr.visits[h] = 0
                    fr.forks[h] = 0
        fr.prev = bb
        blk = fr.body["blocks"][bb]
        for s in blk["statements"]:
            k = s["kind"]
            if isinstance(k, str):
                continue
            kk = next(iter(k))
            if kk == "Assign":
                pl, rv = k["Assign"]
                a, path, t, meta = self.place(st, fr, pl)
                v = self.rvalue(st, fr, rv, t)
                if not path and a in st.mem and st.aty[a] == t:
                    st.mem[a] = v
                else:
                    self.write(st, a, path, v, t)
            elif kk in ("StorageLive", "StorageDead", "Retag", "FakeRead", "AscribeUserType", "Coverage", "PlaceMention", "ConstEvalCounter", "Nop", "BackwardIncompatibleDropHint"):
                continue
            elif kk == "SetDiscriminant":
                q = k[kk]
                a, path, t, meta = self.place(st, fr, q["place"])
                v = self.read(st, a, path, t)
                vi = q["variant_index"]
                nf = len(self.fields(t, vi))
                self.write(st, a, path, v if isinstance(v, En) and v.v == vi else En(vi, [UN] * nf), t)
            elif kk == "Intrinsic":
                q = k[kk]
                if "Assume" in q:
                    continue
                raise Unsupported(f"statement intrinsic {q}")
            else:
                raise Unsupported(f"statement {kk}")
        t = blk["terminator"]["kind"]
        if t == "Return":
            return self.ret(st, base)
        if t == "Unreachable":
            if self.pv.feasible(st.pc, True):
                return [Outcome("panic", None, st, "reached unreachable code")]
            return []
        if isinstance(t, str):
            return [Outcome("panic", None, st, t)]
        k = next(iter(t))
        q = t[k]
        if k == "Goto":
            fr.bb = q["target"]
            return [st]
        if k == "Drop":
            fr.bb = q["target"]
            return [st]
        if k == "SwitchInt":
            v, vt = self.operand(st, fr, q["discr"])
            return self.switch(st, fr, bb, v, vt, q["targets"])
        if k == "Assert":
            v, _ = self.operand(st, fr, q["cond"])
            cond = v if q["expected"] else Not(v)
            out = []
            for s, b in self.fork(st, cond):
                if b:
                    s.frames[-1].bb = q["target"]
                    out.append(s)
                else:
                    m = q["msg"]
                    out.append(Outcome("panic", None, s, f"{m if isinstance(m, str) else next(iter(m))} at {self.where(s)}"))
            return out
        if k == "Call":
            return self.call(st, fr, q)
        raise Unsupported(f"terminator {k}")

    def where(self, st):
        fr = st.frames[-1]
        f = self.prog.fns[fr.sym]
        try:
            ln = f["lines"][fr.bb]
        except Exception:
            ln = f.get("line")
        return f"{f.get('file')}:{ln}"

    def switch(self, st, fr, bb, v, vt, tg):
        br = tg["branches"]
        if self.tk(vt) == "bool":
            conds = []
            for val, b in br:
                conds.append((v if val else Not(v), b))
            other = Not(Or(*[c for c, _ in conds]))
        else:
            if self.tk(vt) == "int":
                w = self.ty(vt)["w"]
                br = [(x - 2**w if x >= 2 ** (w - 1) else x, b) for x, b in br]
            conds = [(eq(v, val), b) for val, b in br]
            other = And(*[Not(c) for c, _ in conds])
        alts = conds + [(other, tg["otherwise"])]
        for c, b in alts:
            if c is True or (c is not False and c in st.pc):
                fr.bb = b
                return [st]
        live = []
        for c, b in alts:
            if c is False:
                continue
            if self.pv.feasible(st.pc, c):
                live.append((c, b))
        if not live:
            return []  # infeasible path
        if len(live) > 1:
            # does this fork decide a loop exit?
            for h, blocks in self.prog.loops(fr.sym).items():
                if bb in blocks:
                    ins = [b in blocks for _, b in live]
                    if any(ins) and not all(ins):
                        fr.forks[h] = fr.forks.get(h, 0) + 1
        out = []
        for i, (c, b) in enumerate(live):
            s = st if i == len(live) - 1 else st.copy()
            s.assume(c)
            s.frames[-1].bb = b
            out.append(s)
        return out

    def ret(self, st, base):
        fr = st.frames.pop()
        v = st.mem[fr.loc[0]]
        for a in fr.loc:
            st.mem.pop(a, None)
            st.aty.pop(a, None)
        d = fr.dest
        rt = fr.body["locals"][0]["ty"]
        self.write(st, d[0], d[1], v, d[2] if d[2] is not None else rt)
        if len(st.frames) == base:
            return [Outcome("return", st.mem[st.ghost["__ret"]], st)]
        if fr.ret is None:
            raise Unsupported("return from diverging call")
        st.frames[-1].bb = fr.ret
        return [st]


class TailCall:
    def __init__(self, inst, args, argtys, ft=None, wrap=None):
        self.inst, self.args, self.argtys, self.ft, self.wrap = inst, args, argtys, ft, wrap
