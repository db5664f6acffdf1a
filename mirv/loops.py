"""Loop contracts.  A loop whose number of iterations is not fixed gets an
inductive invariant: the largest subset of a fixed family of candidate facts
about the loop's integer variables that holds on entry and is preserved by the
body (Houdini).  The family mentions no variable by name."""
import time
from . import terms as T
from .terms import Poly, And, Or, Not, ge, le, lt, gt, eq, sub, add, mul, iv
from .interp import *


def base_locals(interp, sym, hdr):
    """locals written in the loop"""
    body = interp.prog.bodies[sym]
    blocks = interp.prog.loops(sym)[hdr]
    mod = set()
    for b in blocks:
        blk = body["blocks"][b]
        for s in blk["statements"]:
            k = s["kind"]
            if isinstance(k, dict) and "Assign" in k:
                pl, rv = k["Assign"]
                if "Deref" in pl["projection"]:
                    raise Unsupported("loop writes through a pointer")
                mod.add(pl["local"])
                if isinstance(rv, dict):
                    for rk in ("Ref", "AddressOf"):
                        if rk in rv:
                            q = rv[rk]
                            isk = q[1] if rk == "Ref" else q[0]
                            p2 = q[2] if rk == "Ref" else q[1]
                            if isk != "Shared" and isk != "Const" and isk != "Not":
                                if "Deref" not in p2["projection"]:
                                    mod.add(p2["local"])
            elif isinstance(k, dict) and "SetDiscriminant" in k:
                mod.add(k["SetDiscriminant"]["place"]["local"])
        t = blk["terminator"]["kind"]
        if isinstance(t, dict) and "Call" in t:
            d = t["Call"]["destination"]
            if "Deref" in d["projection"]:
                raise Unsupported("loop writes through a pointer")
            mod.add(d["local"])
    return mod


def _mentions(x, out):
    """every local named anywhere in a piece of MIR"""
    if isinstance(x, dict):
        if "local" in x and "projection" in x:
            out.add(x["local"])
            _mentions(x["projection"], out)
        else:
            if "Index" in x and isinstance(x["Index"], int):
                out.add(x["Index"])
            for v in x.values():
                _mentions(v, out)
    elif isinstance(x, list):
        for v in x:
            _mentions(v, out)


def live_in(interp, sym, hdr):
    """locals live on entry to block hdr (address-taken ones always are)"""
    body = interp.prog.bodies[sym]
    n = len(body["blocks"])
    use, kill, succ = [], [], []
    taken = set()
    for blk in body["blocks"]:
        u, k = set(), set()
        for s in blk["statements"]:
            q = s["kind"]
            if isinstance(q, dict) and "Assign" in q:
                pl, rv = q["Assign"]
                m = set()
                _mentions(rv, m)
                if isinstance(rv, dict) and ("Ref" in rv or "AddressOf" in rv):
                    taken |= m
                if pl["projection"]:
                    m.add(pl["local"])
                u |= m - k
                if not pl["projection"]:
                    k.add(pl["local"])
            elif isinstance(q, dict) and ("StorageLive" in q or "StorageDead" in q):
                l = q.get("StorageLive", q.get("StorageDead"))
                if isinstance(l, int):
                    k.add(l)
            else:
                m = set()
                _mentions(q, m)
                u |= m - k
        t = blk["terminator"]["kind"]
        m = set()
        d = None
        if isinstance(t, dict) and "Call" in t:
            d = t["Call"]["destination"]
            _mentions({a: b for a, b in t["Call"].items() if a != "destination"}, m)
            if d["projection"]:
                m.add(d["local"])
        else:
            _mentions(t, m)
        if t == "Return":
            m.add(0)
        u |= m - k
        if d is not None and not d["projection"]:
            k.add(d["local"])
        use.append(u)
        kill.append(k)
        succ.append(list(succs(t)))
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s2 in succ[b]:
                o |= live[s2]
            i = use[b] | (o - kill[b])
            if i != live[b]:
                live[b] = i
                ch = True
    return live[hdr] | taken


class LoopInv:
    live = None

    def __init__(self, sym, hdr):
        self.sym, self.hdr = sym, hdr
        self.mod = None
        self.dropped = set()
        self.failed = set()
        self.nchecks = 0
        self.rank = None  # surviving ranking candidates
        self.kept = set()

    def ints(self, I, st, fr):
        out = {}
        for l, a in enumerate(fr.loc):
            if l not in self.live:
                continue
            v = st.mem.get(a)
            t = fr.body["locals"][l]["ty"]
            k = I.tk(t)
            if isinstance(v, (int, Poly)) and not isinstance(v, bool) and k == "uint":
                out[l] = v
            elif I.is_u256(t) and isinstance(v, (int, Poly)):
                out[l] = v
        return out

    def cands(self, I, st, fr, entry):
        """key -> formula over the current values"""
        cur = self.ints(I, st, fr)
        ms = [l for l in cur if l in self.mod]
        c = {}
        for m in ms:
            v = cur[m]
            c[("pos", m)] = ge(v, 1)
            if m in entry:
                c[("le0", m)] = le(v, entry[m])
                c[("ge0", m)] = ge(v, entry[m])
            for x in cur:
                if x == m:
                    continue
                w = cur[x]
                if isinstance(w, int) and isinstance(v, int):
                    continue
                c[("le", m, x)] = le(v, w)
                c[("ge", m, x)] = ge(v, w)
                if T.degree(v) <= 1 and T.degree(w) <= 1 and x not in self.mod:
                    c[("sqgt", m, x)] = gt(mul(add(v, 1), add(v, 1)), w)
                    c[("sqle", m, x)] = le(mul(v, v), w)
                    for y in ms:
                        if y != m:
                            u = cur[y]
                            c[("newton", m, y, x)] = le(mul(2, mul(v, u)), add(w, mul(u, u)))
        return c

    def arrive(self, I, st, fr, bb):
        blocks = I.prog.loops(self.sym)[self.hdr]
        if self.mod is None:
            self.mod = base_locals(I, self.sym, self.hdr)
            self.live = live_in(I, self.sym, self.hdr)
        key = ("inv", len(st.frames), self.hdr)
        if fr.prev in blocks:
            # back edge: the candidates must hold again
            entry, start = st.ghost[key]
            for k, f in self.cands(I, st, fr, entry).items():
                if k in self.dropped or k not in self.kept:
                    continue
                self.nchecks += 1
                r, _, _ = I.pv.prove(st.pc, f, timeout=5)
                if r != "proved":
                    self.failed.add(k)
            cur = self.ints(I, st, fr)
            dec = set()
            for m, v0 in start.items():
                if m in cur and I.pv.prove(st.pc, lt(cur[m], v0), timeout=3, nia=False)[0] == "proved":
                    dec.add(m)
            self.rank = dec if self.rank is None else self.rank & dec
            return False
        entry = self.ints(I, st, fr)
        cs = self.cands(I, st, fr, entry)
        for k, f in cs.items():
            if k in self.dropped:
                continue
            self.nchecks += 1
            r, _, _ = I.pv.prove(st.pc, f, timeout=5)
            if r != "proved":
                self.failed.add(k)
        # havoc
        for l in self.mod:
            a = fr.loc[l]
            v = st.mem.get(a)
            if v is UN:
                continue
            if l not in self.live:
                st.mem[a] = UN
                continue
            t = fr.body["locals"][l]["ty"]
            k = I.tk(t)
            if k in ("uint", "int", "bool") or I.is_u256(t):
                st.mem[a] = I.fresh(t, f"loop{bb}_{l}", st)
            elif k in ("struct", "enum", "tuple"):
                try:
                    st.mem[a] = I.fresh(t, f"loop{bb}_{l}", st)
                except Unsupported:
                    st.mem[a] = UN
            else:
                st.mem[a] = UN
        self.kept |= set(k for k in cs if k not in self.failed)
        for k, f in self.cands(I, st, fr, entry).items():
            if k in cs and k not in self.dropped and k not in self.failed:
                st.assume(f)
        cur = self.ints(I, st, fr)
        st.ghost[key] = (entry, {m: cur[m] for m in cur if m in self.mod})
        return True


def run_with_loops(make, sym, max_rounds=25):
    """make() -> (Interp, outcomes) under I.invs; refine until inductive.
    make receives the dict of loop contracts to install."""
    invs = {}
    for _ in range(max_rounds):
        for v in invs.values():
            v.failed = set()
            v.rank = None
            v.kept = set()
        try:
            r = make(invs)
        except NeedInvariant as e:
            k = (e.sym, e.hdr)
            if k in invs:
                raise Unsupported(f"loop not handled: {e}")
            invs[k] = LoopInv(e.sym, e.hdr)
            continue
        bad = False
        for v in invs.values():
            if v.failed:
                v.dropped |= v.failed
                bad = True
        if not bad:
            return r, invs
    raise Unsupported("loop invariants did not stabilise")


class Counted:
    """The contract of a loop whose counter is known: one assertion per
    iteration.  On each arrival at the head the variables the loop changes are
    shown to be one number g (or wrappers of it) with inv(k, g, ghost) - k the
    iterations done -; then what was computed is forgotten and g is any number
    with inv(k, g, ghost).  A False assertion: that iteration is never begun.
    part (m, n): the iterations from the assertion after m of them to the one
    after n (None: to the end) only."""

    def __init__(self, fn, inv, step, setup, top, part=(0, None)):
        self.part = part
        # setup(I, st, fr) -> (ghost values, facts about them that hold for some such values)
        # top(k): a number g never exceeds then
        self.fn, self.inv, self.stepf, self.setup, self.top = fn, inv, step, setup, top
        self.records = []
        self.seen, self.begun = {}, set()
        self.live = self.mod = None

    def find(self, I):
        from . import spec as S

        if self.fn in S.APIS:
            self.fn = S.APIS[self.fn].locate(I.prog)
        sym = I.prog.byname.get(self.fn)
        if sym is None:
            raise Unsupported(f"no function {self.fn}")
        hs = list(I.prog.loops(sym))
        if len(hs) != 1:
            raise Unsupported(f"loops of {self.fn}")
        self.sym, self.hdr = sym, hs[0]
        return (sym, self.hdr)

    def arrive(self, I, st, fr, bb):
        from . import spec as S

        if self.mod is None:
            self.mod = base_locals(I, self.sym, self.hdr)
            self.live = live_in(I, self.sym, self.hdr)
        key = ("counted", len(st.frames), self.hdr)
        first = key not in st.ghost
        if first:
            gh, facts = self.setup(I, st, fr)
            for f in facts:
                st.assume(f)
            k, pc0, old, unset = self.part[0], list(st.pc), None, set()
        else:
            gh, k, pc0, old, unset = st.ghost[key]
            k += 1
        where, g, count = [], None, []
        for l in self.mod:
            if l not in self.live:
                if st.mem.get(fr.loc[l]) is not UN:
                    st.mem[fr.loc[l]] = UN
                continue
            v = st.mem.get(fr.loc[l])
            if v is UN:
                if first:
                    unset.add(l)
                continue
            if l in unset:  # was not set on entry: belongs to the body
                st.mem[fr.loc[l]] = UN
                continue
            w = v
            while isinstance(w, Agg) and len(w.f) == 1:
                w = w.f[0]
            if isinstance(w, Poly) or (isinstance(w, int) and I.tk(fr.body["locals"][l]["ty"]) == "struct" and v is not w and isinstance(v, Agg)):
                if g is not None and not (isinstance(w, int) and isinstance(g, int) and w == g or isinstance(w, Poly) and w == g):
                    raise Unsupported("the loop changes several numbers")
                g = w
                where.append(l)
            elif isinstance(v, Agg) and len(v.f) == 2 and v.f[0] == (0 if first else k) and isinstance(v.f[1], int):
                count.append(l)
            elif isinstance(v, int) and not isinstance(v, bool) and v == (0 if first else k):
                count.append(l)
            else:
                raise Unsupported("the loop has a state the contract does not speak of")
        if g is None or len(count) != 1:
            raise Unsupported("the loop changes no number, or has no counter")
        if first and k:
            # the loop as entered, k iterations later
            v = st.mem[fr.loc[count[0]]]
            st.mem[fr.loc[count[0]]] = Agg([k, v.f[1]]) if isinstance(v, Agg) else k
        hyps = list(st.pc)
        if old is not None:
            ctx = S.Ctx.__new__(S.Ctx)
            ctx.pv = I.pv
            hyps += S.lemmas(ctx, hyps, self.stepf(k - 1, old, g, gh))
        for n, f in enumerate(self.inv(k, g, gh) + [le(g, self.top(k))] if not (first and k) else []):
            t0 = time.time()
            r, be, _ = I.pv.prove(hyps, f, timeout=20, want_model=False)
            self.records.append(dict(name=f"loop of {self.fn.split('::')[-1]}, after {k} iterations, fact {n}", status=r, backend=be, t=time.time() - t0))
            if r != "proved":
                raise Unsupported(f"loop contract of {self.fn} not kept at iteration {k}: {T.fshow(f)[:200]}")
            if f is False:
                return False
            hyps.append(f)
        if k == self.part[1]:
            return False
        # a second path to the same point adds nothing: all it can know is inv
        rest = [[(l, repr(st.mem.get(a))) for l, a in enumerate(x.loc) if not (x is fr and (l in where or l not in self.live))] for x in st.frames]
        key2 = (k, len(st.frames), repr(pc0))
        if self.seen.setdefault(key2, rest) == rest and key2 in self.begun:
            return False
        self.begun.add(key2)
        g2 = T.var(f"{k}th", 0, self.top(k))
        st.pc[:] = pc0
        for f in self.inv(k, g2, gh):
            st.assume(f)

        def wrap(v):
            return Agg([wrap(v.f[0])]) if isinstance(v, Agg) else g2

        for l in where:
            st.mem[fr.loc[l]] = wrap(st.mem[fr.loc[l]])
        st.ghost[key] = (gh, k, pc0, g2, unset)
        return True
