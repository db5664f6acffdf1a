"""Running specifications on concrete inputs against the compiled crate."""
import json, os, random, subprocess, time
from . import terms as T
from .spec import When, V, C, Inp, combos, is_panic, PANIC, APIS


def tok(x):
    if x is True:
        return "1"
    if x is False:
        return "0"
    return str(x)


def unjson(v):
    if isinstance(v, list):
        return tuple(unjson(x) for x in v)
    if isinstance(v, dict):
        return {k: unjson(x) for k, x in v.items()}
    return v


class Replayer:
    def __init__(self, exe):
        self.exe = exe
        self.calls = 0

    def batch(self, lines):
        if not lines:
            return []
        p = subprocess.run([self.exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600)
        out = p.stdout.splitlines()
        self.calls += len(lines)
        res = []
        for i in range(len(lines)):
            if i < len(out):
                res.append(unjson(json.loads(out[i])))
            else:
                res.append((PANIC, "process ended"))
        return res

    def run_spec(self, spec, samples):
        """samples: list of input dicts; yields (inputs, results, failing labels)"""
        n = len(samples)
        ii = [Inp(d) for d in samples]
        live = []
        rs = [[] for _ in range(n)]
        for k, d in enumerate(samples):
            if spec.pre is None or spec.pre(ii[k]) is True:
                live.append(k)
        act = list(live)
        for step in spec.steps:
            lines, who = [], []
            for k in act:
                if rs[k] and is_panic(rs[k][-1]):
                    continue
                c = step(ii[k], rs[k])
                if isinstance(c, When):
                    c = c.call if c.cond is True else None
                if c is None:
                    continue
                enc = APIS[c[0]].encode
                lines.append(" ".join([c[0]] + [tok(x) for x in (enc(*c[1:]) if enc else c[1:])]))
                who.append(k)
            for k, r in zip(who, self.batch(lines)):
                rs[k].append(r)
                if isinstance(r, dict) and "oracle" in r:
                    # what the compiled code's own functions answer at the specified arguments
                    ii[k].__dict__.update(r["oracle"])
            act = who
        for k in live:
            bad = []
            if rs[k] and is_panic(rs[k][-1]):
                if spec.panic == "violation":
                    bad.append(f"panic: {rs[k][-1][1]}")
            else:
                for lab, f in spec.post(ii[k], rs[k]):
                    if f is not True:
                        if f is False:
                            bad.append(lab)
                        else:
                            raise RuntimeError(f"postcondition {lab} is not decided on {samples[k]}")
            yield samples[k], rs[k], bad


def clip(x, lo, hi):
    return lo if x < lo else hi if x > hi else x


def gen(spec, rng, consts=(), n=1000):
    """boundary-biased inputs"""
    cs = combos(spec.inputs)
    vs = [x for x in spec.inputs if isinstance(x, V)]
    consts = list(consts)
    for _ in range(n):
        d = dict(rng.choice(cs))
        mode = rng.random()
        got = []
        for v in rng.sample(vs, len(vs)):
            hi, lo = v.hi, v.lo
            b = hi.bit_length()
            q = rng.random()
            if v.special and q < 0.15:
                x = rng.choice(v.special)
            elif mode < 0.15:
                x = rng.randint(lo, min(hi, lo + 20))
            elif q < 0.30:
                x = rng.getrandbits(rng.randint(1, b))
            elif q < 0.38:
                x = 2 ** rng.randint(0, b) + rng.randint(-2, 2)
            elif q < 0.52:
                x = 10 ** rng.randint(0, int(b * 0.302)) * rng.randint(1, 9) + rng.randint(-1, 1) * (rng.random() < 0.4)
            elif q < 0.57:
                x = rng.choice((lo, lo + 1, hi, hi - 1))
            elif q < 0.75 and got:
                a = rng.choice(got)
                b2 = rng.choice(got)
                x = rng.choice((a, a + 1, a - 1, a * b2, a // b2 if b2 else a, a + b2, a - b2, a * 2, a // 2, a * rng.randint(1, 100), (hi // a if a else hi) + rng.randint(-1, 1)))
            elif q < 0.82 and consts:
                x = rng.choice(consts) + rng.randint(-1, 1)
            else:
                x = rng.randint(lo, min(hi, lo + 10 ** rng.randint(1, 12)))
            x = clip(x, lo, hi)
            got.append(x)
            d[v.name] = x
        if spec.gen:
            d2 = spec.gen(rng, d)
            if d2:
                for v in vs:
                    d2[v.name] = clip(d2[v.name], v.lo, v.hi)
                d = d2
        yield d
