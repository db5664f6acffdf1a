#!/opt/veriftools/pyvenv/bin/python3
"""check.py P<id>: decide one property on /repo's current tree."""
import sys, os, time, json, random, importlib, hashlib, gc

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(100000)
from mirv import build, interp, spec as S, conc, solver
import props

T0 = time.time()
LIMIT = float(os.environ.get("MIRV_LIMIT", "840"))


def left():
    return LIMIT - (time.time() - T0)


def closure(keys):
    out, todo = [], list(keys)
    while todo:
        k = todo.pop()
        if k in out:
            continue
        out.append(k)
        todo += list(S.CONTRACTS[k].uses)
    return out


class Search:
    """runs of the compiled code, judged by the specifications"""

    def __init__(self, rep, rng, tier, known):
        self.rep, self.rng, self.tier, self.known = rep, rng, tier, known
        self.witness, self.known_hits = {}, {}
        self.runs = self.nontriv = 0

    def batch(self, s, batch, again=True):
        more = []
        for d, rs, badl in self.rep.run_spec(s, batch):
            self.runs += 1
            if again and s.refine is not None:
                for _ in range(2):
                    d2 = s.refine(self.rng, d, rs)
                    if d2 is not None:
                        more += d2 if isinstance(d2, list) else [d2]
            if rs and rs[-1] is not None and not S.is_panic(rs[-1]):
                self.nontriv += 1
            if badl:
                k = props.match_known(self.known, s.name, d, badl)
                if k is not None:
                    self.known_hits[k["id"]] = k
                    continue
                self.witness[s.name] = (d, rs, badl)
                return True
        return bool(more) and self.batch(s, more, False)

    def sample(self, s, n):
        if self.rep is None:
            return
        cand = [kf["inputs"] for kf in self.known if kf.get("spec") == s.name and "inputs" in kf]
        if cand and self.batch(s, cand):
            return
        while n > 0:
            if self.batch(s, list(conc.gen(s, self.rng, (), min(n, 4000)))):
                return
            n -= 4000

    def hunt(self, s, secs, cand, consts):
        if self.rep is None or s.samples == 0 or s.name in self.witness:
            return
        if cand and self.batch(s, cand):
            return
        t_end = time.time() + secs
        while time.time() < t_end and left() > 15:
            if self.batch(s, list(conc.gen(s, self.rng, consts, 4000))):
                return


def fail(msg):
    print("ERROR:", msg)
    sys.exit(2)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rng = random.Random(seed)
    pr = props.load(pid)
    known = props.known_findings(pid)
    dpath = os.path.join(build.BUILD, f"dump-{pid}-{os.getpid()}.json")
    exe = None
    try:
        try:
            build.dump(dpath)
        except build.BuildError as e:
            fail(str(e))
        prog = interp.Program(dpath)
    finally:
        if os.path.exists(dpath):
            os.unlink(dpath)
    gc.freeze()
    try:
        exe = build.replay_bin()
        rep = conc.Replayer(exe)
    except build.BuildError as e:
        print("note: no replay binary:", str(e).splitlines()[-1])
        rep = None
    try:
        rc = decide(pid, pr, prog, rep, tier, seed, rng, known)
    finally:
        if exe and os.path.exists(exe):
            os.unlink(exe)
    sys.exit(rc)


def decide(pid, pr, prog, rep, tier, seed, rng, known):
    specs = pr["specs"]
    only = os.environ.get("MIRV_ONLY")
    if only:
        specs = [s for s in specs if only in s.name]
    # what this source makes no use of needs no proof of its model
    specs = [s for s in specs if not s.raw or all(prog.byname.get(S.APIS[k].fn) in prog.bodies for k in s.raw)]
    rs = Search(rep, rng, tier, known)
    # ---- concrete runs of the compiled code under the same specifications
    witness = rs.witness
    for s in specs:
        rs.sample(s, s.samples if s.samples is not None else (400 if tier == "quick" else 20000))
    allspecs = specs
    specs = [s for s in specs if s.name not in witness and s.proof]
    if any(not s.proof and s.name in witness for s in allspecs):
        specs = []  # runs of the code show the violation the proofs would exclude
    need = []
    for s in specs:
        need += list(s.uses)
    cts = closure(need)
    tasks = [(("c", k, S.cname(c)), S.contract_task(prog, S.CONTRACTS[k], (), tier, c)) for k in cts for c in S.ct_combos(S.CONTRACTS[k])]
    tasks += [(("s", s.name, S.cname(c)), S.spec_task(prog, s, c, (), tier)) for s in specs for c in S.combos(s.inputs)]
    import multiprocessing

    S.SEM = multiprocessing.Semaphore(8)
    jobs = int(os.environ.get("MIRV_JOBS", "8"))
    demoted = set()

    def bad(r):
        return r[0] != "ok" or any(x["status"] != "proved" for x in r[1]["records"])

    byname = {s.name: s for s in specs}

    def drop(n, r, waiting):
        """a failed contract: what rests on it is to be redone without it"""
        if n[0] != "c" or not bad(r):
            return ()
        return {w for w in waiting if n[1] in closure([w[1]] if w[0] == "c" else byname[w[1]].uses)}

    res = S.run_tasks(tasks, jobs, left() * 0.7, drop, lambda n: left() * (0.3 if n[0] == "c" else 0.7))
    for (kk, r) in list(res.items()):
        if kk[0] == "c" and bad(r):
            demoted.add(kk[1])
    notes = []
    if demoted:
        # contracts that depend on a failed one are not established either
        ch = True
        while ch:
            ch = False
            for k in cts:
                if k not in demoted and any(u in demoted for u in S.CONTRACTS[k].uses):
                    demoted.add(k)
                    ch = True
        notes.append("contracts not established, callee inlined instead: " + ", ".join(sorted(demoted)))
        redo = [s for s in specs if any(k in demoted for k in closure(s.uses))]
        # a failed contract usually means a changed function: look for a failing
        # input before redoing the proof without the contract
        for s in redo:
            rs.hunt(s, min(40, left() * 0.1), [], set())
        runs_only = [s for s in allspecs if not s.proof]
        for s in runs_only:
            rs.hunt(s, min(40, left() * 0.1), [], set())
        if any(s.name in witness for s in runs_only):
            for s in redo:
                for k in [k for k in res if k[0] == "s" and k[1] == s.name]:
                    res.pop(k)
            redo = []
        redo = [s for s in redo if s.name not in witness]
        tasks2 = [(("s", s.name, S.cname(c)), S.spec_task(prog, s, c, tuple(demoted), tier)) for s in redo for c in S.combos(s.inputs)]
        for k, _ in tasks2:
            res.pop(k, None)
        res.update(S.run_tasks(tasks2, jobs, left() * 0.55))
    specs = allspecs
    # ---- collect
    obl = dis = 0
    backends = {}
    stime = 0.0
    funcs, models, used, loops_, consts = set(), set(), set(), set(), set()
    npaths = 0
    failing = {}  # spec name -> list of records
    problems = []
    cover = {}
    cfail = []
    samples = []
    for kk, r in res.items():
        if r[0] != "ok":
            if kk[0] == "c":
                if r[0] != "dropped":
                    cfail.append(f"contract {kk[1]}: {r[0]} {str(r[1])[:300]}")
                continue
            problems.append((kk, r))
            continue
        p = r[1]
        funcs |= p["funcs"]
        models |= p["models"]
        used |= p["contracts"]
        loops_ |= set(p["loops"])
        consts |= p["consts"]
        npaths += p["npaths"]
        for n, v in p["stats"].items():
            stime += v[1]
        if kk[0] == "s":
            cover.setdefault(kk[1], set()).update(p["cover"])
        for x in p["records"]:
            if x["status"] == "proved":
                obl += 1
                dis += 1
                b = x["backend"]
                backends[b] = backends.get(b, 0) + 1
                if len(samples) < 12 and x["backend"] != "syntactic":
                    samples.append(x["name"])
            elif kk[0] == "c":
                cfail.append(f"{x['name']}: {x['status']}")
            else:
                obl += 1
                failing.setdefault(kk[1], []).append(x)
    if os.environ.get("MIRV_SLOW"):
        al = [x for r in res.values() if r[0] == "ok" for x in r[1]["records"]]
        for x in sorted(al, key=lambda x: -x["t"])[:15]:
            print("%.2fs %s %s %s" % (x["t"], x["status"], x["backend"], x["name"]))
    # ---- a failing input for each undischarged obligation
    sus = [s for s in specs if s.name not in witness and (s.name in failing or any(k[0] == "s" and k[1] == s.name for k, _ in problems))]
    if sus:
        sus += [s for s in specs if not s.proof and s.name not in witness]
    for s in sus:
        cand = [dict(x["combo"], **x["inputs"]) for x in failing.get(s.name, []) if "inputs" in x]
        rs.hunt(s, min(60 if tier == "quick" else 400, max(10, left() * 0.5 / len(sus))), cand, consts)
    runs, nontriv, known_hits = rs.runs, rs.nontriv, rs.known_hits
    # ---- vacuity: every declared cover point reached
    vac = []
    for s in specs:
        if s.name in failing or s.name in witness or not s.proof or not any(k[0] == "s" and k[1] == s.name for k in res) or any(k[1] == s.name for k, _ in problems):
            continue
        for ck, _ in s.cover:
            if ck not in cover.get(s.name, ()):
                vac.append(f"{s.name}: {ck}")
    ok = True
    viol = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    for s in specs:
        if s.name in witness:
            d, rs, badl = witness[s.name]
            path = os.path.join(rdir, f"{pid}-{s.name.replace('/', '_').replace(' ', '_')}.json")
            os.makedirs(rdir, exist_ok=True)
            fl = failing.get(s.name, [])
            with open(path, "w") as f:
                json.dump({"property": pid, "spec": s.name, "inputs": d, "results_of_the_compiled_code": rs, "violated": badl, "failed_obligations": [x["name"] for x in fl][:40], "detail": [x for x in fl][:3], "contract_failures": cfail[:10]}, f, indent=1, default=str)
            print(f"failed: {s.name}: {badl} on {d} -> {rs}")
            print(f"VIOLATION property={pid} replay={path}")
            viol += 1
        elif s.name in failing:
            fl = [x for x in failing[s.name] if not props.record_known(known, s.name, x)]
            if not fl:
                continue
            if any(q.name in witness for q in specs):
                print(f"undischarged: {fl[0]['name']} ({fl[0]['status']}); failing input reported above or below")
                continue
            path = os.path.join(rdir, f"{pid}-{s.name.replace('/', '_').replace(' ', '_')}.json")
            os.makedirs(rdir, exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": pid, "spec": s.name, "failed_obligations": [x["name"] for x in fl][:40], "detail": fl[:5], "contract_failures": cfail[:10]}, f, indent=1, default=str)
            print(f"undischarged: {fl[0]['name']} ({fl[0]['status']}): {fl[0].get('goal')}")
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            viol += 1
    for k in known_hits.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for c in cfail:
        print("note:", c)
    unresolved = [(k, r) for k, r in problems if k[1] not in witness and k[1] not in failing]
    for k, r in unresolved[:4]:
        print("undecided:", k, r[0], str(r[1])[-1500:])
    if len(unresolved) > 4:
        print(f"undecided: and {len(unresolved) - 4} more")
    for v in vac:
        print("unreachable outcome:", v)
    # obligations that could not be generated or decided, or outcomes that can
    # no longer happen: the property is not established for this source
    for name in sorted({k[1] for k, _ in unresolved} | {v.split(": ")[0] for v in vac}):
        if any(q.name in witness for q in specs):
            continue
        path = os.path.join(rdir, f"{pid}-{name.replace('/', '_').replace(' ', '_')}.json")
        os.makedirs(rdir, exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": pid, "spec": name, "undecided": [(k, r[0], str(r[1])[-3000:]) for k, r in unresolved if k[1] == name][:10], "unreachable": [v for v in vac if v.split(": ")[0] == name], "contract_failures": cfail[:10]}, f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        viol += 1
    trusted = sorted("assumed model: " + m for m in models)
    cov = dict(obligations=obl, discharged=dis, checker_cmd=f"python3-vt check.py {pid}",
               trusted_base=props.TRUSTED + trusted,
               functions_under_contract=sorted(f for f in funcs), contracts_used=sorted(used), contracts_checked=sorted(set(cts) - demoted),
               paths=npaths, backends=backends, solver_seconds=round(stime, 2), loop_contracts=sorted(loops_),
               concrete_cross_checks=runs, concrete_nontrivial=nontriv, samples=samples, notes=notes + cfail[:20],
               bounded=pr.get("bounded", []))
    ev = dict(property=pid, tier=tier, seed=seed, level=pr.get("level", "proof"), coverage=cov, assumptions=pr.get("assumptions", []) + props.ASSUMPTIONS, wall_s=round(time.time() - T0, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {dis}/{obl} obligations discharged over {npaths} paths, {len(funcs)} functions, {runs} concrete runs, {time.time() - T0:.1f}s {backends}")
    if viol:
        return 1
    if obl == 0:
        print("ERROR: no obligations")
        return 2
    return 0


main()
