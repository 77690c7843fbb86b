"""Seeded search over simulated runs: case generation, judging, determinism
gate, minimisation, replay files, known findings and evidence."""
import os, sys, json, time, random, hashlib, re, subprocess, traceback
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
import simlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class V:
    """One violation: `kind` classifies it, `where` identifies the failing input,
    call site or history precisely enough for the known-findings file."""
    def __init__(self, kind, msg, where=""):
        self.kind, self.msg, self.where = kind, msg, where

    def __repr__(self):
        return "[%s] %s%s" % (self.kind, self.msg, " @ " + self.where if self.where else "")


class Prop:
    id = None
    level = "exploration"
    quick_n = 100
    thorough_n = 2000
    quick_cap = 150       # seconds after which no further case is started (safety net only)
    thorough_cap = 3000
    rule = ""
    real = "CGMF driver and library (all of utils/cgmf and libcgmf)"
    stub = "operating system (files, clock, environment, allocator, process exit) and MPI: simulator; discreteLevels.dat: synthesised"
    assumptions = ()

    def case(self, rng, i, tier):
        raise NotImplementedError

    def judge(self, plan, meta, res):
        raise NotImplementedError

    # ensemble properties: judge returns info["acc"] and finish() judges the accumulators of all cases together
    finish = None

    def shrink(self, plan, meta):
        return iter(())

    # simulated runs other than the main plan may be needed by some properties
    def execute(self, plan, meta):
        return simlib.run(plan)


def case_rng(prop, seed, i):
    return random.Random(int(hashlib.sha256(("%s/%d/%d" % (prop.id, seed, i)).encode()).hexdigest()[:15], 16))


def eval_case(prop, plan, meta):
    res = prop.execute(plan, meta)
    viol, info = prop.judge(plan, meta, res)
    return res, viol, info


_P = None


def _init(pid):
    global _P
    _P = load(pid)


def _work(seed, i, tier):
    try:
        rng = case_rng(_P, seed, i)
        plan, meta = _P.case(rng, i, tier)
        res, viol, info = eval_case(_P, plan, meta)
        return dict(i=i, viol=[(v.kind, v.msg, v.where) for v in viol], info=info, hash=res.hash, vtime=res.vtime, seams=res.seams,
                    inj=res.injected, sw=hashlib.md5(" ".join(res.switches).encode()).hexdigest(), nsw=len(res.switches),
                    procs=len(res.nodes), steps=sum(s.get("steps", 0) for s in res.stat.values()),
                    st=[v[0] for v in res.nodes.values()], plan=plan.to_json() if viol or i < 3 else None, meta=meta if viol or i < 3 else None)
    except simlib.SimError as e:
        return dict(i=i, error=str(e))
    except Exception:
        return dict(i=i, error=traceback.format_exc()[-2500:])


def load(pid):
    import importlib
    sys.path.insert(0, os.path.join(VERIF, "py"))
    return importlib.import_module("props." + pid).PROP


# ------------------------------------------------------------ findings ------
def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def match_known(pid, v, kf):
    for k in kf:
        if k["property"] == pid and k.get("status") == "open" and k["kind"] == v[0] and re.search(k["where"], v[2]):
            return k
    return None


# ---------------------------------------------------------- minimising ------
def generic_shrinks(plan, meta):
    """Smaller variants of a plan that stay meaningful for any judge."""
    for k in range(len(plan.faults) - 1, -1, -1):
        q = plan.clone(); del q.faults[k]; yield q, meta
    if plan.heap[0]:
        q = plan.clone(); q.heap = (0, 1); yield q, meta
    if plan.sched.startswith("random"):
        q = plan.clone(); q.sched = "fifo"; yield q, meta
    if plan.sched.startswith("list"):
        w = plan.sched.split(" ")
        sw = w[2:]
        n = len(sw)
        step = max(1, n // 2)
        while step >= 1:
            for a in range(0, n, step):
                q = plan.clone(); q.sched = " ".join(w[:2] + sw[:a] + sw[a + step:]); yield q, meta
            if step == 1 or n > 60:
                break
            step //= 2
    for f in range(len(plan.faults)):
        if plan.faults[f]["count"] not in (1,):
            q = plan.clone(); q.faults[f]["count"] = 1; yield q, meta


def minimise(prop, plan, meta, kinds, budget):
    t0 = time.time()
    best, bmeta = plan, meta
    res = None
    tried = 0

    def bad(p, m):
        try:
            r, v, _ = eval_case(prop, p, m)
        except Exception:
            return None
        return r if any(x.kind in kinds for x in v) else None
    # replace the random scheduler by the explicit switch list it produced
    if plan.sched.startswith("random"):
        r = bad(plan, meta)
        if r is not None and len(r.switches) < 4000:
            q = plan.clone(); q.sched = "list %s %s" % (plan.sched.split()[1], " ".join(r.switches))
            if bad(q, meta) is not None:
                best = q
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for src in (prop.shrink, generic_shrinks):
            for q, m in src(best, bmeta):
                if time.time() - t0 > budget:
                    break
                tried += 1
                if bad(q, m) is not None:
                    best, bmeta, progress = q, m, True
                    break
            if progress:
                break
    return best, bmeta, tried


def write_replay(prop, seed, i, plan, meta, viol, h):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d-%s.json" % (prop.id, seed, i))
    json.dump(dict(property=prop.id, seed=seed, case=i, plan=plan.to_json(), meta=meta, violations=[list(v) for v in viol], hash=h), open(p, "w"), indent=1)
    return p


def ensemble_run(pid, cases):
    """Execute (seed, case, tier) triples; accumulators and one hash over all executions."""
    with ProcessPoolExecutor(NPROC, initializer=_init, initargs=(pid,)) as ex:
        rs = [f.result() for f in [ex.submit(_work, *c) for c in cases]]
    for r in rs:
        if "error" in r:
            raise simlib.SimError(r["error"])
    return [r["info"].get("acc", {}) for r in rs], hashlib.sha256(" ".join(r["hash"] for r in rs).encode()).hexdigest()[:16]


def ensemble_judge(prop, accs):
    """Violations of an ensemble that the known-findings file does not list."""
    kf = known()
    return [v for v in prop.finish(accs) if not match_known(prop.id, (v.kind, v.msg, v.where), kf)]


def ensemble_violation(prop, seed, tier, accs, viol):
    """Minimise to the shortest run of cases that still violates, store and replay it."""
    idx = sorted(accs)
    kinds = set(v.kind for v in viol)
    best = idx
    n = 1
    while n < len(idx):       # shortest window of cases, doubling the length
        w = next((idx[a:a + n] for a in range(0, len(idx) - n + 1, n) if any(v.kind in kinds for v in ensemble_judge(prop, [accs[i][0] for i in idx[a:a + n]]))), None)
        if w:
            best = w
            break
        n *= 2
    vs = ensemble_judge(prop, [accs[i][0] for i in best])
    h = hashlib.sha256(" ".join(accs[i][1] for i in best).encode()).hexdigest()[:16]
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d-%d.json" % (prop.id, seed, best[0], best[-1]))
    json.dump(dict(property=prop.id, ensemble=[[seed, i, tier] for i in best], violations=[[v.kind, v.msg, v.where] for v in vs], hash=h), open(path, "w"), indent=1)
    p = subprocess.run([sys.executable, os.path.join(VERIF, "py", "check.py"), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        good = p.returncode == 1 and json.loads(p.stdout.decode().strip().splitlines()[-1])["hash"] == h
    except Exception:
        good = False
    if not good:
        print("ERROR: replay in a fresh process did not reproduce the violation\n" + p.stdout.decode()[-1500:])
        return 2
    for v in vs[:8]:
        print("  [%s] %s" % (v.kind, v.msg))
    print("  seed=%d cases=%d..%d (%d of %d simulated runs suffice)" % (seed, best[0], best[-1], len(best), len(idx)))
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


def replay(path, quiet=False):
    d = json.load(open(path))
    prop = load(d["property"])
    simlib.setup()
    if getattr(prop, "checked", False):
        simlib.B.build_checked()
    if "ensemble" in d:
        a, h = ensemble_run(d["property"], [tuple(c) for c in d["ensemble"]])
        vs = ensemble_judge(prop, a)
        print("replay of %s: execution hash %s (%s)" % (path, h, "identical" if h == d["hash"] else "DIFFERS from recorded %s" % d["hash"]))
        for v in vs:
            print("  %s: %s" % (v.kind, v.msg))
        print(json.dumps(dict(hash=h, kinds=sorted(set(v.kind for v in vs)))))
        return 1 if vs else 0
    plan = simlib.Plan.from_json(d["plan"])
    res, viol, info = eval_case(prop, plan, d["meta"])
    same = res.hash == d["hash"]
    vv = [(v.kind, v.msg, v.where) for v in viol]
    if not quiet:
        print("replay of %s: execution hash %s (%s)" % (path, res.hash, "identical" if same else "DIFFERS from recorded %s" % d["hash"]))
        for v in vv:
            print("  %s: %s %s" % v)
    print(json.dumps(dict(hash=res.hash, kinds=sorted(set(v[0] for v in vv)))))
    return 1 if vv else 0


# ---------------------------------------------------------------- main ------
def check(pid, tier, seed):
    t0 = time.time()
    prop = load(pid)
    simlib.setup()
    if getattr(prop, "checked", False):
        simlib.B.build_checked()
    kf = known()
    n = prop.quick_n if tier == "quick" else prop.thorough_n
    cap = prop.quick_cap if tier == "quick" else prop.thorough_cap
    agg = dict(evaluations=0, runs=0, vtime=0.0, seams=0, steps=0, inj={}, status={}, hashes=set(), scheds=set(), states=set(), counters={}, errors=[], known={}, procs=0)
    samples = []
    bad = []
    accs = {}
    with ProcessPoolExecutor(NPROC, initializer=_init, initargs=(pid,)) as ex:
        pend = set()
        nxt = 0
        while True:
            while nxt < n and len(pend) < 2 * NPROC and time.time() - t0 < cap and not bad and len(agg["errors"]) < 3:
                pend.add(ex.submit(_work, seed, nxt, tier)); nxt += 1
            if not pend:
                break
            done, pend = wait(pend, return_when=FIRST_COMPLETED)
            for f in done:
                r = f.result()
                if "error" in r:
                    agg["errors"].append((r["i"], r["error"])); continue
                agg["runs"] += 1
                agg["vtime"] += r["vtime"]; agg["seams"] += r["seams"]; agg["steps"] += r["steps"]; agg["procs"] += r["procs"]
                for k, c in r["inj"].items():
                    agg["inj"][k] = agg["inj"].get(k, 0) + c
                for s in r["st"]:
                    agg["status"][s] = agg["status"].get(s, 0) + 1
                agg["hashes"].add(r["hash"])
                if r["nsw"] > 1:
                    agg["scheds"].add(r["sw"])
                agg["evaluations"] += r["info"].get("evals", 1)
                agg["states"].update(map(str, r["info"].get("states", [])))
                if prop.finish:
                    accs[r["i"]] = (r["info"].get("acc", {}), r["hash"])
                for k, c in r["info"].get("count", {}).items():
                    agg["counters"][k] = agg["counters"].get(k, 0) + c
                if r["i"] < 3:
                    p = r["plan"]
                    samples.append(dict(case=r["i"], phases=[[dict(kind=x["kind"], so=x["so"], argv=" ".join(x["argv"]), ops=x["ops"][:12]) for x in ph] for ph in p["phases"]][:4], faults=p["faults"][:6], sched=p["sched"][:80], heap=p["heap"], levels=p["levels"], status=r["st"], trace_hash=r["hash"]))
                real = []
                for v in r["viol"]:
                    k = match_known(pid, v, kf)
                    if k:
                        agg["known"].setdefault(k["id"], [k, 0]); agg["known"][k["id"]][1] += 1
                    else:
                        real.append(v)
                if real:
                    bad.append((r["i"], real, r["plan"], r["meta"], r["hash"]))
    rc = 0
    # a simulator-level error is retried once, serially; persistent errors make the check inconclusive
    for i, e in list(agg["errors"]):
        _init(pid)
        r = _work(seed, i, tier)
        if "error" in r:
            if not bad:
                print("ERROR case %d: %s" % (i, r["error"]))
                rc = 2
        else:
            real = [v for v in r["viol"] if not match_known(pid, v, kf)]
            if real:
                bad.append((i, real, r["plan"], r["meta"], r["hash"]))
    nviol = 0
    ens = prop.finish([accs[i][0] for i in sorted(accs)]) if prop.finish and not bad else []
    for v in ens:
        k = match_known(pid, (v.kind, v.msg, v.where), kf)
        if k:
            agg["known"].setdefault(k["id"], [k, 0]); agg["known"][k["id"]][1] = len(accs)
    ens = [v for v in ens if not match_known(pid, (v.kind, v.msg, v.where), kf)]
    if ens:
        rc = ensemble_violation(prop, seed, tier, accs, ens)
        nviol = len(ens) if rc == 1 else 0
    elif bad:
        bad.sort(key=lambda b: b[0])
        for i, real, pj, meta, h in bad[:6]:
            plan = simlib.Plan.from_json(pj)
            kinds = set(v[0] for v in real)
            # determinism gate: the same plan must give the same execution twice
            ok = True
            for _ in range(2):
                r, v, _x = eval_case(prop, plan, meta)
                if r.hash != h or not (kinds & set(x.kind for x in v)):
                    ok = False
                    print("ERROR: case %d of seed %d is not reproducible (hash %s vs %s): simulator bug, not reported as a violation" % (i, seed, h, r.hash))
                    break
            if ok:
                break
        if not ok:
            rc = 2
        else:
            mp, mm, tried = minimise(prop, plan, meta, kinds, 45 if tier == "quick" else 240)
            r, v, _x = eval_case(prop, mp, mm)
            vv = [(x.kind, x.msg, x.where) for x in v if not match_known(pid, (x.kind, x.msg, x.where), kf)]
            if not vv:      # minimisation drifted onto a listed finding
                mp, mm = plan, meta
                r, v, _x = eval_case(prop, mp, mm)
                vv = [(x.kind, x.msg, x.where) for x in v]
            path = write_replay(prop, seed, i, mp, mm, vv, r.hash)
            p = subprocess.run([sys.executable, os.path.join(VERIF, "py", "check.py"), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            last = p.stdout.decode().strip().splitlines()[-1] if p.stdout.strip() else ""
            try:
                d = json.loads(last)
                good = p.returncode == 1 and d["hash"] == r.hash
            except Exception:
                good = False
            if not good:
                print("ERROR: replay in a fresh process did not reproduce the violation\n" + p.stdout.decode()[-1500:])
                rc = 2
            else:
                rc = 1
                nviol = len(bad)
                for x in vv[:8]:
                    print("  [%s] %s %s" % x)
                print("  seed=%d case=%d minimised over %d candidate runs; faults=%d sched=%s" % (seed, i, tried, len(mp.faults), mp.sched[:60]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
    for k, (e, c) in sorted(agg["known"].items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (pid, e["what"], c))
    # determinism sample on clean runs: rerun case 0 and compare hashes
    wall = time.time() - t0
    det = None
    if rc == 0 and samples:
        _init(pid)
        r = _work(seed, samples[0]["case"], tier)
        det = r.get("hash") == samples[0]["trace_hash"]
        if not det:
            print("ERROR: case %d did not reproduce its own trace hash" % samples[0]["case"])
            rc = 2
    cov = dict(evaluations=agg["evaluations"], distinct_nontrivial=len(agg["states"]) if agg["states"] else len(agg["hashes"]), rule=prop.rule,
               samples=samples, simulated_runs=agg["runs"], simulated_processes=agg["procs"], runs_per_hour=int(agg["runs"] * 3600 / max(wall, 1e-3)),
               seeds_per_hour=int(agg["runs"] * 3600 / max(wall, 1e-3)),
               simulated_seconds=round(agg["vtime"], 3), seam_crossings=agg["seams"], instrumented_steps=agg["steps"], faults_injected=agg["inj"],
               distinct_traces=len(agg["hashes"]), distinct_interleavings=len(agg["scheds"]), process_outcomes=agg["status"], counters=agg["counters"],
               distinct_states_measure="states as described in rule; traces by hash of every seam crossing; interleavings by hash of the switch list",
               components_real=prop.real, components_stub=prop.stub, determinism_rerun_identical=det, known_findings={k: c for k, (e, c) in agg["known"].items()}, errors=len(agg["errors"]))
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.level, coverage=cov, assumptions=list(prop.assumptions), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d runs, %d evaluations, %d distinct, %.1fs, faults %s -> exit %d" % (pid, tier, seed, agg["runs"], cov["evaluations"], cov["distinct_nontrivial"], wall, json.dumps(agg["inj"]), rc))
    return rc
