"""Output faults: success is reported only for a complete output file."""
from .driver import *


class P(Prop):
    id = "P04"
    quick_n = 900
    thorough_n = 16000
    rule = ("one case = a fault-free run and the same run with output faults (open/write/close/fsync/rename errors, full disk, quota, short writes, missing directory), serial or MPI, history or yields mode; "
            "a state is (engine, mode, ranks, fault kind, outcome, faults fired)")
    real = "command line driver; about 1 case in 5 with the real physics library (all yields cases), the rest with a stand-in engine"
    stub = "operating system and disk, MPI; physics engine in the stub cases; discreteLevels.dat synthesised"
    assumptions = ("a job succeeded when every rank exits with status 0", "EINTR and short writes are legal results of a write call")

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        p.dirs = ["/work/sub"]
        mpi = rng.random() < 0.3
        so, stub = engine(rng, mpi, 0.8)
        R = rng.choice([2, 3]) if mpi else 1
        N = rng.choice([1, 2, 5, 19, 25, 50, 64, 100, 128, 200, 250] if not mpi else [1, 2, 5, 20, 60]) if stub else rng.choice([1, 2])
        z, e = pick_reaction(rng)
        yields = (not stub) and rng.random() < 0.7
        n = -rng.choice([1, 20, 120, 400]) if yields else N
        t = rng.choice([None, -1.0])
        f, stem = pick_file(rng)
        if yields and f is None:
            stem = "/work/yields.cgmf"
        fk = rng.choice(["open", "write", "write", "write", "close", "full", "full", "short", "short", "nodir", "mix"])
        if fk == "nodir":
            f, stem = "missing/dir/h", "/work/missing/dir/h"
        a = argv(z, e, n, None, f, t)
        for r in range(R):
            p.node("mpi" if mpi else "main", so=so, argv=list(a), new_phase=(r == 0))
        p.sched = "random %d %g" % (rng.randrange(1, 10 ** 9), rng.choice([0.1, 0.6]))
        base = stem.split("/")[-1]
        r = rng.randrange(R)
        pat = "%s.%d" % (base, r)
        E = lambda: rng.choice(["EIO", "ENOSPC", "EDQUOT", "EINTR", "EFBIG"])
        if fk == "open":
            p.fault(0, r, "open", pat, 1, 1, "err", rng.choice(["EACCES", "EROFS", "ENOSPC", "EMFILE", "EISDIR"]))
        elif fk == "write":
            er = E()
            p.fault(0, r, "write", pat, rng.choice([1, 1, 2, 3, 5, 9, rng.randrange(1, 40)]), rng.choice([1, 1, 2, 2 if er == "EINTR" else -1]), "err", er)
        elif fk == "close":
            p.fault(0, r, "close", pat, 1, 1, "err", rng.choice(["EIO", "ENOSPC", "EDQUOT"]))
        elif fk == "full":
            p.diskcap = rng.choice([0, 1, 30, 500, 3000, 4096, 5000, 9000, 20000, rng.randrange(1, 300000)])
        elif fk == "short":
            p.fault(0, r, "write", pat, rng.randrange(1, 4), -1, "short", rng.choice([1, 7, 100, 1000]))
        elif fk == "mix":
            p.fault(0, r, "write", pat, 1, -1, "short", rng.choice([100, 1000]))
            p.fault(0, r, "write", pat, rng.randrange(2, 12), 1, "err", E())
        # fault-free twin into another directory entry
        q = argv(z, e, n, None, "twin", t)
        for k in range(R):
            p.node("mpi" if mpi else "main", so=so, argv=list(q), new_phase=(k == 0))
        return p, dict(R=R, stem=stem, fk=fk, yields=yields, n=n, stub=stub, cap=p.diskcap)

    def execute(self, plan, meta):
        # the twin must not see the full disk: run it as its own simulation when a cap is set
        import simlib
        if plan.diskcap is None:
            self._twin = None
            return simlib.run(plan)
        q = plan.clone(); q.diskcap = None; q.faults = []; q.phases = [q.phases[1]]
        self._twin = simlib.run(q)
        b = plan.clone(); b.phases = [b.phases[0]]
        return simlib.run(b)

    def judge(self, plan, m, res):
        out = []
        tw, tp = (self._twin, 0) if self._twin is not None else (res, 1)
        where = "%s R=%d n=%d" % (m["fk"], m["R"], m["n"])
        if not jobs_ok(tw, tp):
            return [V("twin", "fault-free run ended %r" % (ends(tw, tp),), where)], {}
        nf = 1 if m["yields"] else m["R"]
        want = [text(tw, tp, "/work/twin.%d" % r) for r in range(nf)]
        got = [text(res, 0, "%s.%d" % (m["stem"], r)) for r in range(nf)]
        st = ends(res, 0)
        ok = jobs_ok(res, 0)
        fired = sum(f["fired"] for f in res.faults) + res.injected.get("diskfull", 0) + res.injected.get("diskfull-partial", 0) + (m["fk"] == "nodir")
        harmless = m["fk"] == "short"
        if any(x[0] in ("hang", "deadlock", "mpierr", "memerr") or (x[0] == "signal") for x in st):
            out.append(V("outcome", "run with an output fault ended %r" % (st,), where))
        if ok and got != want:
            r = [a == b for a, b in zip(got, want)].index(False)
            out.append(V("silent", "exit status 0 although the output file of rank %d is incomplete or wrong (%s of %d bytes) after fault %s" % (r, None if got[r] is None else len(got[r]), len(want[r]), res.injected or m["fk"]), where))
        if not ok and (harmless or not fired):
            out.append(V("spurious", "run failed (%r) although every write eventually succeeded" % (st,), where))
        if ok and m["fk"] == "close" and fired:
            out.append(V("close", "exit status 0 although closing the output file failed", where))
        return out, dict(evals=1, states=[(m["stub"], m["yields"], m["R"], m["fk"], ok, min(fired, 3))], count={"failed_runs": int(not ok), "succeeded_runs": int(ok)})


PROP = P()
