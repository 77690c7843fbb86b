"""Allocation failure is fail-stop: a run that could not get its memory never reports success with other results."""
from .driver import *


class P(Prop):
    id = "P14"
    quick_n = 360
    thorough_n = 9000
    rule = ("one case = a run (driver history, driver yields, MPI job, C++ library, C library) and the same run with allocation failures at random points: single, in bursts or from some point on, of any block, of large blocks only or of one call site; "
            "a state is (mode, size class or call site, magnitude of the position, persistent, outcome)")
    assumptions = ("operator new and malloc fail as the allocator decides; allocations inside the C library's stdio are not failed",)

    def case(self, rng, i, tier):
        p = Plan(levels=rng.choice(["std", "icc", "gs"]))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        mode = rng.choice(["events", "events", "yields", "lib", "lib", "clib", "mpi", "drv"])
        import simlib
        if mode == "drv" and not simlib.setup()["stub"]:
            mode = "events"
        z, e = pick_reaction(rng)
        s = rng.randrange(1, 10 ** 6)

        def add():
            if mode in ("events", "yields"):
                p.node("main", argv=argv(z, e, 2 if mode == "events" else -5, s, "o", -1.0))
            elif mode == "drv":
                p.node("main", so="stub_ser", argv=argv(z, e, 20, s, "o", -1.0))
            elif mode == "mpi":
                for r in range(2):
                    p.node("mpi", so="mpi", argv=argv(z, e, 1, s, "o", None), new_phase=(r == 0))
            elif mode == "lib":
                p.node("script", ops=["path /data", "rng %d" % s, "event 0 %d %s 0 -1" % (z, num(e)), "rng %d" % (s + 1), "event 1 %d %s 0 1e-8" % (z, num(e)), "del 0", "rng 5", "cgm 2 54140 9.5 0", "dump 1"])
            else:
                p.node("script", ops=["path /data", "rng %d" % s, "cevent %d %s 0 -1" % (z, num(e)), "cclean", "rng %d" % s, "cevent %d %s 0 1e-8" % (z, num(e)), "yields %d %s 3 yy" % (z, num(e))])
        add(); add()
        p.sched = "random %d 0.2" % rng.randrange(1, 10 ** 6)
        site = "-"
        size = rng.choice([0, 0, 0, 64, 200, 1000, 1000, 5000, 20000])
        top = {0: 500000, 64: 230000, 200: 175000, 1000: 42000, 5000: 300, 20000: 120}[size]
        if mode == "drv":
            top = min(top, 5000)
        if rng.random() < 0.65:        # one call site of the allocator, in the order of first use
            size = 0
            site = "site:%d" % rng.randrange(1, {"drv": 28, "yields": 70}.get(mode, 108))
            top = rng.choice([1, 1, 3, 40, 3000])
        r = rng.random()
        nth = 1 + int(10 ** rng.uniform(0, math.log10(top)))
        if r < 0.4 or top < 4:
            nth = rng.randrange(1, top + 1)
        nd = "*" if mode != "mpi" else str(rng.randrange(2))
        p.fault(1, nd, "alloc", site, nth, rng.choice([1, 1, 2, 20, -1]), "fail", str(size))
        return p, dict(mode=mode, z=z, e=e, size=size)

    def out(self, res, ph, m):
        d = {k: v for k, v in res.files.get(ph, {}).items()}
        for (a, b), v in res.emit.items():
            if a == ph:
                d["emit%d" % b] = v
        for (a, b), v in res.out.items():
            if a == ph:
                d["stdout%d" % b] = v
        return d

    def judge(self, plan, m, res):
        where = "%s size>=%d %d %g" % (m["mode"], m["size"], m["z"], m["e"])
        if not jobs_ok(res, 0):
            return [V("twin", "fault-free run ended %r %s" % (ends(res, 0), res.err.get((0, 0), "")[-160:]), where)], {}
        out = []
        st = ends(res, 1)
        ok = jobs_ok(res, 1)
        fired = sum(f["fired"] for f in res.faults)
        if any(x[0] in ("hang", "deadlock", "mpierr", "memerr") for x in st):
            out.append(V("outcome", "run with a failed allocation ended %r" % (st,), where))
        if any(x[0] == "signal" and x[1] != 6 for x in st):
            out.append(V("crash", "run with a failed allocation crashed: %r" % (st,), where))
        if ok:
            a, b = self.out(res, 0, m), self.out(res, 1, m)
            if a != b:
                k = [x for x in set(a) | set(b) if a.get(x) != b.get(x)]
                out.append(V("silent", "exit status 0 with different results (%s) after %d failed allocations" % (k, fired), where))
        elif not fired:
            out.append(V("spurious", "run failed (%r) without a failed allocation" % (st,), where))
        f = plan.faults[0] if plan.faults else dict(nth=0, count=0)
        return out, dict(evals=1, states=[(m["mode"], m["size"] or (plan.faults[0]["path"] if plan.faults else ""), len(str(f["nth"])), f["count"] < 0, ok, fired > 0)], count={"failed_runs": int(not ok), "fault_fired": int(fired > 0), "survived": int(ok and fired > 0), "by_call_site": int(bool(plan.faults) and plan.faults[0]["path"] != "-")})


PROP = P()
