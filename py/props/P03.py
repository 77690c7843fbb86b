"""Crash, rerun and resume: the event numbering makes histories restartable and splittable."""
from .driver import *


class P(Prop):
    id = "P03"
    quick_n = 560
    thorough_n = 12000
    rule = ("one case = an uninterrupted run, the same run killed at a random point (or torn mid-write), a rerun over its leftovers, a resume of the missing events with -s, and a split of the event range into random pieces; "
            "a state is (engine, mode, crash seam, complete events left, pieces)")
    real = "command line driver; about 1 case in 6 with the real physics library, the rest with a stand-in engine"
    stub = "operating system (crash, torn write, surviving file contents); physics engine in the stub cases; discreteLevels.dat synthesised"
    assumptions = ("a crash keeps every completed write call and loses user-space buffers", "the number of complete events in the surviving file is found by parsing it")

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        so, stub = engine(rng, False, 0.83)
        N = rng.choice([1, 2, 3, 7, 20, 60]) if stub else rng.choice([1, 2, 4, 6])
        if stub and rng.random() < 0.05:
            N = rng.choice([1000, 1203])
        z, e = pick_reaction(rng)
        s = rng.choice([1, 1, 2, 40, rng.randrange(1, 10 ** 6)])
        t = rng.choice([None, -1.0, 1e-8])
        yields = (not stub) and rng.random() < 0.3
        n = -N * 8 if yields else N
        a = argv(z, e, n, s, "f", t)
        p.node("main", so=so, argv=argv(z, e, n, s, "ref", t))                       # 0 reference
        if rng.random() < 0.3:                                                         # leftovers of something longer
            p.files["/work/f.0"] = "# leftover of an older run\n" + "stale line\n" * rng.randrange(1, 4000)
        p.node("main", so=so, argv=list(a))                                           # 1 interrupted
        big = 60 if N >= 1000 else (12 if stub else 30)
        seam, act = rng.choice([("write", "crash"), ("write", "torn"), ("write", "torn"), ("any", "crash"), ("any", "crash"), ("close", "crash"), ("exit", "crash"), ("stdout", "crash")])
        path = "f.0" if seam in ("write", "close") else "-"
        nth = rng.randrange(1, big) if seam in ("write", "any") else 1
        if seam == "write" and not stub:
            nth = rng.randrange(1, 6)
        p.fault(1, 0, seam, path, nth, 1, act, str(rng.randrange(0, 5000)) if act == "torn" else "")
        p.node("main", so=so, argv=list(a))                                           # 2 rerun over the leftovers
        cuts = []
        if not yields:
            k, left, first = 0, N, s
            while left > 0 and len(cuts) < 4:
                c = left if len(cuts) == 3 else rng.randrange(1, left + 1)
                cuts.append(c)
                p.node("main", so=so, argv=argv(z, e, c, first, "p%d" % len(cuts), t))   # 3.. pieces
                left -= c; first += c
        return p, dict(N=N, yields=yields, s=s, t=t, stub=stub, cuts=cuts, z=z, e=e, so=so)

    def execute(self, plan, meta):
        import simlib
        r = simlib.run(plan)
        # the resume run depends on what survived the crash: it is a further simulated run
        meta = meta
        self._resume = None
        if not meta["yields"]:
            left = text(r, 1, "/work/f.0")
            if r.status(1, 0)[0] == "crash" and left is not None:
                ages = meta["t"] is not None and meta["t"] < 0
                try:
                    hd, evs, used = parse_history(left, ages)
                except Bad:
                    evs = None
                    hd = None
                if evs is not None and hd is not None and 0 < len(evs) < meta["N"] and (meta["N"] <= 100):
                    q = Plan(levels=plan.levels); q.heap = plan.heap; q.clock = plan.clock
                    q.node("main", so=meta["so"], argv=argv(meta["z"], meta["e"], meta["N"] - len(evs), meta["s"] + len(evs), "r", meta["t"]))
                    self._resume = (evs, simlib.run(q))
        return r

    def judge(self, plan, m, res):
        out = []
        ages = m["t"] is not None and m["t"] < 0
        where = "N=%d s=%d %s" % (m["N"], m["s"], "yields" if m["yields"] else "events")
        if res.status(0, 0)[:2] != ("exit", 0):
            return [V("reference", "uninterrupted run ended %r %s" % (res.status(0, 0), res.err.get((0, 0), "")[-200:]), where)], {}
        ref = text(res, 0, "/work/ref.0")
        st = res.status(1, 0)
        left = text(res, 1, "/work/f.0")
        opened = any(True for _ in [0]) and left is not None and not left.startswith("# leftover")
        if st[0] == "crash":
            if opened and not ref.startswith(left):
                out.append(V("prefix", "file left by the killed run is not a prefix of the complete file (%d bytes)" % len(left), where))
        elif st[:2] == ("exit", 0):
            if left != ref:
                out.append(V("rerun", "run over existing leftovers differs from the run into a new file", where))
        else:
            out.append(V("outcome", "run ended %r" % (st,), where))
        if res.status(2, 0)[:2] != ("exit", 0):
            out.append(V("rerun", "rerun after the crash ended %r" % (res.status(2, 0),), where))
        elif text(res, 2, "/work/f.0") != ref:
            out.append(V("rerun", "rerun after the crash differs from the uninterrupted run", where))
        if res.out.get((2, 0), "").replace("f.0", "ref.0") != res.out.get((0, 0), ""):
            out.append(V("rerun", "rerun printed something else than the uninterrupted run", where))
        n = 2
        k = -1
        if not m["yields"]:
            try:
                hd, evs, used = parse_history(ref, ages)
            except Bad as x:
                return out + [V("format", "history unreadable: %s" % x, where)], {}
            if len(evs) != m["N"] or used != len(ref):
                out.append(V("count", "%d events written, %d requested" % (len(evs), m["N"]), where))
            first = 0
            for j, c in enumerate(m["cuts"]):
                t = text(res, 3 + j, "/work/p%d.0" % (j + 1))
                exp = ref[:ref.index("\n") + 1] + event_text(evs[first:first + c])
                if t != exp:
                    out.append(V("split", "events %d..%d run on their own with -s %d differ from those of the whole run" % (first + 1, first + c, m["s"] + first), where))
                first += c
                n += 1
            if self._resume is not None:
                sev, r2 = self._resume
                k = len(sev)
                n += 1
                t = text(r2, 0, "/work/r.0")
                if t is None or event_text(sev) + t[t.index("\n") + 1:] != event_text(evs):
                    out.append(V("resume", "%d events of the killed run plus a resume with -s %d differ from the uninterrupted run" % (k, m["s"] + k), where))
        f = plan.faults[0] if plan.faults else {}
        return out, dict(evals=n, states=[(m["stub"], m["yields"], f.get("seam"), f.get("act"), st[0], k, len(m["cuts"]))], count={"crashes": int(st[0] == "crash"), "resumes": int(self._resume is not None)})


PROP = P()
