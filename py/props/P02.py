"""Parallel run == serial run, for every schedule."""
from .driver import *


class P(Prop):
    id = "P02"
    quick_n = 800
    thorough_n = 12000
    rule = ("one case = one MPI job (1-16 ranks, random scheduler, stalls, optional rank crash or delayed start) plus the serial run of the same events; "
            "a state is (ranks, events per rank, engine, fault kind, outcome)")
    real = "command line driver built with MPIRUN, all ranks in one simulated job; about 1 case in 7 with the real physics library, the rest with a stand-in engine"
    stub = "MPI library and launcher, operating system; physics engine in the stub_* cases; discreteLevels.dat synthesised"
    assumptions = ("MPI reductions may combine contributions in any order, so averages agree to the last printed digit (0.01)", "a launcher ends the job when a rank dies before MPI_Finalize")

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        p.dirs = ["/work/sub"]
        so, stub = engine(rng, True)
        if stub:
            R = rng.choice([1, 2, 2, 3, 3, 4, 5, 6]) if rng.random() < 0.92 else rng.choice([10, 11, 12, 16])
            N = rng.choice([1, 1, 2, 3, 5, 9, 30]) if rng.random() < 0.93 else rng.choice([1000, 1037])
            if N >= 1000:
                R = min(R, 2)
            if R >= 10:
                N = min(N, 3)
        else:
            R = rng.choice([2, 3]); N = rng.choice([1, 2])
        yields = rng.random() < 0.08 and not stub
        z, e = pick_reaction(rng)
        s = rng.choice([None, 1, 2, 17, 1000, rng.randrange(1, 2000000)])
        t = rng.choice([None, -1.0, 1e-8, 1e-6])
        f, stem = pick_file(rng)
        n = -N * 3 if yields else N
        if yields and f is None:
            stem = "/work/yields.cgmf"
        a = argv(z, e, n, s, f, t)
        for r in range(R):
            p.node("mpi", so=so, argv=list(a), new_phase=(r == 0))
        p.sched = "random %d %g" % (rng.randrange(1, 10 ** 9), rng.choice([0.02, 0.15, 0.5, 0.9]))
        p.eager = rng.choice([0.0, 0.3, 0.7, 1.0])
        fk = rng.choice(["none", "none", "stall", "crash", "crash"]) if R > 1 else "none"
        if fk == "stall":
            for _ in range(rng.randrange(1, 4)):
                p.fault(0, rng.randrange(R), rng.choice(["any", "write", "mpi", "open"]), "-", rng.randrange(1, 60), rng.choice([1, 3]), "stall", rng.randrange(1, 400))
        elif fk == "crash":
            p.fault(0, rng.randrange(R), rng.choice(["any", "any", "write", "mpi", "close"]), "-", rng.randrange(1, rng.choice([6, 40, 120])), 1, "crash")
        p.node("main", so=serial_of(so), argv=argv(z, e, n * (1 if yields else R), s, "ser", t))
        return p, dict(R=R, N=N, yields=yields, stem=stem, t=t, stub=stub, fk=fk)

    def judge(self, plan, m, res):
        out = []
        R, N = m["R"], m["N"]
        ages = m["t"] is not None and m["t"] < 0
        st = ends(res, 0)
        if res.status(1, 0)[:2] != ("exit", 0):
            return [V("serial", "serial run ended %r" % (res.status(1, 0),))], {}
        want = text(res, 1, "/work/ser.0")
        crashed = any(x[0] == "crash" for x in st)
        where = "R=%d N=%d %s" % (R, N, m["fk"])
        count = {"events": R * N, "rank_crashes": int(crashed)}
        states = [(R, N, m["stub"], m["fk"], tuple(sorted(set(x[0] for x in st))))]
        if res.mpimisuse:
            out.append(V("mpi", "MPI misuse: %s" % res.mpimisuse, where))
        if not crashed and not jobs_ok(res, 0):
            out.append(V("outcome", "job without a crash ended %r %s" % (st, res.err.get((0, 0), "")[-200:]), where))
            return out, dict(evals=1, states=states, count=count)
        files = [text(res, 0, "%s.%d" % (m["stem"], r)) for r in range(R)]
        extra = [x for x in res.files.get(0, {}) if x not in ["%s.%d" % (m["stem"], r) for r in range(R)]]
        if extra:
            out.append(V("files", "unexpected output files %s" % extra, where))
        if m["yields"]:
            if not crashed and files[0] != want:
                out.append(V("yields", "yields file of the parallel run differs from the serial one", where))
            if any(x is not None for x in files[1:]):
                out.append(V("yields", "ranks other than 0 wrote a yields file", where))
            return out, dict(evals=1, states=states, count=count)
        try:
            hd, evs, used = parse_history(want, ages)
        except Bad as x:
            return out + [V("format", "serial history unreadable: %s" % x, where)], {}
        if len(evs) != R * N or used != len(want):
            return out + [V("serial", "serial run wrote %d events, expected %d" % (len(evs), R * N), where)], {}
        head = want[:want.index("\n") + 1]
        for r in range(R):
            exp = (head if r == 0 else "") + event_text(evs[r * N:(r + 1) * N])
            if crashed and st[r][0] != "exit":
                if files[r] is not None and not exp.startswith(files[r]):
                    out.append(V("prefix", "history of rank %d in the interrupted job is not a prefix of its complete history" % r, where))
            elif crashed and files[r] is None:
                out.append(V("rank", "rank %d finished without a history file" % r, where))
            elif files[r] != exp:
                k = next((j for j in range(min(len(files[r] or ""), len(exp))) if files[r][j] != exp[j]), -1)
                out.append(V("rank", "history of rank %d is not events %d..%d of the serial run (first difference at byte %d: %r vs %r)" % (r, r * N + 1, (r + 1) * N, k, (files[r] or "")[max(0, k - 20):k + 30], exp[max(0, k - 20):k + 30]), where))
        ref = parse_summary(res.out[(1, 0)])
        got = parse_summary(res.out[(0, 0)])
        if ref is None:
            out.append(V("summary", "serial run printed no complete summary", where))
        elif got is None:
            if st[0][:2] == ("exit", 0):
                out.append(V("summary", "rank 0 finished without a complete summary", where))
        else:
            d = summary_diff(got, ref, 0.0101)
            if d:
                out.append(V("summary", "summary of the parallel run differs from the serial one: %s" % "; ".join(d[:5]), where))
        for r in range(1, R):
            if "CGMF Results" in res.out.get((0, r), ""):
                out.append(V("summary", "rank %d printed a summary too" % r, where))
        return out, dict(evals=R + 1, states=states, count=count)

    def shrink(self, plan, m):
        if m["R"] > 2 and not plan.faults:
            q = plan.clone()
            q.phases[0].pop()
            mm = dict(m); mm["R"] = m["R"] - 1
            a = q.phases[1][0]["argv"]
            k = a.index("-n")
            if not m["yields"]:
                a[k + 1] = str(m["N"] * mm["R"])
            yield q, mm
        if m["N"] > 1 and not m["yields"]:
            for nn in sorted(set([1, m["N"] // 2, m["N"] - 1])):
                if 0 < nn < m["N"]:
                    q = plan.clone(); mm = dict(m); mm["N"] = nn
                    for nd in q.phases[0]:
                        nd["argv"][nd["argv"].index("-n") + 1] = str(nn)
                    a = q.phases[1][0]["argv"]; a[a.index("-n") + 1] = str(nn * m["R"])
                    yield q, mm


PROP = P()
