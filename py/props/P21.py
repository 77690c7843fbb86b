"""Every event number has a random stream of its own."""
from .driver import *

STEPS = [1, 1, 2, 3, 10, 100, 255, 256, 257, 999, 1000, 1024, 4096, 10000, 32767, 32768, 65535, 65536, 65537, 100000, 10 ** 6, 2 ** 20, 2 ** 24, 10 ** 7, 2 ** 30, 10 ** 9]


class P(Prop):
    id = "P21"
    quick_n = 500
    thorough_n = 15000
    rule = ("one case = several runs of the driver (serial and MPI jobs under a random schedule, history or yields mode) of one reaction whose event numbers are apart by small, round or power-of-two distances or overlap, among them huge jobs (up to 5 ranks of 10^8 events) killed after the first events of each rank; "
            "no two event numbers may give the same event or share a random number, equal numbers must give the same event; a state is (mode, engine, ranks, distances between the starting numbers)")
    real = "command line driver (serial and MPI); physics library in about 1 case in 8"
    stub = "operating system, MPI library; physics engine in the stub cases (an event then reports its first random numbers); discreteLevels.dat synthesised"
    assumptions = ("two independent events, or two 53-bit random numbers, agree by chance with negligible probability",)

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 9)
        z, e = pick_reaction(rng)
        so, stub = engine(rng, False, 0.88)
        t = rng.choice([None, -1.0])
        yields = not stub and rng.random() < 0.4
        jobs = []
        base = rng.choice([1, 1, 1, 2, rng.randrange(1, 10 ** 6), rng.randrange(1, 2 ** 30)])
        k = rng.choice([2, 3, 4, 5]) if stub else 2
        kill = []
        big = stub and rng.random() < 0.35       # a huge job of which only the first events of each rank are seen before it is killed
        for j in range(k):
            if big and j == 0:
                R = rng.choice([1, 2, 3, 5])
                N = rng.choice([32768, 65536, 70000, 99999, 10 ** 6, 2 ** 24, 10 ** 8])
                s = min(base, 2 ** 31 - 10 - R * N)
                a = argv(z, e, N, s, "j0", t, order=rng)
                for r in range(R):
                    p.node("mpi" if R > 1 else "main", so=so.replace("ser", "mpi") if R > 1 else so, argv=list(a), new_phase=(r == 0))
                    kill.append(rng.randrange(2, 7))
                jobs.append((s, N, R))
                continue
            if big and j < 3:
                s, N, R = jobs[0][0] + rng.randrange(jobs[0][2]) * jobs[0][1], rng.choice([3, 12, 40]), 1
                p.node("main", so=so, argv=argv(z, e, N, s, "j%d" % j, t, order=rng))
                jobs.append((s, N, R))
                continue
            s = base if j == 0 else base + rng.choice(STEPS)
            if stub and rng.random() < 0.3 and j:
                s = max(1, jobs[-1][0] + rng.choice([-3, -1, 1, 2, jobs[-1][1], jobs[-1][1] * jobs[-1][2]]))
            s = min(s, 2 ** 31 - 5000)
            R = rng.choice([1, 1, 1, 2, 3, 4, 6]) if stub else 1
            N = rng.choice([1, 2, 3, 5, 12, 40, 100, 300, 1000] if R == 1 else [1, 2, 3, 5, 12, 40]) if stub else rng.choice([1, 2])
            omit = s == 1 and rng.random() < 0.5
            a = argv(z, e, -N if yields else N, None if omit else s, "j%d" % j, t, order=rng)
            if R > 1:
                for _ in range(rng.randrange(0, 3)):
                    p.fault(j, rng.randrange(R), rng.choice(["any", "write", "mpi", "open"]), "-", rng.randrange(1, 60), rng.choice([1, 3]), "stall", rng.randrange(1, 400))
                for r in range(R):
                    p.node("mpi", so=so.replace("ser", "mpi"), argv=list(a), new_phase=(r == 0))
            else:
                p.node("main", so=so, argv=a)
            jobs.append((s, N, R))
        p.sched = "random %d %g" % (rng.randrange(1, 10 ** 9), rng.choice([0.05, 0.5]))
        p.eager = rng.choice([0.0, 1.0])
        return p, dict(jobs=jobs, stub=stub, yields=yields, ages=t is not None, z=z, e=e, big=bool(big), kill=kill)

    def execute(self, plan, m):
        if m.get("kill"):       # not a part of the plan that the minimiser may drop: the job would run for ever
            plan = plan.clone()
            for r, k in enumerate(m["kill"]):
                plan.fault(0, r, "write", "-", k, 1, "crash")
        return super().execute(plan, m)

    def judge(self, plan, m, res):
        out = []
        seen = {}       # event number -> (text, draws, where)
        n = 0
        for j, (s, N, R) in enumerate(m["jobs"]):
            where = "run %d of %d %g: -s %d -n %d, %d ranks" % (j, m["z"], m["e"], s, N, R)
            if j == 0 and m.get("big"):
                for r in range(R):
                    for k, x in enumerate(y for y in res.events(j, r) if y.get("k") == "stub"):
                        n += 1
                        seen[s + r * N + k] = (None, x["draws"], where)
                continue
            if not jobs_ok(res, j):
                out.append(V("run", "run ended %r %s" % (ends(res, j), res.err.get((j, 0), "")[-160:]), where)); continue
            for r in range(R):
                tx = text(res, j, "/work/j%d.%d" % (j, r)) or ""
                if m["yields"]:
                    l = tx.splitlines()
                    evs = ["".join(l)]; num0 = ("y", s, N)
                    nums = [num0]
                else:
                    try:
                        hd, ev, used = parse_history(tx, m["ages"], header=(r == 0))
                    except Bad as x:
                        out.append(V("format", "history unreadable: %s" % x, where)); continue
                    evs = [x["raw"] for x in ev]
                    nums = [s + r * N + k for k in range(len(evs))]
                    if len(evs) != N:
                        out.append(V("count", "%d events instead of %d" % (len(evs), N), where)); continue
                dr = [x["draws"] for x in res.events(j, r) if x.get("k") == "stub"] if m["stub"] else [None] * len(evs)
                if len(dr) != len(evs):
                    dr = [None] * len(evs)
                for a, b, d in zip(nums, evs, dr):
                    n += 1
                    if a in seen:
                        if seen[a][0] is None:
                            if d is not None and seen[a][1] != d:
                                out.append(V("number", "event number %s has other random numbers in %s than in %s" % (a, seen[a][2], where), where))
                        elif seen[a][0] != b:
                            out.append(V("number", "event number %s differs between %s and %s" % (a, seen[a][2], where), where))
                    else:
                        seen[a] = (b, d, where)
        byt, byd = {}, {}
        for a, (b, d, where) in seen.items():
            if b is not None and b in byt and byt[b] != a:
                out.append(V("repeated", "event numbers %s and %s give the same event" % (byt[b], a), where))
            byt[b] = a
            for x in d or ():
                if x in byd:
                    out.append(V("shared", "event numbers %s and %s share random numbers" % (byd[x], a), where))
                    break
            for x in d or ():
                byd[x] = a
        b0 = m["jobs"][0][0]
        return out[:8], dict(evals=n, states=[(m["yields"], m["stub"], tuple(x[2] for x in m["jobs"]), tuple(x[0] - b0 for x in m["jobs"]))], count={"events": n, "distinct_numbers": len(seen)})

    def shrink(self, plan, m):
        if len(m["jobs"]) > 2 and not m.get("big"):
            for j in range(len(m["jobs"])):
                q = plan.clone(); mm = dict(m); mm["jobs"] = m["jobs"][:j] + m["jobs"][j + 1:]
                del q.phases[j]; q.faults = []
                for k, ph in enumerate(q.phases):
                    for nd in ph:
                        nd["argv"] = [("j%d" % k if x.startswith("j") else x) for x in nd["argv"]]
                yield q, mm


PROP = P()
