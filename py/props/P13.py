"""Requests outside the supported reactions are refused with a failure status; supported ones are accepted."""
from .driver import *

ALLSF = set(O.SF)
ALLNF = set(O.NF)


def valid(z, e):
    return (e == 0 and z in ALLSF) or (z in ALLNF and 0 < e <= 20)


class P(Prop):
    id = "P13"
    quick_n = 900
    thorough_n = 12000
    rule = ("one case = one request (driver history, driver yields, MPI job, C++ library, C library, library yields; the library ones after a random number of valid events) that is invalid in one way (unknown nuclide, spontaneous/induced mismatch, energy outside (0,20], NaN, infinite, bad window, no events, missing data directory) or valid at the edge; "
            "a state is (entry point, defect kind, outcome)")
    assumptions = ("arguments are well-formed numbers",)

    def bad_reaction(self, rng):
        k = rng.choice(["unknown", "unknown", "neighbour", "sf-energy", "nf-zero", "high", "edge", "negative", "nan", "inf", "minus-zaid"])
        if k == "unknown":
            while True:
                z = rng.choice([rng.randrange(1, 110) * 1000 + rng.randrange(1, 280), rng.choice([92236, 94243, 95241, 90232, 92239, 98250, 96244, 0, 1, 92, -1, 2147483647])])
                if z not in ALLSF | ALLNF:
                    return k, z, rng.choice([0.0, 1.0, 14.0, 2.53e-8])
        if k == "neighbour":
            z = rng.choice(O.SF + O.NF) + rng.choice([1, -1, 2, -2, 1000, -1000])
            e = rng.choice([0.0, 1.0, 5.5])
            return (k, z, e) if not valid(z, e) else (k, 92236, e)
        if k == "sf-energy":
            return k, rng.choice(O.SF), rng.choice([2.53e-8, 1e-11, 1.0, 20.0, -1.0])
        if k == "nf-zero":
            return k, rng.choice(O.NF), 0.0
        if k == "high":
            return k, rng.choice(O.NF), rng.choice([20.5, 21.0, 50.0, 1e6, 1e300, 30.0])
        if k == "edge":
            return k, rng.choice(O.NF), rng.choice([math.nextafter(20.0, 30), 20.0001, 20.01, -5e-324, -1e-12])
        if k == "negative":
            return k, rng.choice(O.NF + O.SF), rng.choice([-1e-3, -1.0, -20.0, -1e9])
        if k == "nan":
            return k, rng.choice(O.NF + O.SF), float("nan")
        if k == "inf":
            return k, rng.choice(O.NF + O.SF), rng.choice([float("inf"), -float("inf")])
        if rng.random() < 0.5:
            return k, -rng.choice(O.SF), rng.choice([-1.0, -1e-3, 2.53e-8, 1.0, 20.0, 25.0, -30.0, float("nan")])
        return k, -rng.choice([z for z in O.NF if z not in ALLSF]), rng.choice([0.0, 1.0, 20.0, -1.0])

    def case(self, rng, i, tier):
        p = Plan(levels=rng.choice(["std", "gs", "empty"]))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        mode = rng.choice(["cli", "cli", "cliy", "mpi", "lib", "clib", "liby"])
        ok = rng.random() < 0.12
        env = {}
        d = "/data"
        t = rng.choice([None, -1.0, 1e-8])
        n = -rng.choice([1, 3]) if mode == "cliy" else rng.choice([1, 2])
        if ok:
            kind = "valid"
            z, e = rng.choice([(rng.choice(O.SF), 0.0), (rng.choice(O.NF), 20.0), (rng.choice(O.NF), 2.53e-8), (rng.choice(O.NF), 1e-11), (rng.choice(O.NF), math.nextafter(20.0, 0))])
            t = rng.choice([t, 0.0, 1e-15, 1e9])
        elif mode in ("cli", "cliy", "mpi") and rng.random() < 0.35:
            z, e = pick_reaction(rng)
            kind = rng.choice(["window", "window", "zero", "nodata", "none-n"])
            if kind == "window":
                t = rng.choice([-2.0, -1e-8, -0.5, -1.5, -1.25, -0.9999, -1.0000001, -1e9, -3.0, -math.inf])
            elif kind == "zero":
                n = 0
            elif kind == "nodata":
                d = rng.choice(["/nowhere", "/data/masses.dat", "/work", "relative/dir"])
        else:
            kind, z, e = self.bad_reaction(rng)
        R = 1
        nops = 0
        if mode in ("cli", "cliy", "mpi"):
            a = argv(z, e if math.isfinite(e) else str(e), n, None, "o", t, d, order=rng)
            if kind == "none-n":
                k = a.index("-n"); del a[k:k + 2]
            R = rng.choice([1, 2, 3]) if mode == "mpi" else 1
            for r in range(R):
                p.node("mpi" if mode == "mpi" else "main", so="mpi" if mode == "mpi" else "serial", argv=list(a), env=env, new_phase=(r == 0))
            p.sched = "random %d %g" % (rng.randrange(1, 10 ** 9), rng.choice([0.1, 0.6]))
        else:
            ops = ["path /data"]
            for _ in range(rng.choice([0, 0, 1, 2])):
                z2, e2 = pick_reaction(rng)
                if rng.random() < 0.5 and abs(z) in ALLSF | ALLNF:      # the same nuclide in a supported way first
                    z2 = abs(z)
                    e2 = 0.0 if z2 in ALLSF and (z2 not in ALLNF or rng.random() < 0.5) else rng.choice([2.53e-8, 5.5, 20.0])
                ops += ["rng %d" % rng.randrange(1, 10 ** 6), rng.choice(["event 0 %d %s 0 1e-8", "cevent %d %s 0 -1", "yields %d %s 2 y0"]) % (z2, num(e2))]
                nops += 1
            ops.append("rng %d" % rng.randrange(1, 10 ** 6))
            es = num(e) if math.isfinite(e) else str(e)
            ops.append({"lib": "event 1 %d %s 0 %s", "clib": "cevent %d %s 0 %s", "liby": "yields %d %s 2 yy"}[mode] % ((z, es) + ((num(t or 1e-8),) if mode != "liby" else ())))
            p.node("script", ops=ops)
        return p, dict(mode=mode, kind=kind, ok=ok, R=R, z=z, e=e if math.isfinite(e) else str(e), nops=nops)

    def judge(self, plan, m, res):
        where = "%s %s %s %s" % (m["mode"], m["kind"], m["z"], m["e"])
        st = ends(res, 0)
        out = []
        good = all(x[:2] == ("exit", 0) for x in st)
        done = len(res.events(0, 0))
        if any(x[0] in ("hang", "deadlock", "mpierr", "memerr", "signal") for x in st):
            out.append(V("outcome", "request ended %r %s" % (st, res.err.get((0, 0), "")[-160:]), where))
        elif m["ok"]:
            if not good:
                out.append(V("refused", "supported request refused: %r %s" % (st, res.err.get((0, 0), "")[-160:]), where))
        else:
            if good:
                out.append(V("accepted", "unsupported request accepted with exit status 0", where))
            elif any(x[:2] == ("exit", 0) for x in st):
                out.append(V("accepted", "some ranks report success for an unsupported request: %r" % (st,), where))
            if m["mode"] in ("lib", "clib", "liby") and done > m["nops"]:
                out.append(V("accepted", "library returned a result for an unsupported request", where))
            if m["mode"] in ("lib", "clib", "liby") and done < m["nops"]:
                out.append(V("outcome", "valid request before the invalid one failed: %r" % (st,), where))
            if any("THE END" in res.out.get((0, r), "") or "saved in file" in res.out.get((0, r), "") for r in range(m["R"])):
                out.append(V("accepted", "unsupported request printed results", where))
            for f, c in res.files.get(0, {}).items():
                if f.endswith("/y0") and m["nops"]:
                    continue
                if any(l and not l.startswith("#") for l in c.decode("latin1").splitlines()):
                    out.append(V("accepted", "unsupported request left data in %s: %r" % (f, c[:80]), where))
            if not res.err.get((0, 0), "").strip() and m["R"] == 1:
                out.append(V("mute", "request refused without any message on the error stream", where))
        return out, dict(evals=1, states=[(m["mode"], m["kind"], good)], count={"refused": int(not good), "accepted": int(good)})


PROP = P()
