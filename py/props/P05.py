"""Data-file faults: a run that cannot read its nuclear data stops with a failure, it never reports other physics."""
from .driver import *

FILES = ["discreteLevels.dat", "kcksyst.dat", "masses.dat", "deformations.dat", "temperatures.dat", "ldp.dat", "anisotropy.dat", "preeq-scattering-params.dat",
         "rta.dat", "spinscalingmodel.dat", "preeq-params.dat", "multichancefission.dat", "yamodel.dat", "tkemodel.dat"]
NREADS = {"discreteLevels.dat": 217, "kcksyst.dat": 123, "masses.dat": 23, "deformations.dat": 66, "temperatures.dat": 37, "ldp.dat": 42, "anisotropy.dat": 7,
          "multichancefission.dat": 3, "tkemodel.dat": 4}


class P(Prop):
    id = "P05"
    quick_n = 330
    thorough_n = 6000
    rule = ("one case = a fault-free run and the same run with data-file faults (missing or unopenable file, descriptor exhaustion, read error at the n-th read, unreadable data directory, short reads), event, yields, library or MPI mode; "
            "a state is (mode, file, fault kind, position decile, outcome)")
    assumptions = ("short reads and interrupted reads are legal and harmless", "silent truncation of a data file (early end of file) is not claimed: the formats carry no end mark")

    def case(self, rng, i, tier):
        p = Plan(levels=rng.choice(["std", "icc", "gs"]))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        z, e = pick_reaction(rng)
        mode = rng.choice(["events", "events", "yields", "lib", "lib", "mpi"])
        s = rng.randrange(1, 10 ** 6)

        def add():
            if mode in ("events", "yields"):
                p.node("main", so="serial", argv=argv(z, e, 1 if mode == "events" else -3, s, "o", None))
            elif mode == "mpi":
                for r in range(2):
                    p.node("mpi", so="mpi", argv=argv(z, e, 1, s, "o", None), new_phase=(r == 0))
            else:
                z2, e2 = pick_reaction(rng) if rng.random() < 0.4 else (z, e)
                ops = ["path /data", "rng %d" % s, "event 0 %d %s 0 -1" % (z, num(e)), "rng %d" % (s + 1), "event 1 %d %s 0 1e-8" % (z2, num(e2))]
                if rng.random() < 0.3:
                    ops = ["path /data", "rng %d" % s, rng.choice(["cgm 0 54140 9.5 0", "cevent %d %s 0 -1" % (z, num(e)), "yields %d %s 4 yy" % (z, num(e))])]
                p.node("script", ops=ops)
        st = rng.getstate()
        add(); rng.setstate(st); add()
        p.sched = "random %d 0.2" % rng.randrange(1, 10 ** 6)
        f = FILES[i % len(FILES)] if rng.random() < 0.8 else rng.choice(FILES)
        path = "/data/" + f
        nd = "*" if mode != "mpi" else str(rng.randrange(2))
        fk = rng.choice(["open", "open", "read", "read", "read", "short", "eintr", "anyopen"])
        pos = 0
        if fk == "open":
            p.fault(1, nd, "open", path, rng.choice([1, 1, 2]) if f == "anisotropy.dat" else 1, rng.choice([1, -1]), "err", rng.choice(["ENOENT", "EACCES", "EMFILE", "EIO", "ENFILE"]))
        elif fk == "anyopen":
            f = "any"
            pos = rng.randrange(1, 16)
            p.fault(1, nd, "open", "/data/", pos, rng.choice([1, -1]), "err", rng.choice(["EMFILE", "EACCES", "ENOENT"]))
        elif fk == "read":
            n = NREADS.get(f, 3)
            pos = rng.randrange(1, n + 1)
            p.fault(1, nd, "read", path, pos, rng.choice([1, -1]), "err", "EIO")
            pos = pos * 10 // (n + 1)
        elif fk == "short":
            p.fault(1, nd, "read", path, rng.randrange(1, 4), rng.choice([3, 30, -1]), "short", rng.choice([1, 64, 1000]) if NREADS.get(f, 1) < 30 else rng.choice([200, 1000, 3000]))
        elif fk == "eintr":
            p.fault(1, nd, "read", path, rng.randrange(1, 4), rng.choice([1, 3]), "err", "EINTR")
        return p, dict(mode=mode, f=f, fk=fk, pos=pos, z=z, e=e)

    def out(self, res, ph, m):
        d = {k: v for k, v in res.files.get(ph, {}).items()}
        if m["mode"] == "lib":
            d["emit"] = res.emit.get((ph, 0), "")
        d["stdout"] = res.out.get((ph, 0), "")
        return d

    def judge(self, plan, m, res):
        where = "%s %s %s %d %g" % (m["mode"], m["fk"], m["f"], m["z"], m["e"])
        if not jobs_ok(res, 0):
            return [V("twin", "fault-free run ended %r" % (ends(res, 0),), where)], {}
        out = []
        st = ends(res, 1)
        ok = jobs_ok(res, 1)
        fired = sum(f["fired"] for f in res.faults)
        harmless = m["fk"] in ("short",)
        if any(x[0] in ("hang", "deadlock", "mpierr", "memerr") for x in st):
            out.append(V("outcome", "run with a data fault ended %r" % (st,), where))
        if any(x[0] == "signal" and x[1] != 6 for x in st):
            out.append(V("crash", "run with a data fault crashed: %r" % (st,), where))
        if ok:
            a, b = self.out(res, 0, m), self.out(res, 1, m)
            if a != b:
                k = [x for x in a if a.get(x) != b.get(x)]
                out.append(V("silent", "exit status 0 with different results (%s) after data fault %s on %s" % (k, res.injected, m["f"]), where))
        elif harmless or not fired:
            out.append(V("spurious", "run failed (%r) without a harmful fault" % (st,), where))
        return out, dict(evals=1, states=[(m["mode"], m["f"], m["fk"], m["pos"], ok, fired > 0)], count={"failed_runs": int(not ok), "fault_fired": int(fired > 0)})


PROP = P()
