"""A run changes no file but its own output; runs side by side in one directory do not disturb each other."""
from .driver import *


class P(Prop):
    id = "P19"
    quick_n = 260
    thorough_n = 9000
    rule = ("one case = one to four processes (driver histories, driver yields, MPI job, library programs, refused requests) side by side in one simulated directory full of bystander files with similar names, under a seeded scheduler, with write, open and disk-full faults and kills; "
            "a state is (kinds of the processes, fault kind, outcomes)")
    real = "command line driver and physics library"
    assumptions = ("the processes name different output files", "a finished run may leave no other new file; scratch files named after the output file and gone at the end would be accepted")

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        names = ["out", "out.1", "h.cgmf", "sub/out", "run-2", "histories.cgmf", "o.0"]
        rng.shuffle(names)
        kinds, exp, procs = [], [], []
        mpi = rng.random() < 0.2
        K = 1 if mpi else rng.choice([1, 2, 2, 3, 4])
        for k in range(K):
            kind = "mpi" if mpi else rng.choice(["hist", "hist", "hist", "yields", "lib", "liby", "bad"])
            z, e = pick_reaction(rng)
            f = names[k] if rng.random() < 0.85 else None
            stem = "/work/" + (f or ("yields.cgmf" if kind == "yields" else "histories.cgmf"))
            if any(stem in x["stem"] or x["stem"] in stem for x in procs):
                f = "p%d" % k; stem = "/work/p%d" % k
            t = rng.choice([None, -1.0, 1e-8])
            s = rng.choice([None, 1, rng.randrange(2, 10 ** 5)])
            R = rng.choice([2, 3]) if mpi else 1
            n = rng.choice([1, 2, 3, 30]) if kind in ("hist", "mpi") and rng.random() < 0.5 else rng.choice([1, 2])
            so, stub = engine(rng, mpi, 0.6) if kind in ("hist", "mpi") else ("serial", False)
            if not stub and n > 3:
                n = 3
            if stub and mpi and rng.random() < 0.25:
                R = rng.choice([10, 11, 12])
            if kind == "lib":
                ops = ["path /data", "rng %d" % rng.randrange(1, 10 ** 6), "event 0 %d %s 0 -1" % (z, num(e)), "cevent %d %s 0 1e-8" % (z, num(e)), "rng 7", "cgm 1 54140 9.5 0", "del 0", "cgmdel 1", "cclean", "cleanup"]
                procs.append(dict(kind=kind, stem="//", R=1, node=dict(kind="script", ops=ops[:rng.randrange(3, len(ops) + 1)])))
            elif kind == "liby":
                procs.append(dict(kind=kind, stem=stem, R=1, node=dict(kind="script", ops=["path /data", "rng %d" % rng.randrange(1, 10 ** 6), "yields %d %s %d %s" % (z, num(e), n, stem[6:])])))
            elif kind == "bad":
                procs.append(dict(kind=kind, stem=stem, R=1, node=dict(kind="main", argv=argv(rng.choice([92236, 1, 98252]), rng.choice([21.0, 1.0, -1.0]), rng.choice([n, -n]), s, f, rng.choice([t, -2.0])))))
            else:
                procs.append(dict(kind=kind, stem=stem, R=R, node=dict(kind="mpi" if mpi else "main", so=so, argv=argv(z, e, -n if kind == "yields" else n, s, f, t))))
            kinds.append(kind)
        for ph in range(1 + (K > 1)):
            first = True
            for pr in procs:
                for r in range(pr["R"]):
                    nd = pr["node"]
                    p.node(nd["kind"], so=nd.get("so", "serial"), argv=list(nd.get("argv", [])), ops=list(nd.get("ops", [])), new_phase=first)
                    first = False
            break
        if K > 1:                                  # each of them alone, afterwards, over what is left of its own output
            for pr in procs:
                nd = pr["node"]
                p.node(nd["kind"], so=nd.get("so", "serial"), argv=list(nd.get("argv", [])), ops=list(nd.get("ops", [])), new_phase=True)
        own = set("%s.%d" % (x["stem"], r) for x in procs for r in range(x["R"]) if x["kind"] != "liby") | set(x["stem"] for x in procs if x["kind"] == "liby")
        p.dirs = ["/work/sub"]
        by = {}
        for x in procs:
            if x["stem"] == "//":
                continue
            for b in (x["stem"], x["stem"] + ".1", x["stem"] + ".2", x["stem"] + ".3", x["stem"] + ".0~", x["stem"] + ".0.tmp", x["stem"] + ".0.bak", x["stem"][:-1], x["stem"] + ".00"):
                if b not in own and b not in ("/work/", "/work") and rng.random() < 0.6:
                    by[b] = rng.choice(["", "bystander\n", "# 98252 0 1e-08\n 108 42 1.0\n", "x" * 5000])
        for b in ("histories.cgmf", "yields.cgmf", "histories.cgmf.0", "yields.cgmf.0", "results.cgmf", "results.cgmf.0", "spectrum.out", "log", "vectors.dat", "scission.dat", "sub/histories.cgmf.0"):
            if "/work/" + b not in own and rng.random() < 0.5:
                by["/work/" + b] = rng.choice(["", "old\n", "y" * 300])
        p.files = dict(by)
        for o in own:
            if rng.random() < 0.3:
                p.files[o] = rng.choice(["", "leftover\n", "z" * rng.choice([50, 100000])])
        fk = rng.choice(["none", "none", "none", "kill", "write", "open", "full"])
        nn = len(p.phases[0])
        if fk == "kill":
            p.fault(0, rng.randrange(nn), "any", "-", rng.choice([1, 5, 30, 100, 300]), 1, "crash")
        elif fk == "write":
            p.fault(0, rng.randrange(nn), "write", "/work", rng.choice([1, 2, 3]), rng.choice([1, -1]), "err", rng.choice(["ENOSPC", "EIO"]))
        elif fk == "open":
            p.fault(0, rng.randrange(nn), "open", "/work", rng.randrange(1, 12), 1, "err", rng.choice(["EACCES", "EMFILE"]))
        elif fk == "full":
            p.diskcap = rng.choice([0, 100, 2000])
        p.sched = "random %d %g" % (rng.randrange(1, 10 ** 9), rng.choice([0.1, 0.5, 0.9]))
        return p, dict(kinds=kinds, fk=fk, by=by, own=sorted(own), procs=[dict(kind=x["kind"], stem=x["stem"], R=x["R"]) for x in procs])

    def judge(self, plan, m, res):
        where = "%s %s" % ("+".join(m["kinds"]), m["fk"])
        out = []
        n = 0
        own = set(m["own"])
        before = dict(plan.files)
        fin = res.files.get(0, {})
        sts = ends(res, 0)
        for f, c in sorted(m["by"].items()):
            n += 1
            g = fin.get(f)
            if g is None:
                out.append(V("removed", "file %s was removed" % f, where))
            elif g != c.encode("latin1"):
                out.append(V("changed", "file %s was changed: %r" % (f, g[:60]), where))
        left = sorted(f for f in fin if f not in before and f not in own)
        if left and all(x[0] == "exit" for x in sts):
            out.append(V("created", "new files besides the outputs: %s" % ", ".join(left[:5]), where))
        nid = 0
        alone = 1
        for k, pr in enumerate(m["procs"]):
            mine = set("%s.%d" % (pr["stem"], r) for r in range(pr["R"])) if pr["kind"] != "liby" else {pr["stem"]}
            if pr["kind"] == "lib":
                mine = set()
            for r in range(pr["R"]):
                t = res.touched.get((0, nid + r), set())
                bad = sorted(x for x in t if x not in mine and (x in before or x in own or not any(x.startswith(y) for y in mine)))
                n += 1
                if bad:
                    out.append(V("touched", "%s opened for writing or removed %s" % (pr["kind"], ", ".join(bad[:4])), where))
            if len(m["procs"]) > 1 and m["fk"] == "none":
                n += 1
                a, b = res.status(0, nid), res.status(alone, 0)
                if a != b:
                    out.append(V("disturbed", "%s ended %r beside other runs and %r alone" % (pr["kind"], a, b), where))
                elif res.out.get((0, nid)) != res.out.get((alone, 0)) or res.emit.get((0, nid)) != res.emit.get((alone, 0)):
                    out.append(V("disturbed", "%s gives other results beside other runs than alone" % pr["kind"], where))
                else:
                    for f in mine:
                        if fin.get(f) != res.files.get(alone, {}).get(f):
                            out.append(V("disturbed", "%s differs from the run alone" % f, where))
            nid += pr["R"]
            alone += 1
        return out, dict(evals=n, states=[(tuple(sorted(m["kinds"])), m["fk"], tuple(x[0] for x in sts))], count={"processes": nid, "bystanders": len(m["by"])})

    def shrink(self, plan, m):
        for f in sorted(m["by"]):
            q = plan.clone(); q.files.pop(f, None)
            b = dict(m["by"]); b.pop(f)
            yield q, dict(m, by=b)


PROP = P()
