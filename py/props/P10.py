"""The time-coincidence window keeps exactly the photons emitted within it."""
from .physics import *

WIN = [1e-12, 1e-11, 1e-10, 1e-9, 3e-9, 1e-8, 3e-8, 1e-7, 1e-6, 1e-5, 1e-3, 1.0]


class P(Prop):
    id = "P10"
    quick_n = 220
    thorough_n = 6000
    rule = ("one case = one process in which the same events (reaction and random stream) are generated with unlimited and finite windows in random order, with different emission times and in between other events; "
            "every windowed event is compared with its unlimited twin; a state is (target, window, level scheme, light photons cut, heavy photons cut)")
    assumptions = ("the level scheme is synthesised with half-lives from 0.1 ps to 1 ms",)

    def case(self, rng, i, tier):
        p = Plan(levels=rng.choice(["std", "std", "std", "icc", "gs"]))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        jobs = []
        for _ in range(3):
            z, e = pick_reaction(rng)
            s, o = rng.randrange(1, 10 ** 6), ""
            if rng.random() < 0.25:
                z, e, s, o = rare(rng)
            s = "%d limit 400000%s" % (s, o)
            jobs.append((s, z, e, 0.0, rng.choice([-1.0, -1.0, 0.0, -5.0])))
            for _ in range(3):
                w = rng.choice(WIN) if rng.random() < 0.7 else 10 ** rng.uniform(-12, -2)
                jobs.append((s, z, e, rng.choice([0.0, 0.0, 1e-8, 2.5]), w))
        rng.shuffle(jobs)
        ops = ["path /data"]
        n = 0
        for s, z, e, t, w in jobs:
            if rng.random() < 0.1:
                ops += ["rng %d" % rng.randrange(1, 10 ** 6), "cgm 9 %d %s 0" % (rng.choice([40100, 54140, 56144]), num(rng.uniform(3, 18))), "cgmdel 9"]
            ops.append("rng %s" % s)
            if rng.random() < 0.15:
                ops.append("cevent %d %s %s %s" % (z, num(e), num(t), num(w)))
            else:
                ops += ["event %d %d %s %s %s" % (n, z, num(e), num(t), num(w)), "del %d" % n]
        p.node("script", ops=ops)
        return p, {}

    def judge(self, plan, meta, res):
        out, states, n = [], [], 0
        ops = plan.phases[0][0]["ops"]
        st = res.status(0, 0)
        if st[:2] != ("exit", 0):
            out.append(V("run", "process ended %r %s" % (st, res.err.get((0, 0), "")[-200:])))
        evs = []
        for x in res.events(0, 0):
            if "ev" not in x:
                continue
            op = ops[x["op"]].split()
            a = op[2:] if op[0] == "event" else op[1:]
            evs.append((ops[x["op"] - 1], int(a[0]), float(a[1]), float(a[2]), float(a[3]), x["ev"], x["op"]))
        ref = {(s, z, e): ev for s, z, e, t, w, ev, k in evs if w <= 0}
        cut = [0, 0]
        for s, z, e, t, w, ev, k in evs:
            where = "%d %g window %g levels %s" % (z, e, w, plan.levels)
            bad = lambda m: out.append(V("window", m + "  [%s | %s | levels %s]" % (ops[k - 1], ops[k], plan.levels), where))
            if not O.finite_all(ev):
                bad("non-finite value in the event"); continue
            gt = [x - t for x in ev["gt"]]
            tol = 1e-15 + 4e-16 * abs(t)
            nl = ev["L"]["nug"]
            parts = {"L": slice(0, nl), "H": slice(nl, ev["ng"])}
            for f, sl in parts.items():
                g = gt[sl]
                if any(x < -tol for x in g):
                    bad("photon emitted before the fission: ages %r" % g)
                if any(b < a - 2 * tol for a, b in zip(g, g[1:])):
                    bad("photon ages of fragment %s decrease: %r" % (f, g))
                if w > 0 and any(x > w + tol for x in g):
                    bad("photon older than the window %g: %r" % (w, g))
            r = ref.get((s, z, e))
            if w <= 0 or r is None:
                continue
            n += 1
            d = None
            for f, sl in parts.items():
                F, R = ev[f], r[f]
                if any(F[q] != R[q] for q in ("A", "Z", "U", "J", "P", "KE", "pre")) or ev["np"] != r["np"]:
                    bad("the window changed the initial fragment %s" % f); break
                rsl = slice(0, r["L"]["nug"]) if f == "L" else slice(r["L"]["nug"], r["ng"])
                nsl, nrs = (slice(0, F["nu"]), slice(0, R["nu"])) if f == "L" else (slice(ev["L"]["nu"], None), slice(r["L"]["nu"], None))
                if ev["cE"][nsl] != r["cE"][nrs]:
                    bad("the window changed the neutrons of fragment %s: %r instead of %r" % (f, ev["cE"][nsl], r["cE"][nrs])); break
                a, b = gt[sl], r["gt"][rsl]
                keep = [x for x in b if x <= w]
                ambiguous = any(abs(x - w) <= 4 * tol for x in b)
                if len(a) != len(keep) and not ambiguous:
                    bad("fragment %s has %d photons within the window, %d of the unlimited event are that early (ages %r, unlimited %r)" % (f, len(a), len(keep), a, b)); break
                if any(abs(x - y) > 4 * tol + 1e-12 * abs(y) for x, y in zip(a, b)):
                    bad("photon ages of fragment %s differ from the unlimited event: %r, %r" % (f, a, b)); break
                ga, gb = O.photon_cm(ev, f), O.photon_cm(r, f)
                if any(abs(x - y) > 1e-6 for x, y in zip(ga, gb)):
                    bad("photon energies of fragment %s differ from the unlimited event: %r, %r" % (f, ga, gb)); break
                if len(a) < len(b):
                    cut[f == "H"] += 1
                # the random stream stays aligned only while nothing was cut
                key = ("nu_", "nv", "gu", "gv")
                same = all(ev[q][nsl if q[0] == "n" else sl] == r[q][nrs if q[0] == "n" else rsl] for q in key)
                if len(a) < len(b) or not same or not (F["nu"] or F["nug"]):
                    break
            states.append((z, "%.0e" % w, plan.levels, cut[0] > 0, cut[1] > 0))
        return out[:12], dict(evals=n, states=states, count={"compared": n, "light_cut": cut[0], "heavy_cut": cut[1]})

    def shrink(self, plan, meta):
        ops = plan.phases[0][0]["ops"]
        starts = [j for j, o in enumerate(ops) if o.startswith("rng")] + [len(ops)]
        m = len(starts) - 1
        if m > 2:
            for a in range(m - 1, -1, -1):
                q = plan.clone(); q.phases[0][0]["ops"] = ops[:starts[a]] + ops[starts[a + 1]:]; yield q, meta


PROP = P()
