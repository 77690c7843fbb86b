"""Reproducibility: an event depends on its own arguments and random stream only."""
from .common import *


class P(Prop):
    id = "P01"
    quick_n = 120
    thorough_n = 4000
    rule = ("one case = one process that generates a random history of events, fragment-yield samples, single-nucleus decays and C-interface events, "
            "next to fresh processes that generate each target event alone, under different allocator contents, clocks and schedules; "
            "a state is (operation kinds since process start, reaction, window) of a compared event")
    assumptions = ("event equality is bit-for-bit over every public getter",)

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        k = rng.choice([2, 2, 3])
        X = []
        for _ in range(k):
            z, e = pick_reaction(rng)
            s, o = rng.randrange(1, 10 ** 6), ""
            if rng.random() < 0.4:
                z, e, s, o = rare(rng)
            if X and rng.random() < 0.4:   # easily mistaken for an earlier request
                s, o = X[-1][0], ""
                z, e = near(rng, X[-1][1], X[-1][2])
            X.append(("%s%s" % (s, o), z, e, rng.choice([0.0, 0.0, 1.5e-8]), pick_window(rng)))
        # history process
        ops = ["path /data"]
        live = []
        slot = 0
        long = rng.randrange(90, 220) if i % 24 == 11 else 0
        for j in range(long or rng.randrange(6, 13)):
            r = rng.random() if not 3 < j < long - 4 else 0.7 + 0.1 * (j % 23 == 0) if j % 4 == 0 else 0.1
            if r < 0.66:
                x = rng.randrange(k)
                s, z, e, t, w = X[x]
                ops.append("rng %s" % s)
                if rng.random() < 0.2:
                    ops.append("cevent %d %s %s %s" % (z, num(e), num(t), num(w)))
                else:
                    ops.append("event %d %d %s %s %s" % (slot, z, num(e), num(t), num(w)))
                    ops.append("del %d" % slot)
            elif r < 0.8:
                z, e = pick_reaction(rng)
                ops += ["rng %d" % rng.randrange(1, 10 ** 6), "event %d %d %s 0 %s" % (slot, z, num(e), num(pick_window(rng))), "del %d" % slot]
            elif r < 0.9:
                ops += ["rng %d" % rng.randrange(1, 10 ** 6), "cgm %d %d %s 0" % (slot, rng.choice([40100, 54140, 56144, 36092]), num(rng.uniform(3, 20))), "cgmdel %d" % slot]
            else:
                z, e = pick_reaction(rng)
                ops += ["rng %d" % rng.randrange(1, 10 ** 6), "yields %d %s %d hy%d" % (z, num(e), rng.randrange(1, 4), len(ops))]
        p.node("script", ops=ops)
        # reference processes
        for s, z, e, t, w in X:
            p.node("script", ops=["path /data", "rng %s" % s, "event 0 %d %s %s %s" % (z, num(e), num(t), num(w))], new_phase=False)
        p.sched = "random %d %g" % (rng.randrange(1, 10 ** 6), rng.choice([0.02, 0.2]))
        # one more reference with untouched allocator state
        return p, {"X": X}

    def judge(self, plan, meta, res):
        out = []
        ref = {}
        n = 0
        states = []
        for k, nd in enumerate(plan.phases[0][1:], 1):
            st = res.status(0, k)
            if st[:2] != ("exit", 0):
                out.append(V("reference", "fresh process did not finish: %r %s" % (st, res.err.get((0, k), "")[-200:]), nd["ops"][-1]))
                continue
            for e in res.events(0, k):
                if "ev" in e:
                    key = (nd["ops"][1].split()[1], tuple(nd["ops"][2].split()[2:]))
                    ref[key] = e
        st = res.status(0, 0)
        if st[:2] != ("exit", 0):
            out.append(V("history", "history process did not finish: %r op %s %s" % (st, res.stat[(0, 0)].get("op"), res.err.get((0, 0), "")[-200:])))
        ops = plan.phases[0][0]["ops"]
        kinds = ""
        for e in res.events(0, 0):
            op = ops[e["op"]].split()
            if op[0] in ("event", "cevent"):
                seed = ops[e["op"] - 1].split()[1]
                args = tuple(op[2:] if op[0] == "event" else op[1:])
                r = ref.get((seed, args))
                if r is not None:
                    n += 1
                    states.append((kinds[-6:], args, plan.heap[0]))
                    d = diff(r["ev"], e["ev"])
                    if d:
                        out.append(V("differs", "event with seed %s %s after history [%s] differs from the same event in a fresh process: %s" % (seed, " ".join(args), kinds, d), " ".join(args)))
                    elif r["draws"] != e["draws"]:
                        out.append(V("draws", "event consumed %d random numbers, %d in a fresh process" % (e["draws"], r["draws"]), " ".join(args)))
            kinds += {"event": "e", "cevent": "c", "cgm": "g", "yields": "y"}.get(op[0], "")
        return out, dict(evals=n, states=states, count={"events_compared": n})

    def shrink(self, plan, meta):
        ops = plan.phases[0][0]["ops"]
        # groups start at an rng op
        starts = [j for j, o in enumerate(ops) if o.startswith("rng")] + [len(ops)]
        if len(starts) > 2:
            for a, b in list(zip(starts, starts[1:]))[::-1]:
                q = plan.clone(); q.phases[0][0]["ops"] = ops[:a] + ops[b:]; yield q, meta
        if len(plan.phases[0]) > 2:
            for j in range(len(plan.phases[0]) - 1, 0, -1):
                q = plan.clone(); del q.phases[0][j]
                for m, nd in enumerate(q.phases[0]):
                    nd["id"] = m
                yield q, meta


def diff(a, b, path=""):
    if isinstance(a, dict):
        for k in a:
            if k in ("oob", "zaid", "einc"):
                continue
            if k not in b:
                return path + k + " missing"
            d = diff(a[k], b[k], path + k + ".")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s has %d entries, not %d" % (path, len(b), len(a))
        for j, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + str(j))
            if d:
                return d
        return None
    if a != b and not (a != a and b != b):
        return "%s: %r != %r" % (path, b, a)
    return None


PROP = P()
