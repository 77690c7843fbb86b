"""Library life cycle: any order of creating, reading and releasing events is memory-safe, non-interfering and leak-free; C and C++ agree."""
from .common import *
from .P01 import diff


class P(Prop):
    id = "P15"
    checked = True
    quick_n = 110
    thorough_n = 4000
    rule = ("one case = a process that runs a random program of library calls (overlapping live events, releases in any order, C and C++ interface, single-nucleus decays, yields, clean-ups, re-reading of live events) under a poisoning allocator with overflow, double-free and write-after-free detection, and two processes that repeat a balanced call cycle k and 2k times; "
            "a state is (operation trigram, live events)")
    assumptions = ("the allocator detects writes past a block at its release or at process end, and writes into freed blocks at reuse or at process end",)

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = (rng.choice([2, 3, 4, 4]), rng.randrange(1, 10 ** 6))
        p.clock = rng.randrange(1, 10 ** 6)
        X = []
        for _ in range(3):
            z, e = pick_reaction(rng)
            s, o = rng.randrange(1, 10 ** 6), ""
            if rng.random() < 0.4:
                z, e, s, o = rare(rng)
            X.append(("%d%s" % (s, o), z, num(e), num(rng.choice([0.0, 1e-8])), num(pick_window(rng))))
        ops = ["path /data"]
        live, cg = [], []
        slot = 0
        cl = False
        for _ in range(rng.randrange(10, 22)):
            r = rng.random()
            if r < 0.34:
                s, z, e, t, w = rng.choice(X)
                slot += 1
                ops += ["rng %s" % s, "event %d %d %s %s %s" % (slot, z, e, t, w)]
                live.append(slot)
            elif r < 0.5 and live:
                ops.append("del %d" % live.pop(rng.randrange(len(live))))
            elif r < 0.62 and live:
                ops.append("dump %d" % rng.choice(live))
            elif r < 0.76:
                s, z, e, t, w = rng.choice(X)
                ops += ["rng %s" % s, "cevent %d %s %s %s" % (z, e, t, w)]
                if rng.random() < 0.3:
                    ops.insert(-1, "crng")
                cl = True
            elif r < 0.81:
                ops.append("cclean")
            elif r < 0.87:
                slot += 1
                z, e = rng.choice([40100, 54140, 56144]), num(rng.choice([4.5, 9.5, 15.0]))
                if rng.random() < 0.5:
                    ops += ["rng 77", "cgm %d %d %s 0" % (slot, z, e)]
                    cg.append(slot)
                else:
                    ops += ["rng 77", "ccgm %d %s" % (z, e)]
            elif r < 0.91 and cg:
                ops.append("cgmdel %d" % cg.pop(rng.randrange(len(cg))))
            elif r < 0.95:
                s, z, e, t, w = rng.choice(X)
                ops += ["rng %s" % s, "yields %d %s 2 y" % (z, e)]
            else:
                ops.append("cleanup")
        for s in live:
            ops.append("dump %d" % s)
        rng.shuffle(live)
        if rng.random() < 0.6:
            ops += ["del %d" % s for s in live] + ["cgmdel %d" % s for s in cg]
            if rng.random() < 0.7:
                ops.insert(rng.randrange(len(ops) - 1, len(ops) + 1), "cleanup")
        p.node("script", so=rng.choice(["serial", "checked", "checked"]), ops=ops)
        (s, z, e, t, w), (s2, z2, e2, t2, w2) = X[0], X[1]
        cyc = [["rng %s" % s, "event 0 %d %s %s %s" % (z, e, t, w), "del 0"], ["rng %s" % s2, "cevent %d %s %s %s" % (z2, e2, t2, w2), "cclean"],
               ["rng 5", "cgm 1 54140 9.5 0", "cgmdel 1"], ["rng 5", "ccgm 40100 7.5"],
               ["rng %s" % s, "event 0 %d %s %s %s" % (z, e, t, w), "rng %s" % s2, "event 1 %d %s %s %s" % (z2, e2, t2, w2), "del 0", "del 1"]]
        rng.shuffle(cyc)
        c = [o for x in cyc[:rng.randrange(1, 3)] for o in x]
        tail = rng.choice([[], ["cleanup"], ["cclean"]])
        inner = ["cleanup"] if rng.random() < 0.2 else []
        p.node("script", ops=["path /data"] + c + inner + tail)
        p.node("script", ops=["path /data"] + (c + inner) * 4 + tail)
        return p, {}

    def judge(self, plan, meta, res):
        out, states, n = [], [], 0
        ops = plan.phases[0][0]["ops"]
        for ph in range(len(plan.phases)):
            st = res.status(ph, 0)
            if st[:2] != ("exit", 0):
                k = res.stat.get((ph, 0), {}).get("op", 0)
                o = plan.phases[ph][0]["ops"]
                out.append(V("memory" if st[0] == "memerr" else "run", "process ended %r at op %s (%s) after [%s] %s" % (st, k, o[k] if 0 <= k < len(o) else "", "; ".join(x.split()[0] for x in o[:k])[-200:], res.err.get((ph, 0), "")[-120:]), st[2] or st[0]))
        first, by = {}, {}
        kinds = []
        for x in res.events(0, 0):
            op = ops[x["op"]].split()
            kinds.append(op[0])
            states.append((tuple(kinds[-3:]),))
            if op[0] == "event":
                first[op[1]] = x["ev"]
                key = (ops[x["op"] - 1], tuple(op[2:]))
            elif op[0] == "cevent":
                r = x["op"] - 1
                while not ops[r].startswith("rng"):
                    r -= 1
                key = (ops[r], tuple(op[1:]))
            elif op[0] == "dump":
                n += 1
                d = diff(first[op[1]], x["ev"])
                if d:
                    out.append(V("interference", "live event changed while other calls ran [%s]: %s" % (" ".join(kinds[-8:]), d), " ".join(kinds[-4:])))
                continue
            elif op[0] in ("cgm", "ccgm"):
                key = ("cgm", tuple(op[2:4] if op[0] == "cgm" else op[1:3]))
                n += 1
                b = by.setdefault(key, x)
                if b["g"] != x["g"] or b["n"] != x["n"]:
                    out.append(V("disagree", "single-nucleus decay of %s differs: %r %r vs %r %r" % (key, b["g"], b["n"], x["g"], x["n"]), op[0]))
                continue
            else:
                continue
            n += 1
            b = by.setdefault(key, x)
            d = diff({k: v for k, v in b["ev"].items()}, x["ev"]) if set(b["ev"]) <= set(x["ev"]) else diff(x["ev"], b["ev"])
            if d:
                out.append(V("disagree", "the same event through %s and %s differs: %s" % (b["k"], x["k"], d), "%s %s" % (b["k"], x["k"])))
        if len(plan.phases) == 3 and all(res.status(k, 0)[:2] == ("exit", 0) for k in (1, 2)):
            a, b = res.stat[(1, 0)], res.stat[(2, 0)]
            n += 1
            if b["livebytes"] > a["livebytes"] + 4096 or b["live"] >= a["live"] + 3:
                out.append(V("leak", "live heap grows from %d blocks/%d bytes to %d/%d when the call cycle [%s] is repeated 4 times" % (a["live"], a["livebytes"], b["live"], b["livebytes"], "; ".join(plan.phases[1][0]["ops"])), "leak"))
        return out, dict(evals=n, states=states, count={"compared": n})

    def shrink(self, plan, meta):
        if len(plan.phases) == 3:
            q = plan.clone(); q.phases = q.phases[:1]; yield q, meta
            q = plan.clone(); q.phases[0][0]["ops"] = ["path /data"]
            if len(plan.phases[0][0]["ops"]) > 1:
                yield q, meta
        ops = plan.phases[0][0]["ops"]
        for k in range(len(ops) - 1, 0, -1):
            o = ops[k].split()
            if o[0] in ("rng",):
                continue
            if o[0] in ("event", "cgm") and any(x.split()[0] in ("del", "dump", "cgmdel") and x.split()[1] == o[1] for x in ops):
                new = [x for j, x in enumerate(ops) if j != k and not (x.split()[0] in ("del", "dump", "cgmdel") and x.split()[1] == o[1])]
            else:
                new = ops[:k] + ops[k + 1:]
            q = plan.clone(); q.phases[0][0]["ops"] = new; yield q, meta


PROP = P()
