"""Progress: every supported request completes within a bounded number of random draws and steps, whatever the random numbers do for a while."""
import re
from .physics import *

EXTREME = [2.0 ** -32, 1 - 2.0 ** -32, 1e-9, 1e-6, 1 - 1e-6, 1e-3, 0.999, 0.5, 2.0 ** -20, 1 - 2.0 ** -20,
           0.5 + 1e-7, 0.5 - 1e-7, 0.5 + 1e-4, 0.5 - 1e-4, 0.3, 0.7]      # near 0.5: far tails of a Gaussian deviate
LIMIT = 40000


class P(Prop):
    id = "P16"
    quick_n = 260
    thorough_n = 8000
    rule = ("one case = one process generating 8 events, single-nucleus decays or yields samples, each under a burst of up to 400 consecutive or scattered extreme random numbers followed by ordinary ones; the request must finish within %d draws and the step budget; "
            "a state is (request kind, target, burst start decade, burst length decade, extreme value)" % LIMIT)
    assumptions = ("random numbers lie in [2^-32, 1-2^-32]; an endless run of one extreme value is not claimed",)

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        p.steplimit = 2000000000
        ops = ["path /data"]
        X = []
        for _ in range(8):
            z, e = pick_reaction(rng)
            s = rng.randrange(1, 10 ** 6)
            a = rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 20, 30, 50, 80, 120]) + rng.randrange(0, 4)
            n = rng.choice([1, 2, 3, 5, 10, 30, 100, 400])
            v = rng.choice(EXTREME)
            kind = rng.choice(["const", "const", "alt", "mix", "scatter"])
            ov = {}
            for k in range(n):
                if kind == "const":
                    ov[a + k] = v
                elif kind == "alt":
                    ov[a + k] = v if k % 2 else 1 - v
                elif kind == "mix":
                    ov[a + k] = rng.choice(EXTREME)
                else:
                    ov[rng.randrange(0, 200)] = rng.choice(EXTREME)
            ops.append("rng %d limit %d ov %s" % (s, LIMIT, " ".join("%d:%r" % x for x in sorted(ov.items()))))
            r = rng.random()
            if r < 0.8:
                ops += ["event 0 %d %s 0 %s" % (z, num(e), num(pick_window(rng))), "del 0"]
            elif r < 0.9:
                ops += ["cgm 1 %d %s 0" % (rng.choice([40100, 54140, 56144, 36092, 60150]), num(rng.uniform(2, 20))), "cgmdel 1"]
            else:
                ops += ["yields %d %s %d y" % (z, num(e), rng.choice([1, 3]))]
            X.append((z, len(str(a)), len(str(n)), "%.1g" % v))
        p.node("script", ops=ops)
        return p, dict(X=X)

    def judge(self, plan, m, res):
        out = []
        ops = plan.phases[0][0]["ops"]
        st = res.status(0, 0)
        done = [x for x in res.events(0, 0) if "draws" in x]
        if st[:2] != ("exit", 0):
            k = res.stat.get((0, 0), {}).get("op", 0)
            # a long burst may drive a cascade past the particle capacity: a stop with an error message is then legitimate
            n = ops[k - 1].count(":") if k else 0
            if not (st[0] == "exit" and st[1] != 0 and n >= 20 and re.search("too many|too large", res.err.get((0, 0), ""), re.I)):
                out.append(V("stuck" if st[0] == "hang" else "died", "request ended %r: [%s] under [%s...] %s" % (st, ops[k] if k < len(ops) else "", ops[k - 1][:120], res.err.get((0, 0), "")[-160:]), ops[k] if k < len(ops) else ""))
        return out, dict(evals=len(done), states=[tuple(x) + (y["k"],) for x, y in zip(m["X"], done)], count={"requests": len(done), "draws": sum(x["draws"] for x in done), "maxdraws_over_5000": sum(x["draws"] > 5000 for x in done)})

    shrink = EventProp.shrink


PROP = P()
