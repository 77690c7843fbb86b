"""Shared generator for the checks that judge single events: processes that
generate many events of random reactions, windows and level schemes, part of
them under bursts of extreme random numbers, allocator poison and event reuse."""
from .common import *
import levels as L

EXT = [2.0 ** -32, 1 - 2.0 ** -32, 1e-6, 1 - 1e-6, 1e-4, 0.9999]


def overrides(rng):
    n = rng.choice([1, 2, 3, 6])
    if rng.random() < 0.3:
        a = rng.randrange(0, 60)
        v = rng.choice(EXT)
        return [(a + k, v if rng.random() < 0.7 else rng.choice(EXT)) for k in range(n)]
    return [(rng.randrange(0, rng.choice([10, 40, 150, 400])), rng.choice(EXT)) for _ in range(n)]


class EventProp(Prop):
    per = 8
    windows = True
    p_ov = 0.3
    p_rare = 0.35
    times = [0.0, 0.0, 0.0, 1.5e-8, 2.5]
    judge_event = None
    assumptions = ("random numbers lie in [2^-32, 1-2^-32]: the exact value 0 is outside what the generators in use deliver more than once in 2^32 draws",
                   "the level scheme is synthesised, masses are those of the shipped table")

    def reaction(self, rng):
        return pick_reaction(rng)

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        ops = ["path /data"]
        X = []
        same = self.reaction(rng) if rng.random() < 0.4 else None
        for k in range(self.per):
            z, e = same or self.reaction(rng)
            w = pick_window(rng) if self.windows else -1.0
            t = rng.choice(self.times)
            s = rng.randrange(1, 10 ** 6)
            o = ""
            if rng.random() < self.p_ov:
                o = " ov " + " ".join("%d:%r" % x for x in overrides(rng))
            if rng.random() < self.p_rare:
                z, e, s, o = rare(rng)
                w = rng.choice([-1.0, w])
            ops.append("rng %d limit 400000%s" % (s, o))
            c = rng.random() < 0.15
            if c:
                ops.append("cevent %d %s %s %s" % (z, num(e), num(t), num(w)))
            else:
                ops.append("event 0 %d %s %s %s" % (z, num(e), num(t), num(w)))
                ops.append("del 0")
        p.node("script", ops=ops)
        return p, {}

    def judge(self, plan, meta, res):
        out = []
        states = []
        n = 0
        ops = plan.phases[0][0]["ops"]
        st = res.status(0, 0)
        if st[:2] != ("exit", 0):
            k = res.stat.get((0, 0), {}).get("op", 0)
            out.append(V("run", "process ended %r at [%s | %s] %s" % (st, ops[k - 1] if k else "", ops[k] if k < len(ops) else "", res.err.get((0, 0), "")[-160:]), ops[k] if k < len(ops) else ""))
        for x in res.events(0, 0):
            if "ev" not in x:
                continue
            op = ops[x["op"]].split()
            a = op[2:] if op[0] == "event" else op[1:]
            z, e, t, w = int(a[0]), float(a[1]), float(a[2]), float(a[3])
            n += 1
            for kind, msg in self.judge_event(x["ev"], z, e, t, w, plan):
                out.append(V(kind, "%s  [%s | %s | levels %s]" % (msg, ops[x["op"] - 1][:80], ops[x["op"]], plan.levels), "%d %g" % (z, e)))
            ev = x["ev"]
            states.append((z, round(e), min(ev["np"], 3), ev["L"]["nu"], ev["H"]["nu"], w > 0))
        return out[:12], dict(evals=n, states=states, count={"events": n, "with_prefission": sum(1 for s in states if s[2])})

    def shrink(self, plan, meta):
        ops = plan.phases[0][0]["ops"]
        starts = [j for j, o in enumerate(ops) if o.startswith("rng")] + [len(ops)]
        m = len(starts) - 1
        if m > 1:
            for a in range(m):      # one event alone
                q = plan.clone(); q.phases[0][0]["ops"] = ops[:1] + ops[starts[a]:starts[a + 1]]; yield q, meta
            for a in range(m - 1, -1, -1):
                q = plan.clone(); q.phases[0][0]["ops"] = ops[:starts[a]] + ops[starts[a + 1]:]; yield q, meta
        for j, o in enumerate(ops):
            if " ov " in o:
                h, ov = o.split(" ov ")
                ov = ov.split()
                for k in range(len(ov)):
                    r = ov[:k] + ov[k + 1:]
                    q = plan.clone(); q.phases[0][0]["ops"][j] = h + (" ov " + " ".join(r) if r else ""); yield q, meta
