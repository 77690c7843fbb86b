"""Single-nucleus decay: only lines the energy allows, independent of history, the same through C and C++."""
from .common import *
import levels


def stable_a(z):
    a = 2.0 * z
    for _ in range(60):
        a = 2.0 * z * (1 + 0.0077 * a ** (2.0 / 3.0))
    return int(round(a))


class P(Prop):
    id = "P20"
    quick_n = 240
    thorough_n = 8000
    rule = ("one case = a process that decays single excited nuclei (charge 28-66, mass up to 14 beyond stability, 0.3-30 MeV) through the C and C++ interface between fission events, yields and clean-ups, under allocator contents and injected random-number bursts, and fresh processes that repeat two of the decays; "
            "a state is (neutrons, photon lines, level scheme, interface, calls before)")
    assumptions = ("nuclei of the fission-fragment region", "lines are reported once per 0.05 MeV energy bin, at most 30, as documented by the interface")

    def pick(self, rng):
        while True:
            z = rng.randrange(28, 67)
            a = stable_a(z) + rng.randrange(0, 15)
            try:
                sn = O.Sn(z, a)
                for k in range(1, 5):
                    O.Sn(z, a - k)
            except Exception:
                continue
            e = rng.choice([rng.uniform(0.3, 4.0), rng.uniform(4.0, 12.0), rng.uniform(12.0, 30.0), max(0.3, sn + rng.uniform(-0.3, 0.3)), max(0.3, sn + rng.uniform(0, 2.0))])
            return z, a, round(e, 4)

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        ops, want = ["path /data"], []
        pool = [self.pick(rng) for _ in range(2)]
        z, a, e = pool[0]
        pool.append((z, a, max(0.3, round(e + rng.choice([-1, 1]) * rng.choice([1e-4, 0.004, 0.03, 0.2, 2.0]), 4))) if rng.random() < 0.6 else self.pick(rng))
        slot, live = 0, []
        for _ in range(rng.randrange(4, 12)):
            r = rng.random()
            if r < 0.7:
                z, a, e = rng.choice(pool)
                s = rng.choice([11, 12, rng.randrange(1, 10 ** 6)])
                ov = ""
                if rng.random() < 0.3:
                    k = rng.randrange(0, 40)
                    ov = " ov" + "".join(" %d:%s" % (k + j, repr(rng.choice([2.0 ** -32, 1 - 2.0 ** -32, 0.5, 1e-6, 0.999999]))) for j in range(rng.randrange(1, 10)))
                ops.append("rng %d%s" % (s, ov))
                if rng.random() < 0.6:
                    slot += 1
                    ops.append("cgm %d %d %s %s" % (slot, 1000 * z + a, num(e), num(rng.choice([0.0, 1e-8]))))
                    live.append(slot)
                else:
                    ops.append("ccgm %d %s" % (1000 * z + a, num(e)))
                want.append((len(ops) - 1, s, ov, z, a, e))
            elif r < 0.8 and live:
                ops.append("cgmdel %d" % live.pop(rng.randrange(len(live))))
            elif r < 0.93:
                z, e = pick_reaction(rng)
                ops += ["rng %d" % rng.randrange(1, 10 ** 6), rng.choice(["cevent %d %s 0 %s" % (z, num(e), num(pick_window(rng))), "yields %d %s 2 y" % (z, num(e))])]
            else:
                ops.append(rng.choice(["cclean", "cleanup"]))
        if not want:
            z, a, e = pool[0]
            ops += ["rng 11", "ccgm %d %s" % (1000 * z + a, num(e))]
            want.append((len(ops) - 1, 11, "", z, a, e))
        p.node("script", ops=ops)
        tw = []
        for k, s, ov, z, a, e in ([want[-1]] + ([rng.choice(want)] if len(want) > 1 else [])):
            p.node("script", ops=["path /data", "rng %d%s" % (s, ov), rng.choice(["ccgm %d %s", "cgm 1 %d %s 0"]) % (1000 * z + a, num(e))])
            tw.append(k)
        return p, dict(tw=tw)

    def judge(self, plan, m, res):
        out, states = [], []
        n = 0
        ops = plan.phases[0][0]["ops"]
        for ph in range(len(plan.phases)):
            st = res.status(ph, 0)
            if st[:2] != ("exit", 0):
                k = res.stat.get((ph, 0), {}).get("op", 0)
                o = plan.phases[ph][0]["ops"]
                out.append(V("run", "process ended %r at %s %s" % (st, o[k] if 0 <= k < len(o) else "", res.err.get((ph, 0), "")[-160:]), st[2] or st[0]))
        by = {}
        seen = set()
        for x in res.events(0, 0):
            o = ops[x["op"]].split()
            if o[0] not in ("cgm", "ccgm"):
                continue
            by[x["op"]] = x
            zaid, e = int(o[1 if o[0] == "ccgm" else 2]), float(o[2 if o[0] == "ccgm" else 3])
            z, a = zaid // 1000, zaid % 1000
            g, nn = x["g"], x["n"]
            n += 1
            w = "(%d,%d) %g MeV, %s, levels %s, op %d" % (z, a, e, ops[x["op"] - 1], plan.levels, x["op"])
            states.append((len(nn), len(g), plan.levels, o[0], min(x["op"], 6)))
            for nm, l in (("photon", g), ("neutron", nn)):
                if not all(isinstance(v, (int, float)) and math.isfinite(v) and v > 0 for v in l):
                    out.append(V("lines", "%s energies %r" % (nm, l), w))
                elif any(b <= c for b, c in zip(l[1:], l)):
                    out.append(V("lines", "%s lines not distinct and increasing: %r" % (nm, l), w))
            if len(g) > 30 or len(nn) > 30:
                out.append(V("lines", "%d photon and %d neutron lines" % (len(g), len(nn)), w))
                continue
            need = sum(O.Sn(z, a - k) for k in range(len(nn))) if len(nn) < a - 2 * z else 0.0
            have = sum(g) + sum(nn) + need
            # too cold for the continuum: the decay starts on the discrete level closest in energy
            lv = levels.table(plan.levels).get(zaid, [0.0]) if plan.levels in ("std", "icc") else [0.0]
            e0 = max(e, min(lv, key=lambda y: abs(y - e))) if e < max(lv) + 0.06 else e
            if not have <= e0 + 0.026 * (len(g) + len(nn)) + 0.15:
                out.append(V("energy", "%.3f MeV reported (photons %.3f, neutrons %.3f, separation %.3f) from %.3f MeV" % (have, sum(g), sum(nn), need, e), w))
            # what is below half a bin is not reported: a neutron just above threshold can be the whole decay
            if not g and not nn and e > 1.0 and not 0 <= e - O.Sn(z, a) < 0.1:
                out.append(V("nothing", "no line reported for a nucleus excited by %.3f MeV" % e, w))
        for ph, k in enumerate(m["tw"]):
            ev = res.events(ph + 1, 0)
            if k in by and ev and out == []:
                n += 1
                if any(by[k][q] != ev[0][q] for q in ("g", "n", "draws")):
                    out.append(V("history", "decay %s differs from the same decay in a fresh process: %r %r (%d draws) instead of %r %r (%d draws)" % (ops[k], by[k]["g"], by[k]["n"], by[k]["draws"], ev[0]["g"], ev[0]["n"], ev[0]["draws"]), "; ".join(ops[:k])[-200:]))
        return out, dict(evals=n, states=states, count={"decays": len(by)})

    def shrink(self, plan, m):
        ops = plan.phases[0][0]["ops"]
        for k in range(len(ops) - 1, 0, -1):
            if k in m["tw"] or k + 1 in m["tw"] or ops[k].startswith("rng"):
                continue
            o = ops[k].split()
            if o[0] == "cgm" and any(x.split()[:2] == ["cgmdel", o[1]] for x in ops):
                continue
            q = plan.clone(); q.phases[0][0]["ops"] = ops[:k] + ops[k + 1:]
            yield q, dict(m, tw=[t - (t > k) for t in m["tw"]])


PROP = P()
