"""Random choices follow the nuclear data: branching ratios, conversion
coefficients, half-lives, isotropy.  Statistical, over an ensemble of seeded
events; every test uses a Bernstein bound, so that the chance of an alarm on a
correct code is below 1e-10 per test whatever the seed."""
from .common import *
import levels as L

ALPHA = 1e-10
TOL = 4e-6        # MeV, identification of a discrete transition
SLACK = 0.002     # continuum photons that coincide with a transition by chance


class Acc(dict):
    """test name -> [n, sum of deviations, sum of variances, bound of one deviation]"""
    def add(self, key, dev, var, bound=1.0):
        a = self.setdefault("/".join(map(str, key)), [0, 0.0, 0.0, bound])
        a[0] += 1; a[1] += dev; a[2] += var


def merge(accs):
    out = {}
    for a in accs:
        for k, (n, s, v, b) in a.items():
            o = out.setdefault(k, [0, 0.0, 0.0, b])
            o[0] += n; o[1] += s; o[2] += v
    return out


def excess(n, s, v, b, slack):
    """None, or the bound on the probability of a deviation this large."""
    t = abs(s) - slack * n
    if t <= 0:
        return None
    p = 2 * math.exp(-t * t / (2 * v + 2 * b * t / 3)) if v or t else 0.0
    return p if p < ALPHA else None


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


class P(Prop):
    id = "P22"
    per = 24
    quick_n = 130
    thorough_n = 4000
    rule = ("one case = one process generating 24 events with a level scheme of sixteen levels per nuclide, all with half-lives and several branches, half of the schemes with conversion; "
            "transitions between discrete levels are recognised by their energy and every choice after a recognised arrival is counted against the level data, over all cases; "
            "a state is (residual nucleus, level, transition taken)")
    assumptions = ("the level scheme is synthesised", "a deviation below what the ensemble resolves (probability bound 1e-10 per test) is not seen")

    def case(self, rng, i, tier):
        p = Plan(levels=rng.choice(["dec", "dcc", "dcc"]))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        ops = ["path /data"]
        same = pick_reaction(rng) if rng.random() < 0.5 else None
        for k in range(self.per):
            z, e = same or pick_reaction(rng)
            if rng.random() < 0.3:
                z, e = rng.choice(O.SF), 0.0
            ops += ["rng %d limit 400000" % rng.randrange(1, 10 ** 9), "event 0 %d %s 0.0 -1.0" % (z, num(e)), "del 0"]
        p.node("script", ops=ops)
        return p, {}

    def judge(self, plan, meta, res):
        out, states = [], set()
        acc = Acc()
        ops = plan.phases[0][0]["ops"]
        st = res.status(0, 0)
        if st[:2] != ("exit", 0):
            out.append(V("run", "process ended %r %s" % (st, res.err.get((0, 0), "")[-160:])))
        tab = L.full(plan.levels)
        n = 0
        for x in res.events(0, 0):
            if "ev" not in x:
                continue
            n += 1
            a = ops[x["op"]].split()
            self.event(x["ev"], int(a[2]), float(a[3]), tab, plan.levels, acc, states)
        return out, dict(evals=n, states=sorted(states), acc=acc, count={"events": n, "recognised": sum(a[0] for k, a in acc.items() if k.startswith("next/"))})

    def event(self, ev, z, e, tab, variant, acc, states):
        if not O.finite_all(ev):
            acc.add(("finite",), 1.0, 0.0)
            return
        third = 4 / 45.0
        ax = unit([a - b for a, b in zip(ev["L"]["pre"], ev["H"]["pre"])])
        for c, k in ((0, "x"), (1, "y")):
            acc.add(("axis", k), ax[c], 1 / 3.0)
        s = math.hypot(ax[0], ax[1])
        if s > 1e-6:
            acc.add(("azimuth", "cos2"), (ax[0] ** 2 - ax[1] ** 2) / s ** 2, 0.5)
            acc.add(("azimuth", "sin2"), 2 * ax[0] * ax[1] / s ** 2, 0.5)
        if e == 0:
            acc.add(("axis", "z"), ax[2], 1 / 3.0)
            acc.add(("axis", "zz"), ax[2] ** 2 - 1 / 3.0, third)
        for k in range(ev["np"]):
            acc.add(("pre-fission", "u"), ev["pu"][k], 1 / 3.0)
            acc.add(("pre-fission", "v"), ev["pv"][k], 1 / 3.0)
            s = math.hypot(ev["pu"][k], ev["pv"][k])
            if s > 1e-6:
                acc.add(("pre-fission", "azimuth cos2"), (ev["pu"][k] ** 2 - ev["pv"][k] ** 2) / s ** 2, 0.5)
                acc.add(("pre-fission", "azimuth sin2"), 2 * ev["pu"][k] * ev["pv"][k] / s ** 2, 0.5)
        no = go = 0
        for f in "LH":
            F = ev[f]
            acc.add(("parity", f), F["P"] / 2.0, 0.25)
            d = unit(F["pre"])
            prev = None
            for k in range(no, no + F["nu"]):
                c = (ev["cu"][k], ev["cv"][k], ev["cw"][k])
                for q, v in zip("uvw", c):
                    acc.add(("neutron", f, q), v, 1 / 3.0)
                    acc.add(("neutron", f, q + q), v * v - 1 / 3.0, third)
                m = O.dot(c, d)
                acc.add(("neutron", f, "axis"), m, 1 / 3.0)
                acc.add(("neutron", f, "axis2"), m * m - 1 / 3.0, third)
                if prev:
                    acc.add(("neutron", "pair"), O.dot(prev, c), 1 / 3.0)
                prev = c
            no += F["nu"]
            lv = tab.get(1000 * F["Z"] + F["A"] - F["nu"])
            E = O.photon_cm(ev, f)
            T = ev["gt"][go:go + F["nug"]]
            prev = None
            for k in range(go, go + F["nug"]):
                c = (ev["gu"][k], ev["gv"][k], ev["gw"][k])
                for q, v in zip("uvw", c):
                    acc.add(("photon", f, q), v, 1 / 3.0)
                    acc.add(("photon", f, q + q), v * v - 1 / 3.0, third)
                if prev:
                    acc.add(("photon", "pair"), O.dot(prev, c), 1 / 3.0)
                prev = c
            go += F["nug"]
            if not lv:
                continue
            trans = [(i, g, lv[i][0] - lv[g][0]) for i in range(1, len(lv)) for g, p, ic in lv[i][2]]
            for k, x in enumerate(E):
                m = [(i, g) for i, g, q in trans if abs(q - x) < TOL]
                if len(m) != 1:
                    continue
                i = m[0][1]           # arrived on level i
                if i == 0:
                    acc.add(("ground",), 1.0 if k + 1 < len(E) else 0.0, 0.0)
                    continue
                nxt = E[k + 1] if k + 1 < len(E) else None
                _, hl, br = lv[i]
                hit = False
                for j, (g, p, ic) in enumerate(br):
                    q = p / (1 + ic)
                    h = nxt is not None and abs(lv[i][0] - lv[g][0] - nxt) < TOL
                    hit |= h
                    acc.add(("next", variant, "slot%d" % j), h - q, q * (1 - q))
                    acc.add(("next", variant, "p%d" % int(p * 5)), h - q, q * (1 - q))
                    acc.add(("next", variant, "icc%g" % ic, "first" if j == 0 else "later"), h - q, q * (1 - q))
                    acc.add(("next", variant, "of%d" % len(br), "slot%d" % j), h - q, q * (1 - q))
                    if j == 0:
                        acc.add(("level", variant, i), h - q, q * (1 - q))
                    if h:
                        states.add("%d.%d.%d.%d" % (F["Z"], F["A"] - F["nu"], i, g))
                q = sum(p / (1 + ic) for g, p, ic in br)
                acc.add(("next", variant, "any"), hit - q, q * (1 - q))
                if not hit:
                    continue
                dt = T[k + 1] - T[k]
                if hl <= 0:
                    acc.add(("prompt",), 1.0 if dt != 0 else 0.0, 0.0)
                elif T[k] < 1e8 * hl:
                    u = 2.0 ** (-dt / hl)
                    for key in ("all", "%g" % hl):
                        acc.add(("half-life", key, "mean"), u - 0.5, 1 / 12.0)
                        acc.add(("half-life", key, "early"), (u > 0.75) - 0.25, 0.25 * 0.75)
                        acc.add(("half-life", key, "late"), (u < 0.125) - 0.125, 0.125 * 0.875)
                        acc.add(("half-life", key, "second"), u * u - 1 / 3.0, 4 / 45.0)

    def finish(self, accs):
        out = []
        for k, (n, s, v, b) in sorted(merge(accs).items()):
            sl = SLACK if k.split("/")[0] in ("next", "level", "half-life", "ground", "prompt") else 0.0
            p = excess(n, s, v, b, sl)
            if p is not None:
                out.append(V(k.split("/")[0], "%s: %d choices deviate by %+.4f on average from what the data say (%.1f standard deviations; probability below %.1e)" % (k, n, s / n, abs(s) / math.sqrt(v) if v > 0 else 999, p), k))
        return out


PROP = P()
