"""Initial fragments and pre-fission neutrons follow the tabulated fission
models.  Statistical over an ensemble of seeded samples, like P22: every pair
of fragments is compared with the distribution that the tables give for its
own request, and the deviations are summed; an alarm needs a Bernstein bound
below 1e-10.  The sharing of the excitation energy is an exact relation and
checked pair by pair.  Half of the cases run on a simulated data directory
whose model tables have been altered, so that every column matters."""
import re, bisect
from .driver import *
from .P12 import parse
from .P22 import Acc, merge, excess
import build as B

HBARC = 197.3269602
MODEL = ("yamodel.dat", "tkemodel.dat", "multichancefission.dat", "anisotropy.dat", "spinscalingmodel.dat", "rta.dat")
MASS = (0, 124, 128, 131, 133, 135, 137, 139, 141, 143, 145, 148, 152, 400)
SLACK = {"mass": 0.002, "tke": 0.004, "neutrons": 0.002, "angle": 0.001, "spin": 0.01}


def data(name):
    return open(os.path.join(B.REPO, "data", name)).read()


class Tables:
    """The model tables as their headers document them."""
    def __init__(self, over):
        get = lambda n: over[n] if n in over else data(n)
        rows = lambda n: [l.split("#")[0].split() for l in get(n).splitlines() if l.strip() and l[0] != "#"]
        self.ya = {int(r[0]): [float(x) for x in r[1:15]] for r in rows("yamodel.dat") if len(r) == 15}
        self.tke = {int(r[0]): [float(x) for x in r[1:27]] for r in rows("tkemodel.dat") if len(r) == 27}
        self.alpha = {int(r[0]): (float(r[1]), float(r[2])) for r in rows("spinscalingmodel.dat") if len(r) >= 3}
        self.rta = {abs(int(r[0])): (int(r[1]), [float(x) for x in r[3:]]) for r in rows("rta.dat") if len(r) > 3}
        r = rows("anisotropy.dat")
        self.step = float(r[0][2])
        self.ani = {int(x[0]): [float(y) for y in x[1:]] for x in r[1:]}
        self.mcf = {}
        r = rows("multichancefission.dat")
        k = 0
        while k < len(r):
            z, n = int(r[k][0]), int(r[k][1])
            self.mcf[z] = ([float(x) for x in r[k + 1]], [[float(x) for x in q] for q in r[k + 2:k + 2 + n]])
            k += 2 + n
        self.cache = {}

    # number of pre-fission neutrons ----------------------------------------
    def chances(self, z, e, at=None):
        """probabilities of 0, 1, ... pre-fission neutrons, or None where the outcome hangs on the barrier; at: those of a neighbouring grid point instead"""
        bar, tab = self.mcf[z]
        k = max(1, bisect.bisect_left([r[0] for r in tab], e))
        a, b = tab[k - 1], tab[k]
        t = (e - a[0]) / (b[0] - a[0]) if at is None else at
        p = [max(0.0, x + t * (y - x)) for x, y in zip(a[1:], b[1:])]
        z0, a0 = z // 1000, z % 1000 + 1
        ex = e + O.Sn(z0, a0)
        for j in range(1, len(p)):
            ex -= O.Sn(z0, a0 - j + 1)
            if p[j] > 0:
                if abs(ex - bar[j]) < 0.25:
                    return None
                if ex < bar[j]:
                    p[0] += p[j]; p[j] = 0.0
        s = sum(p)
        return [x / s for x in p] if s > 0 else None

    # masses and kinetic energies -------------------------------------------
    def system(self, zc, n, sf, e, k2):
        key = (zc, n, sf, round(e, 3) if n else e, k2)
        if key not in self.cache:
            if len(self.cache) > 20000:
                self.cache.clear()
            self.cache[key] = self._system(*key)
        return self.cache[key]

    def _system(self, zc, n, sf, e, k2):
        sg = -1 if sf else 1
        ac = zc % 1000 - n
        g, shift = self.ya.get(sg * (zc - n)), 0
        if g is None:
            g, shift = self.ya[sg * zc], -n
        w = [1 / (1 + math.exp((e - g[0]) / g[1])), 1 / (1 + math.exp((e - g[6]) / g[7]))]
        mu = [shift + g[2] + g[3] * e, shift + g[8] + g[9] * e]
        sd = [g[4] + g[5] * e, g[10] + g[11] * e]
        s0 = g[12] + (g[5] if k2 else g[13]) * e
        peaks = [(2 - 2 * w[0] - 2 * w[1], ac / 2.0, s0)]
        for i in (0, 1):
            peaks += [(w[i], mu[i], sd[i]), (w[i], ac - mu[i], sd[i])]
        if min(x[2] for x in peaks) <= 0.5:
            return None
        y = {}
        for a in range(40, ac - 39):
            t = sum(q / s * math.exp(-0.5 * ((a - m) / s) ** 2) for q, m, s in peaks) / math.sqrt(2 * math.pi)
            if t > 1e-5:
                y[a] = t
        s = sum(y.values())
        y = {a: t / s for a, t in y.items()}
        ph = {}
        for a, t in y.items():
            h = max(a, ac - a)
            ph[h] = ph.get(h, 0) + t
        m1 = sum(h * p for h, p in ph.items())
        v1 = sum((h - m1) ** 2 * p for h, p in ph.items())
        v2 = sum(((h - m1) ** 2 - v1) ** 2 * p for h, p in ph.items())
        bins = [0.0] * (len(MASS) - 1)
        for h, p in ph.items():
            bins[bisect.bisect_right(MASS, h) - 1] += p
        par = sum(p for h, p in ph.items() if h % 2)
        r = self.tke.get(sg * (zc - n))
        T = None
        if r:
            a, e0, b, d = r[:4]
            tm = a + b * e if e <= e0 else a + (b - d) * e0 + d * e
            poly = lambda c, h, dflt: sum(x * (h - c[0]) ** k for k, x in enumerate(c[2:])) if h <= int(c[1]) else dflt
            av = {h: poly(r[4:15], h, 140.0) for h in ph}
            sc = tm / sum(av[h] * ph[h] for h in ph)
            T = {h: (sc * av[h], poly(r[15:26], h, 7.0)) for h in ph}
        return dict(ac=ac, ph=ph, m=m1, v=v1, v2=v2, bins=bins, odd=par, T=T)

    def strength(self, zc, n, sf, e):
        a, b = self.alpha.get((-1 if sf else 1) * (zc - n), (1.3, 0.0) if sf else (1.5, 0.071))
        return a + b * max(0.0, e)

    def asym(self, z, e):
        k = e / self.step
        if abs(k - math.floor(k) - 0.5) < 1e-3:
            return None
        return self.ani[z][int(k + 0.5)] if z in self.ani else 1.0


class Fixed:
    """Temperatures, level density parameters and deformations of the fragments (never altered)."""
    def __init__(self):
        t = [l.split() for l in data("temperatures.dat").splitlines() if l.strip() and l[0] != "#"]
        self.grid = [float(x) for x in t[0]]
        self.T = {int(r[0]): [float(x) for x in r[1:33]] for r in t[1:] if len(r) >= 33}
        self.a = {int(r[0]): [float(x) for x in r[1:33]] for r in (l.split() for l in data("ldp.dat").splitlines() if l.strip() and l[0] != "#") if len(r) >= 33}
        self.beta = {}
        for l in data("deformations.dat").splitlines():
            if l[:1] != "#" and len(l) > 52 and l[44:52].strip():
                self.beta[1000 * int(l[:4]) + int(l[4:8])] = float(l[44:52])

    def at(self, tab, za, u):
        r = tab.get(za)
        if not r or not 0 <= u < 95:
            return None
        k = bisect.bisect_right(self.grid, u) - 1
        return r[k] + (r[k + 1] - r[k]) * (u - self.grid[k]) / (self.grid[k + 1] - self.grid[k])


_fixed = _base = None


def fixed():
    global _fixed
    _fixed = _fixed or Fixed()
    return _fixed


def alter(rng):
    """Model tables with every parameter changed, in the layout of the originals."""
    o = {}
    L = []
    for l in data("yamodel.dat").splitlines():
        r = l.split("#")[0].split()
        if l[:1] != "#" and len(r) == 15:
            v = [float(x) for x in r[1:]]
            for i in (0, 6):        # weights between 0.15 and 0.4 at zero energy, drifting
                v[i + 1] = rng.choice([-1, 1]) * rng.uniform(15, 60)
                v[i] = -v[i + 1] * math.log(1 / rng.uniform(0.15, 0.4) - 1)
                v[i + 2] += rng.uniform(-5, 5)
                v[i + 3] = rng.uniform(-0.3, 0.3) if r[0][0] != "-" else 0.0
                v[i + 4] *= rng.uniform(0.8, 1.5)
                v[i + 5] = rng.uniform(0, 0.05) if rng.random() < 0.4 else rng.uniform(0, 0.4)
            v[12] = rng.uniform(6, 14)
            v[13] = rng.uniform(0.15, 0.5)
            l = "%6s " % r[0] + " ".join("%.4f" % x for x in v)
        L.append(l)
    o["yamodel.dat"] = "\n".join(L) + "\n"
    L = []
    for l in data("tkemodel.dat").splitlines():
        r = l.split()
        if l[:1] != "#" and len(r) == 27:
            v = [float(x) for x in r[1:]]
            v[0] += rng.uniform(-15, 2)
            v[1] = rng.choice([0.0, 0.0, round(rng.uniform(0.5, 3), 2), round(rng.uniform(0.5, 9), 2)])
            v[2] = rng.uniform(0, 0.8)
            v[3] = rng.uniform(-2.0, 0)
            v[5] = float(rng.randrange(140, 165))
            v[7] += rng.uniform(-0.3, 0.3)
            v[16] = float(rng.randrange(140, 165))
            f = rng.uniform(0.3, 1.1)
            v[17:] = [f * x for x in v[17:]]
            v[18] += rng.uniform(-0.03, 0.03)
            l = r[0] + " %.2f %.2f %.4f %.4f " % tuple(v[:4]) + "%.2f %.2f " % tuple(v[4:6]) + " ".join("%.4e" % x for x in v[6:15]) + " %.2f %.2f " % tuple(v[15:17]) + " ".join("%.4e" % x for x in v[17:])
        L.append(l)
    o["tkemodel.dat"] = "\n".join(L) + "\n"
    L = []
    fav = [rng.choice([0.2, 1.0, 1.0, 20.0]) for _ in range(3)] + [rng.choice([1.0, 20.0, 500.0, 500.0])]
    for l in data("multichancefission.dat").splitlines():
        r = l.split()
        if l[:1] != "#" and len(r) == 5:
            v = [float(x) * y * math.exp(rng.uniform(-3, 0.7)) for x, y in zip(r[1:], fav)]
            s = sum(v) or 1.0
            l = r[0] + " " + " ".join("%.3f" % max(0.001 if x else 0.0, 100 * x / s) for x in v)
        L.append(l)
    o["multichancefission.dat"] = "\n".join(L) + "\n"
    L, first = [], True
    for l in data("anisotropy.dat").splitlines():
        r = l.split()
        if l[:1] != "#" and r:
            if not first:
                l = r[0] + " " + " ".join("%.3f" % rng.choice([1.0, rng.uniform(1.0, 3.0), rng.uniform(0.3, 1.0)]) for x in r[1:])
            first = False
        L.append(l)
    o["anisotropy.dat"] = "\n".join(L) + "\n"
    L = []
    for l in data("spinscalingmodel.dat").splitlines():
        r = l.split()
        if l[:1] != "#" and len(r) >= 3:
            l = " %s %.2f %.3f" % (r[0], math.exp(rng.uniform(math.log(0.4), math.log(8))), rng.choice([rng.uniform(0, 0.3), rng.uniform(0, 1.5)]))
        L.append(l)
    o["spinscalingmodel.dat"] = "\n".join(L) + "\n"
    L = []
    for l in data("rta.dat").splitlines():
        r = l.split()
        if l[:1] != "#" and len(r) > 3:
            l = l[:18] + " ".join("%.3f" % rng.uniform(0.75, 1.6) for x in r[3:])
        L.append(l)
    o["rta.dat"] = "\n".join(L) + "\n"
    return o


class P(Prop):
    id = "P23"
    quick_n = 220
    thorough_n = 8000
    rule = ("one case = one process with twenty yields samples of 17 pairs for one or two requests, on the shipped model tables or on a simulated data directory with altered ones; "
            "a state is (target, rounded energy, pre-fission neutrons, heavy mass)")
    real = "library"
    assumptions = ("a deviation below what the ensemble resolves (probability bound 1e-10 per test) is not seen", "numbers in the yields file carry 6 significant digits",
                   "requests within 0.25 MeV of a fission barrier are left out of the count of pre-fission neutrons", "level scheme synthesised")

    def case(self, rng, i, tier):
        p = Plan(levels=rng.choice(["std", "gs", "empty"]))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        alt = i % 2 == 1
        if alt:
            p.files = {"/data/" + k: v for k, v in alter(rng).items()}
        ops = ["path /data"]
        req = []
        for _ in range(rng.choice([1, 1, 2])):
            z, e = pick_reaction(rng)
            if e == 0 and rng.random() < 0.4:
                z, e = rng.choice(O.NF), round(rng.uniform(0.01, 20.0), 2)
            if e and alt and rng.random() < 0.5:
                e = rng.choice([20.0, round(rng.uniform(12.0, 20.0), 2), round(rng.uniform(19.0, 20.0), 2)])
            req.append((z, e))
        for k in range(20):
            z, e = req[k % len(req)]
            ops += ["rng %d limit 4000000" % rng.randrange(1, 10 ** 9), "yields %d %s %d y%d" % (z, num(e), 17, k)]
        p.node("script", ops=ops)
        return p, dict(alt=alt, i=i)

    def judge(self, plan, m, res):
        global _base
        out, states, acc = [], set(), Acc()
        st = res.status(0, 0)
        if st[:2] != ("exit", 0):
            out.append(V("run", "process ended %r %s" % (st, res.err.get((0, 0), "")[-160:])))
        if m["alt"]:
            tab = Tables({k[6:]: (v.decode() if isinstance(v, bytes) else v) for k, v in plan.files.items()})
        else:
            _base = tab = _base or Tables({})
        n = 0
        for op in plan.phases[0][0]["ops"]:
            w = op.split()
            if w[0] != "yields":
                continue
            tx = text(res, 0, "/work/" + w[4])
            if tx is None:
                continue
            try:
                rows = parse(tx)
            except Bad as x:
                out.append(V("format", "yields file unreadable: %s" % x, op))
                continue
            z, e = int(w[1]), float(w[2])
            for k in range(0, len(rows) - 1, 2):
                bad = self.pair(tab, z, e, rows[k], rows[k + 1], k == 0, acc, states, "altered" if m["alt"] else "shipped", "case%d" % m["i"])
                n += 1
                if bad and len(out) < 4:
                    out.append(V("sharing", "pair %d: %s" % (k // 2 + 1, bad), op))
        return out, dict(evals=n, states=sorted(states), acc=acc, count={"pairs": n})

    def pair(self, tab, z, e, l, h, first, acc, states, src, case):
        z0, a0 = O.compound(z, e)
        zc, sf = 1000 * z0 + a0, e == 0
        n = a0 - l["A"] - h["A"]
        if not 0 <= n <= 3 or not O.finite_all([l, h]) or O.ME(l["Z"], l["A"]) is None or O.ME(h["Z"], h["A"]) is None:
            acc.add(("finite",), 1.0, 0.0)
            return None
        er = "sf" if sf else "low" if e < 5 else "mid" if e < 12 else "high"
        if first and not sf:
            p = tab.chances(z, e)
            if p:
                for j, q in enumerate(p):
                    if q > 0 or n == j:
                        for key in (("all", j), (src, er, j), (z, j)):
                            acc.add(("neutrons",) + key, (n == j) - q, q * (1 - q))
                for name, alt in (("upper", tab.chances(z, e, 1)), ("lower", tab.chances(z, e, 0)), ("target", tab.chances(sorted(tab.mcf)[sorted(tab.mcf).index(z) - 1], e))):
                    # weighted by the difference to a plausible other reading of the table, so that deviations of different tables do not cancel
                    if alt and len(alt) == len(p):
                        w = [max(-2.0, min(2.0, math.log((x + 1e-4) / (y + 1e-4)))) for x, y in zip(p, alt)]
                        m1 = sum(x * y for x, y in zip(w, p))
                        for key in ((src, name), (er, name)):
                            acc.add(("neutrons",) + key, (w[n] if n < len(w) else 0.0) - m1, sum(x * x * y for x, y in zip(w, p)) - m1 * m1, 4.0)
        ex = l["KE"] + h["KE"] + l["U"] + h["U"] - (O.ME(z0, a0 - n) - O.ME(l["Z"], l["A"]) - O.ME(h["Z"], h["A"]))
        ee = 0.0 if sf else e if n == 0 else ex - O.Sn(z0, a0 - n)
        ah = h["A"]
        states.add("%d.%d.%d.%d" % (z, round(e), n, ah))
        keys = (("all",), (src, er, "n%d" % n), (src, z, "sf" if sf else "n"), (case, z, e, "n%d" % n))
        for kind, k2 in (("mass", 0), ("massK2", 1)):
            s = tab.system(zc, n, sf, ee, k2)
            if s is None:
                continue
            b = bisect.bisect_right(MASS, ah) - 1
            dv = ah - s["m"]
            for key in keys:
                if ah not in s["ph"]:
                    acc.add((kind,) + key + ("none",), 1.0, 1e-4)
                acc.add((kind,) + key + ("mean",), dv, s["v"], 60.0)
                acc.add((kind,) + key + ("width",), dv * dv - s["v"], s["v2"], 3600.0)
                acc.add((kind,) + key + ("odd",), ah % 2 - s["odd"], s["odd"] * (1 - s["odd"]))
                s0, s1 = tab.system(zc, n, sf, ee, 0), tab.system(zc, n, sf, ee, 1)
                if s0 and s1 and not sf and ah in s["ph"]:      # likelihood ratio of the two readings: strongest where they differ
                    if "lr" not in s:
                        lr = {h: max(-2.0, min(2.0, math.log(max(s0["ph"].get(h, 0), 1e-6) / max(s1["ph"].get(h, 0), 1e-6)))) for h in s["ph"]}
                        m1 = sum(lr[h] * p for h, p in s["ph"].items())
                        s["lr"] = lr, m1, sum(lr[h] ** 2 * p for h, p in s["ph"].items()) - m1 * m1
                    lr, m1, v1 = s["lr"]
                    acc.add((kind,) + key + ("symmetric",), lr[ah] - m1, v1, 4.0)
                for j, q in enumerate(s["bins"]):
                    if q > 0 or j == b:
                        acc.add((kind,) + key + ("A%d" % MASS[j],), (j == b) - q, q * (1 - q))
        s = tab.system(zc, n, sf, ee, 1)
        if s and s["T"] and ah in s["T"]:
            mu, sd = s["T"][ah]
            cut = (ex + O.ME(z0, a0 - n) - O.ME(l["Z"], l["A"]) - O.ME(h["Z"], h["A"]) - mu) / sd if sd > 0.3 else 0
            if cut > 3:      # energetically allowed part of the normal distribution
                phi, Phi = math.exp(-cut * cut / 2) / math.sqrt(2 * math.pi), 0.5 * (1 + math.erf(cut / math.sqrt(2)))
                r = phi / Phi
                m1, m2 = -r, 1 - cut * r
                x = max(-6.0, min(6.0, (l["KE"] + h["KE"] - mu) / sd))
                hb = "A%d" % MASS[bisect.bisect_right(MASS, ah) - 1]
                for key in keys + ((src, hb),):
                    acc.add(("tke",) + key + ("mean",), x - m1, 1.0, 6.0)
                    acc.add(("tke",) + key + ("width",), x * x - m2, 2.0, 36.0)
                    acc.add(("tke",) + key + ("tail",), (abs(x) > 2) - 0.0455, 0.0455 * 0.9545)
        if not sf:
            a = tab.asym(z, e)
            if a is not None:
                ml, mh = O.M(l["Z"], l["A"]), O.M(h["Z"], h["A"])
                v = [x / ml - y / mh for x, y in zip(l["p"], h["p"])]
                q = O.norm(v)
                c2 = (v[2] / q) ** 2 if q else 0.0
                nn = 2 * (1 + (a - 1) / 3)
                m2 = 2 * (1 / 3.0 + (a - 1) / 5) / nn
                m4 = 2 * (1 / 5.0 + (a - 1) / 7) / nn
                up = (a - 1) > 0
                for key in keys + ((src, "fraction%d" % (round(e * 10) % 10)), (src, "more" if a > 1 else "less" if a < 1 else "even")):
                    acc.add(("angle",) + key, c2 - m2, m4 - m2 * m2)
        F = fixed()
        al = tab.strength(zc, n, sf, ee)
        for f, t in ((l, "L"), (h, "H")):
            za = 1000 * f["Z"] + f["A"]
            T, b2 = F.at(F.T, za, f["U"]), F.beta.get(za)
            if T is None or b2 is None:
                continue
            I = 0.4 * f["A"] ** (5 / 3.0) * 1.44 * 0.5 * (O.NM + 1.00727646688) * O.AMU * (1 + 0.31 * b2 + 0.44 * b2 * b2) * al
            B2 = I * T / HBARC ** 2
            m, v, low, m4 = spins(f["A"] % 2, round(B2, 1))
            x = f["J"]
            for key in keys + ((src, t, f["A"] % 2),):
                acc.add(("spin",) + key + (t, "mean"), (x - m) / m, v / (m * m), 50.0 / m)
                acc.add(("spin",) + key + (t, "square"), x * (x + 1) / m4 - 1, 1.0, 2500.0 / m4)
                acc.add(("spin",) + key + (t, "low"), (x < 2) - low, low * (1 - low))
        rt = tab.rta.get(z)
        if rt and rt[0] <= ah < rt[0] + len(rt[1]):
            R = rt[1][ah - rt[0]]
        elif z in (92234, 94238, 94244):
            R = 1.2
        else:
            return None
        # successive solutions of U_L a_H(U_H) / (U_H a_L(U_L)) = R_T^2, as the energies at which the level density
        # parameters are taken settle; the code may stop at any of them
        kl, kh, tx = 1000 * l["Z"] + l["A"], 1000 * h["Z"] + ah, l["U"] + h["U"]
        uh, seen = tx / 2, []
        for _ in range(12):
            pl, ph = F.at(F.a, kl, tx - uh), F.at(F.a, kh, uh)
            if not pl or not ph:
                return None
            uh = ph / (pl * R * R + ph) * tx
            if abs(uh - h["U"]) < 0.002 * tx:
                return None
            seen.append(uh)
        return "the fragments %d/%d %d/%d share %.4f and %.4f MeV where the tabulated temperature ratio %.4f gives %.4f to the heavy one" % (l["Z"], l["A"], h["Z"], ah, l["U"], h["U"], R, uh)

    def finish(self, accs):
        out = []
        m = merge(accs)
        dev = {}
        for k, (n, s, v, b) in sorted(m.items()):
            kind = k.split("/")[0]
            sl = SLACK.get("mass" if kind == "massK2" else kind, 0.0)
            if k.endswith("/width"):
                sl *= 30 if kind[:4] == "mass" else 3
            elif k.endswith("/mean") and kind[:4] == "mass":
                sl *= 5
            p = excess(n, s, v, b, sl)
            if p is not None:
                dev[k] = (n, s, v, p)
        say = lambda k: "%s: %d samples deviate by %+.4f on average from the tabulated model (%.1f standard deviations; probability below %.1e)" % (
            (k, dev[k][0], dev[k][1] / dev[k][0], abs(dev[k][1]) / math.sqrt(dev[k][2]) if dev[k][2] > 0 else 999, dev[k][3]))
        for k in dev:
            kind = k.split("/")[0]
            if kind == "massK2":
                continue
            if kind == "mass":
                if "massK2" + k[4:] in dev:
                    out.append(V("mass", say(k), k))
                else:
                    out.append(V("symmetric-width", say(k), k))
            else:
                out.append(V(kind, say(k), k))
        return out


_spins = {}


def spins(odd, B2):
    k = (odd, B2)
    if k not in _spins:
        x = [j + 0.5 * odd for j in range(50)]
        p = [(2 * y + 1) * math.exp(-y * (y + 1) / (2 * B2)) for y in x]
        s = sum(p)
        p = [y / s for y in p]
        m = sum(a * b for a, b in zip(x, p))
        _spins[k] = (m, sum((a - m) ** 2 * b for a, b in zip(x, p)), sum(b for a, b in zip(x, p) if a < 2), sum(a * (a + 1) * b for a, b in zip(x, p)))
    return _spins[k]


PROP = P()
