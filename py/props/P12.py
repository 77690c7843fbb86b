"""Yields mode: the sampled scission fragments conserve nucleons, charge, energy and momentum, and extend reproducibly."""
from .driver import *


def parse(tx):
    rows = []
    if tx and not tx.endswith("\n"):
        raise Bad("last line incomplete")
    for l in tx.splitlines():
        w = l.split()
        if len(w) != 9:
            raise Bad("line with %d fields: %r" % (len(w), l[:80]))
        try:
            rows.append(dict(Z=int(w[0]), A=int(w[1]), KE=float(w[2]), U=float(w[3]), J=float(w[4]), P=int(w[5]), p=[float(x) for x in w[6:]]))
        except ValueError as x:
            raise Bad("unreadable number: %s" % x)
    return rows


class P(Prop):
    id = "P12"
    quick_n = 300
    thorough_n = 9000
    rule = ("one case = yields runs of N and M > N pairs with the same seed through the driver and through the library after a random prior history, and the fission event of the same seed; "
            "a state is (target, rounded energy, pairs, pre-fission neutrons)")
    real = "command line driver and library"
    assumptions = ("numbers in the yields file carry 6 significant digits",)

    def case(self, rng, i, tier):
        p = Plan(levels=rng.choice(["std", "gs", "empty"]))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        p.dirs = ["/work/sub"]
        z, e = pick_reaction(rng)
        s = rng.choice([1, 1, 7, rng.randrange(1, 10 ** 6)])
        N = rng.choice([1, 2, 5, 30, 120])
        M = N + rng.choice([1, 10, 200])
        if i % 75 == 40:   # long samples
            N = rng.choice([1000, 1025] if tier == "quick" else [1000, 2050, 4200])
            M = N + 1
        f, stem = pick_file(rng)
        if f is None:
            stem = "/work/yields.cgmf"
        p.node("main", argv=argv(z, e, -N, s, f, rng.choice([None, -1.0]), order=rng))
        if rng.random() < 0.3:
            p.fault(0, 0, "write", "-", 1, rng.choice([1, 4, -1]), "short", rng.choice([11, 200, 3000]))
        p.node("main", argv=argv(z, e, -M, s, "m"))
        ops = ["path /data", "rng %d" % s, "event 0 %d %s 0 -1" % (z, num(e)), "del 0"]
        for _ in range(rng.choice([0, 1, 2])):
            z2, e2 = pick_reaction(rng) if rng.random() < 0.5 else near(rng, z, e)
            ops += ["rng %d" % rng.randrange(10 ** 6), rng.choice(["event 0 %d %s 0 1e-8" % (z2, num(e2)), "yields %d %s 3 other" % (z2, num(e2))])]
        ops += ["rng %d" % s, "yields %d %s %d lib" % (z, num(e), N)]
        p.node("script", ops=ops)
        return p, dict(z=z, e=e, N=N, M=M, stem=stem + ".0")

    def judge(self, plan, m, res):
        z, e, N = m["z"], m["e"], m["N"]
        where = "%d %g N=%d" % (z, e, N)
        out = []
        for ph in range(3):
            if res.status(ph, 0)[:2] != ("exit", 0):
                return [V("run", "run %d ended %r %s" % (ph, res.status(ph, 0), res.err.get((ph, 0), "")[-200:]), where)], {}
        a, b, c = text(res, 0, m["stem"]), text(res, 1, "/work/m.0"), text(res, 2, "/work/lib")
        if a is None or b is None or c is None:
            return [V("file", "yields file missing (%s)" % [sorted(res.files.get(k, {})) for k in range(3)], where)], {}
        try:
            ra, rb = parse(a), parse(b)
        except Bad as x:
            return [V("format", "yields file unreadable: %s" % x, where)], {}
        if len(ra) != 2 * N or len(rb) != 2 * m["M"]:
            out.append(V("count", "%d and %d lines for %d and %d pairs" % (len(ra), len(rb), N, m["M"]), where))
        if not b.startswith(a):
            out.append(V("prefix", "the first %d pairs of a run of %d differ from a run of %d pairs with the same seed" % (N, m["M"], N), where))
        if c != a:
            out.append(V("library", "library and driver disagree on the yields of the same seed", where))
        ev = next((x["ev"] for x in res.events(2, 0) if "ev" in x), None)
        z0, a0 = O.compound(z, e)
        pre = set()
        for k in range(0, len(rb) - 1, 2):
            l, h = rb[k], rb[k + 1]
            np = a0 - l["A"] - h["A"]
            pre.add(np)
            bad = None
            if l["Z"] + h["Z"] != z0:
                bad = "charge %d+%d != %d" % (l["Z"], h["Z"], z0)
            elif np < 0 or (e == 0 and np) or np > 4:
                bad = "nucleons %d+%d of %d" % (l["A"], h["A"], a0)
            elif l["A"] > h["A"]:
                bad = "light fragment heavier than heavy one"
            else:
                for f in (l, h):
                    if O.ME(f["Z"], f["A"]) is None or f["A"] <= f["Z"]:
                        bad = "impossible nucleus Z=%d A=%d" % (f["Z"], f["A"])
                    elif f["P"] not in (-1, 1) or f["J"] < 0 or (2 * f["J"]) % 1 or int(2 * f["J"]) % 2 != f["A"] % 2:
                        bad = "spin/parity %r %r of A=%d" % (f["J"], f["P"], f["A"])
                    elif not (0 < f["KE"] < 200 and 0 <= f["U"] < 150) or not O.finite_all(f["p"]):
                        bad = "energies %r %r momentum %r" % (f["KE"], f["U"], f["p"])
            if not bad:
                q = O.ME(z0, a0 - np) - O.ME(l["Z"], l["A"]) - O.ME(h["Z"], h["A"])
                es = l["KE"] + h["KE"] + l["U"] + h["U"] - q
                if np == 0:
                    want = 0.0 if e == 0 else e + O.Sn(z0, a0)
                    if abs(es - want) > 0.005:
                        bad = "energy balance: TKE+TXE-Q = %r, expected %r" % (es, want)
                else:
                    lo, hi = -0.2, e + O.Sn(z0, a0) - sum(O.Sn(z0, a0 - j) for j in range(np)) + 0.2
                    if not lo <= es <= hi:
                        bad = "energy balance: TKE+TXE-Q = %r outside [%r,%r]" % (es, lo, hi)
                if np == 0:
                    pc = [0, 0, math.sqrt(2 * O.MN * e)]
                    if any(abs(x + y - w) > 0.02 + 1e-5 * (abs(x) + abs(y)) for x, y, w in zip(l["p"], h["p"], pc)):
                        bad = "momenta %r + %r do not add up to %r" % (l["p"], h["p"], pc)
                ml, mh = O.M(l["Z"], l["A"]), O.M(h["Z"], h["A"])
                if not bad and abs(l["KE"] * ml - h["KE"] * mh) > 0.002 * ml:
                    bad = "kinetic energies not shared as inverse masses"
            if bad:
                out.append(V("pair", "pair %d: %s" % (k // 2 + 1, bad), where))
                if len(out) > 4:
                    break
        if len(pre) > 1 or (e > 0 and len(pre) == 1 and False):
            pass
        if ev is not None and ra and not out:
            for f, r in (("L", ra[0]), ("H", ra[1])):
                F = ev[f]
                rel = lambda x, y: abs(x - y) <= 1e-5 * abs(y) + 1e-9
                if r["Z"] != F["Z"] or r["A"] != F["A"] or r["P"] != F["P"] or not rel(r["KE"], F["KE"]) or not rel(r["U"], F["U"]) or not rel(r["J"], F["J"]) or not all(rel(x, y) for x, y in zip(r["p"], F["pre"])):
                    out.append(V("event", "first pair of the yields run differs from the initial fragments of the event with the same seed: %r, %r" % (r, {q: F[q] for q in ("Z", "A", "KE", "U", "J", "P", "pre")}), where))
        return out, dict(evals=m["N"] + m["M"], states=[(z, round(e), N, tuple(sorted(pre)))], count={"pairs": N + m["M"]})

    def shrink(self, plan, m):
        for nn in (1, m["N"] // 2):
            if 0 < nn < m["N"]:
                q = plan.clone(); mm = dict(m); mm["N"] = nn
                a = q.phases[0][0]["argv"]; a[a.index("-n") + 1] = str(-nn)
                o = q.phases[2][0]["ops"]
                w = o[-1].split(); w[3] = str(nn); o[-1] = " ".join(w)
                yield q, mm


PROP = P()
