"""The history file and the printed summary report the generated events faithfully."""
from .driver import *

R3 = 0.000501


class P(Prop):
    id = "P11"
    quick_n = 700
    thorough_n = 14000
    rule = ("one case = one run of the command line driver whose history file and summary are compared value by value with the events themselves (as seen through the library interface at the same random stream, or as produced by the stand-in engine, which covers extreme multiplicities and values); "
            "a state is (engine, events, window given, pre-fission neutrons present, photons present)")
    real = "command line driver; about 1 case in 4 with the real physics library, the rest with a stand-in engine"
    stub = "operating system; physics engine in the stub cases; discreteLevels.dat synthesised"
    assumptions = ("numbers in the history file are rounded to the printed digits (3 decimals, spin 1, ages 6 significant digits); summary values to 2 decimals",)

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        p.dirs = ["/work/sub"]
        so, stub = engine(rng, False, 0.75)
        N = rng.choice([1, 1, 2, 3, 7, 25, 60]) if stub else rng.choice([1, 2, 4])
        if stub and rng.random() < 0.06:
            N = rng.choice([1000, 1001, 1599])
        if stub and i % 87 == 60:
            N = 12345
        z, e = pick_reaction(rng)
        s = rng.choice([None, 1, 5, 1000, rng.randrange(1, 10 ** 7)])
        if not stub and rng.random() < 0.5:
            z, e, s = pick_start(rng, N, 1.0)
        t = rng.choice([None, -1.0, 1e-8, 2.5e-7, 1e-3, 0.0])
        f, stem = pick_file(rng)
        a = argv(z, e, N, s, f, t, order=rng)
        p.node("main", so=so, argv=a)
        for _ in range(rng.choice([0, 0, 1])):
            p.fault(0, 0, "write", "-", rng.randrange(1, 5), rng.choice([1, 3]), "short", rng.choice([1, 50, 700]))
        if not stub:
            ops = ["path /data"]
            w = 1e-8 if t is None else t
            for k in range(N):
                ops += ["rng %d" % ((1 if s is None else s) + k), "event 0 %d %s 0 %s" % (z, num(e), num(w)), "del 0"]
            p.node("script", ops=ops)
        return p, dict(N=N, z=z, e=e, t=t, stub=stub, stem=stem)

    def judge(self, plan, m, res):
        where = "%d %g t=%s N=%d" % (m["z"], m["e"], m["t"], m["N"])
        out = []
        if res.status(0, 0)[:2] != ("exit", 0):
            return [V("run", "run ended %r %s" % (res.status(0, 0), res.err.get((0, 0), "")[-200:]), where)], {}
        if m["stub"]:
            evs = stub_events(res, 0, 0)
            w0 = 1e-8 if m["t"] is None else m["t"]
            for x in res.events(0, 0):
                if x.get("k") == "stub" and not (x["ev"]["zaid"] == m["z"] and x["ev"]["einc"] == m["e"] and x["time"] == 0 and (x["window"] == w0 or (w0 <= 0 and x["window"] <= 0))):
                    out.append(V("args", "driver asked for target %r energy %r time %r window %r" % (x["ev"]["zaid"], x["ev"]["einc"], x["time"], x["window"]), where))
                    break
        else:
            if res.status(1, 0)[:2] != ("exit", 0):
                return [V("run", "library run of the same events ended %r" % (res.status(1, 0),), where)], {}
            evs = [x["ev"] for x in res.events(1, 0) if "ev" in x]
        tx = text(res, 0, m["stem"] + ".0")
        if tx is None:
            return [V("file", "no history file %s.0 (files: %s)" % (m["stem"], sorted(res.files.get(0, {}))), where)], {}
        w = 1e-8 if m["t"] is None else m["t"]
        ages = w < 0
        try:
            hd, hs, used = parse_history(tx, ages)
        except Bad as x:
            return [V("format", "history file unreadable: %s" % x, where)], {}
        if used != len(tx):
            out.append(V("format", "trailing bytes in the history file: %r" % tx[used:used + 60], where))
        try:
            ok = len(hd) == 3 and int(hd[0]) == m["z"] and abs(float(hd[1]) - m["e"]) <= 1e-5 * abs(m["e"]) and abs(float(hd[2]) - w) <= 1e-5 * abs(w)
        except ValueError:
            ok = False
        if not ok:
            out.append(V("header", "header %r for target %d, energy %g, window %g" % (hd, m["z"], m["e"], w), where))
        if len(hs) != m["N"] or len(evs) != m["N"]:
            out.append(V("count", "%d events in the file, %d generated, %d requested" % (len(hs), len(evs), m["N"]), where))
        for k, (h, d) in enumerate(zip(hs, evs)):
            for msg in self.compare(h, d, ages):
                out.append(V("event", "event %d: %s" % (k + 1, msg), where))
                break
            if len(out) > 5:
                break
        if evs:
            sm = parse_summary(res.out.get((0, 0), ""))
            if sm is None:
                out.append(V("summary", "no complete summary printed", where))
            else:
                d = summary_diff(sm, averages(evs))
                if d:
                    out.append(V("summary", "summary differs from the averages of the events: %s" % "; ".join(d[:5]), where))
                o = res.out[(0, 0)]
                r = re.search(r"spontaneous fission of \(\s*(\d+),\s*(\d+)\)", o) if m["e"] == 0 else re.search(r"\(n,f\) on \(\s*(\d+),\s*(\d+)\) at En=\s*(\S+) MeV", o)
                if not r or int(r.group(1)) != m["z"] // 1000 or int(r.group(2)) != m["z"] % 1000 or (m["e"] > 0 and abs(float(r.group(3)) - m["e"]) > 0.0051 * m["e"]):
                    out.append(V("summary", "summary names another reaction than %d at %g MeV" % (m["z"], m["e"]), where))
        st = (m["stub"], m["N"], m["t"], any(d["np"] for d in evs), any(d["ng"] for d in evs), any(d["ng"] == 0 for d in evs), any(d["nn"] == 0 for d in evs))
        return out, dict(evals=len(evs) + 1, states=[st], count={"events": len(evs)})

    def compare(self, h, d, ages):
        off = goff = 0
        for tag in ("L", "H"):
            a, f = h[tag], d[tag]
            for q in ("A", "Z", "P", "nu", "nug"):
                if a[q] != f[q]:
                    yield "%s %s=%r, generated %r" % (tag, q, a[q], f[q])
            for q, tol in (("U", R3), ("KE", R3), ("KEp", R3), ("J", 0.0501)):
                if not abs(a[q] - f[q]) <= tol:
                    yield "%s %s=%r, generated %r" % (tag, q, a[q], f[q])
            for q in ("pre", "post"):
                if any(not abs(x - y) <= R3 for x, y in zip(a[q], f[q])):
                    yield "%s momentum %s %r, generated %r" % (tag, q, a[q], f[q])
            if a["nu"] == f["nu"] and a["nug"] == f["nug"]:
                for k in range(f["nu"]):
                    for q, c in (("cm", ("cu", "cv", "cw", "cE")), ("lab", ("nu_", "nv", "nw", "nE"))):
                        y = [d[x][off + k] for x in c]
                        if any(not abs(x - z) <= R3 for x, z in zip(a[q][k], y)):
                            yield "%s %s neutron %d %r, generated %r" % (tag, q, k, a[q][k], y)
                for k in range(f["nug"]):
                    y = [d[x][goff + k] for x in ("gu", "gv", "gw", "gE")]
                    if any(not abs(x - z) <= R3 for x, z in zip(a["g"][k], y)):
                        yield "%s photon %d %r, generated %r" % (tag, k, a["g"][k], y)
                    if ages and not abs(a["g"][k][4] - d["gt"][goff + k]) <= 1e-5 * abs(d["gt"][goff + k]):
                        yield "%s photon %d age %r, generated %r" % (tag, k, a["g"][k][4], d["gt"][goff + k])
            off += f["nu"]; goff += f["nug"]
        if len(h["p"]) != d["np"]:
            yield "%d pre-fission neutrons, generated %d" % (len(h["p"]), d["np"])
        else:
            for k in range(d["np"]):
                y = [d[x][k] for x in ("pu", "pv", "pw", "pE")]
                if any(not abs(x - z) <= R3 for x, z in zip(h["p"][k], y)):
                    yield "pre-fission neutron %d %r, generated %r" % (k, h["p"][k], y)

    def shrink(self, plan, m):
        if m["N"] > 1 and m["stub"]:
            for nn in sorted(set([1, 2, m["N"] // 2, m["N"] - 1])):
                if 0 < nn < m["N"]:
                    q = plan.clone(); mm = dict(m); mm["N"] = nn
                    a = q.phases[0][0]["argv"]; a[a.index("-n") + 1] = str(nn)
                    yield q, mm


PROP = P()
