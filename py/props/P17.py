"""CGMFtk reads back exactly the events of a history or yields file, and never an altered or partial event."""
import subprocess, os, json, sys, tempfile
from .driver import *
import simlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def numpy_python():
    for p in ("python3-vt", "/opt/veriftools/pyvenv/bin/python3", "/opt/vp/venv/bin/python", sys.executable):
        try:
            if subprocess.run([p, "-c", "import numpy"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                return p
        except OSError:
            pass
    raise simlib.SimError("no Python with numpy")


_py = []


def toolkit(content, kind, nevents, chunks, eio, ask):
    if not _py:
        _py.append(numpy_python())
    ctx = simlib.setup()
    fd, path = tempfile.mkstemp(dir=ctx["tmp"], suffix=".cgmf")
    os.write(fd, content); os.close(fd)
    try:
        q = dict(tools=os.path.join(simlib.REPO, "tools"), kind=kind, path=path, nevents=nevents, chunks=chunks, eio=eio, ask=ask)
        p = subprocess.run([_py[0], "-B", os.path.join(HERE, "tkread.py")], input=json.dumps(q).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, cwd=ctx["tmp"],
                           env={"PATH": os.environ.get("PATH", ""), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
        last = p.stdout.decode("utf8", "replace").strip().splitlines()
        try:
            return json.loads(last[-1])
        except Exception:
            if p.returncode not in (0, 1):
                return dict(ok=False, exc="process ended %d" % p.returncode, reads=0, short=0)
            raise simlib.SimError("reader gave no answer: rc=%d %s" % (p.returncode, p.stderr.decode()[-400:]))
    finally:
        os.unlink(path)


def same(a, b, tol=1e-9):
    """a: answer, b: expected."""
    if isinstance(b, (list, tuple)):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (list, str)) or a is None:
        return False
    if isinstance(b, float) and b != b:
        return a != a
    return abs(a - b) <= tol * max(1.0, abs(b))


def mean(l):
    return sum(l) / len(l) if l else float("nan")


def expect_hist(evs, window):
    """Reference: (method, kwargs, expected) for the events of a file (parsed independently)."""
    F = [f for e in evs for f in (e["L"], e["H"])]
    N = len(evs)
    E = []

    def ex(name, val, **kw):
        E.append((name, kw, val))
    for nm, k in (("A", "A"), ("Z", "Z"), ("U", "U"), ("J", "J"), ("P", "P"), ("KEpre", "KE"), ("KEpost", "KEp"), ("Nu", "nu"), ("Nug", "nug")):
        ex("get" + nm, [f[k] for f in F])
    ex("getN", [f["A"] - f["Z"] for f in F])
    ex("getNumberEvents", N); ex("getNumberFragments", 2 * N); ex("getTimeCoincidenceWindow", window)
    for s, t in (("LF", "L"), ("HF", "H")):
        for nm, k in (("A", "A"), ("Z", "Z"), ("U", "U"), ("J", "J"), ("P", "P"), ("KE", "KE"), ("Nu", "nu"), ("Nug", "nug")):
            ex("get" + nm + s, [e[t][k] for e in evs])
        ex("getN" + s, [e[t]["A"] - e[t]["Z"] for e in evs])
    ex("getNuEvent", [e["L"]["nu"] + e["H"]["nu"] for e in evs])
    ex("getNutot", [e["L"]["nu"] + e["H"]["nu"] + len(e["p"]) for e in evs])
    ex("getNugtot", [e["L"]["nug"] + e["H"]["nug"] for e in evs])
    ex("getPreFissionNu", [len(e["p"]) for e in evs])
    ex("getTKEpre", [e["L"]["KE"] + e["H"]["KE"] for e in evs]); ex("getTKEpost", [e["L"]["KEp"] + e["H"]["KEp"] for e in evs])
    ex("getTXE", [e["L"]["U"] + e["H"]["U"] for e in evs])
    ex("getNeutronElab", [[n[3] for n in f["lab"]] for f in F]); ex("getNeutronEcm", [[n[3] for n in f["cm"]] for f in F])
    ex("getLabNeutronDircos", [[n[:3] for n in f["lab"]] for f in F]); ex("getcmNeutronDircos", [[n[:3] for n in f["cm"]] for f in F])
    ex("getGammaElab", [[g[3] for g in f["g"]] for f in F])
    ex("getGammaAges", [[g[4] if len(g) > 4 else 0.0 for g in f["g"]] for f in F])
    ex("getPreFissionNeutronElab", [[n[3] for n in e["p"]] or [0.0] for e in evs])
    ex("getPreFissionNeutronDircos", [[n[:3] for n in e["p"]] or [[0.0, 0.0, 0.0]] for e in evs])
    ex("getFragmentMomentumPre", [f["pre"] for f in F]); ex("getFragmentMomentumPost", [f["post"] for f in F])
    # averages
    nu = [f["nu"] for f in F]; pn = [len(e["p"]) for e in evs]
    tot = [e["L"]["nu"] + e["H"]["nu"] + len(e["p"]) for e in evs]; gtot = [e["L"]["nug"] + e["H"]["nug"] for e in evs]
    ex("nubar", mean(nu)); ex("nubartot", mean(tot)); ex("preFissionNubar", mean(pn))
    G = [g for f in F for g in f["g"]]
    for th in (None, 0.2, 1.0):
        t = 0.0 if th is None else th
        kw = {} if th is None else dict(Eth=th)
        ex("nubarg", sum(g[3] >= t for g in G) / (2.0 * N), **kw)
        ex("nubargtot", sum(g[3] >= t for g in G) / float(N), **kw)
        dist = lambda l: [list(range(max(l) + 1)), [l.count(k) / float(N) for k in range(max(l) + 1)]]
        ex("Pnug", dist([sum(g[3] >= t for x in "LH" for g in e[x]["g"]) if th is not None else e["L"]["nug"] + e["H"]["nug"] for e in evs]), **kw)
        ex("Pnu", dist([sum(n[3] >= t for x in "LH" for n in e[x]["lab"]) + sum(n[3] >= t for n in e["p"]) if th is not None else k for e, k in zip(evs, tot)]), **kw)
        if th is not None:
            ex("getNuEnergyCut", [sum(n[3] > th for n in f["lab"]) for f in F], Eth=th)
            ex("getNugEnergyCut", [sum(g[3] > th for g in f["g"]) for f in F], Eth=th)
    age = lambda g: g[4] if len(g) > 4 else 0.0
    times = [1e-9, 1e-8, 3e-7, 1e-3, 1.0]
    for th in (None, 0.3):
        kw = {} if th is None else dict(Eth=th)
        v = [times, [sum(age(g) <= x and g[3] >= (th or 0.0) for g in G) / float(N) for x in times]]
        for f in ("nubarg", "nubargtot"):
            ex(f, v, timeWindow=times, **kw); ex(f, v, timeWindow={"np": times}, **kw)
    neut = lambda t, k: [n[3] for e in evs for n in e[t][k]]
    P = [n[3] for e in evs for n in e["p"]]
    LL, LH, CL, CH = neut("L", "lab"), neut("H", "lab"), neut("L", "cm"), neut("H", "cm")
    for nm, l in (("meanNeutronElabLF", LL), ("meanNeutronElabHF", LH), ("meanNeutronElabFragments", LL + LH), ("meanNeutronEcmLF", CL), ("meanNeutronEcmHF", CH),
                  ("meanNeutronEcmFragments", CL + CH), ("meanNeutronElab", LL + LH + P), ("meanGammaElab", [g[3] for g in G]),
                  ("meanGammaElabLF", [g[3] for e in evs for g in e["L"]["g"]]), ("meanGammaElabHF", [g[3] for e in evs for g in e["H"]["g"]])):
        if l:
            ex(nm, mean(l))
    ex("meanPreFissionNeutronElab", mean(P) if P else 0.0)
    As = sorted(set(f["A"] for f in F))

    def byA(val, hi):
        xs = list(range(As[0], As[-1] + hi))
        return [xs, [mean([val(f) for f in F if f["A"] == a]) if a in As else 0.0 for a in xs]]
    # the mass-dependent averages cover every mass but the heaviest
    ex("nubarA", byA(lambda f: f["nu"], 0)); ex("UA", byA(lambda f: f["U"], 0)); ex("spinA", byA(lambda f: f["J"], 0))
    tk = {id(f): e["L"]["KE"] + e["H"]["KE"] for e in evs for f in (e["L"], e["H"])}
    ex("TKEA", byA(lambda f: tk[id(f)], 0)); ex("nubargA", byA(lambda f: f["nug"], 1))
    nz = lambda l: len(l) > 0
    if nz(LL) and nz(LH):
        c = lambda t: [n[2] for e in evs for n in e[t]["lab"]]
        ex("nangles", [c("L") + c("H") + [n[2] for e in evs for n in e["p"]], c("L"), c("H")])
        ex("nangles", [c("L") + c("H"), c("L"), c("H")], includePrefission=False)
        cc = lambda t: [n[2] for e in evs for n in e[t]["cm"]]
        ex("nangles", [cc("L") + cc("H"), cc("L"), cc("H")], lab=False)
    unit = lambda v: [x / math.sqrt(sum(y * y for y in v)) for x in v]
    if all(any(f[k]) for f in F for k in ("pre", "post")):
        ex("FFangles", [unit(f["post"])[2] for f in F]); ex("FFangles", [unit(f["pre"])[2] for f in F], afterEmission=False)
        if nz(LL) and nz(LH):
            for k, kw in (("post", {}), ("pre", dict(afterEmission=False))):
                d = lambda e, n: sum(a * b for a, b in zip(unit(e["L"][k]), n))
                l = [d(e, n) for e in evs for n in e["L"]["lab"]]; hh = [d(e, n) for e in evs for n in e["H"]["lab"]]
                ex("nFangles", [l + hh + [d(e, n) for e in evs for n in e["p"]], l, hh], **kw)
    # energy spectra as histograms per unit energy
    def spectrum(l, lo, hi, n, scale):
        ed = [10 ** (lo + (hi - lo) * k / (n - 1)) for k in range(n)]
        h = [0] * (n - 1)
        for x in l:
            for k in range(n - 1):
                if ed[k] <= x < ed[k + 1] or (k == n - 2 and x == ed[-1]):
                    h[k] += 1; break
        s = float(sum(h))
        return [[(a + b) / 2 for a, b in zip(ed, ed[1:])], [c / (b - a) / s * scale for c, a, b in zip(h, ed, ed[1:])]] if s else None
    for nm, l, a in (("pfns", LL + LH + P, (-3, 2, 100, 1.0)), ("pfgs", [g[3] for g in G], (-1, 1, 200, mean(gtot)))):
        s = spectrum(l, *a) if len(l) < 4000 else None
        if s:
            ex(nm, s)
    # bins of 1 MeV from the smallest total kinetic energy; the last one is not filled
    T = [e["L"]["KE"] + e["H"]["KE"] for e in evs]
    xs = []
    while min(T) + len(xs) < max(T):
        xs.append(min(T) + len(xs))
    if len(xs) > 1 and all(abs(t - min(T) - round(t - min(T))) > 1e-6 or t == min(T) for t in T):
        def byT(val):
            y = []
            for a, b in zip(xs, xs[1:]):
                l = [v for t, e in zip(T, evs) if a <= t < b for v in val(e)]
                y.append(mean(l) if l else 0.0)
            return [xs, y + [0.0]]
        ex("nubarTKE", byT(lambda e: [e["L"]["nu"] + e["H"]["nu"]])); ex("nubargTKE", byT(lambda e: [e["L"]["nug"] + e["H"]["nug"]]))
        ex("UTKE", byT(lambda e: [e["L"]["U"], e["H"]["U"]])); ex("spinTKE", byT(lambda e: [e["L"]["J"], e["H"]["J"]]))
    return E


def expect_yields(rows):
    E = []
    N = len(rows) // 2

    def ex(name, val, **kw):
        E.append((name, kw, val))
    for nm, k in (("Z", 0), ("A", 1), ("KE", 2), ("U", 3), ("J", 4), ("P", 5)):
        ex("get" + nm, [r[k] for r in rows])
        ex("get" + nm + "LF", [r[k] for r in rows[::2]]); ex("get" + nm + "HF", [r[k] for r in rows[1::2]])
    ex("getN", [r[1] - r[0] for r in rows]); ex("getNumberEvents", N); ex("getNumberFragments", 2 * N)
    ex("getTXE", [a[3] + b[3] for a, b in zip(rows[::2], rows[1::2])]); ex("getTKE", [a[2] + b[2] for a, b in zip(rows[::2], rows[1::2])])
    ex("getFragmentMomentum", [r[6:9] for r in rows])
    return E


class P(Prop):
    id = "P17"
    quick_n = 420
    thorough_n = 12000
    rule = ("one case = a run of the driver (serial or MPI, history or yields, real or stand-in engine, sometimes killed in the middle) and the real CGMFtk reader on the file it left (or on the concatenated rank files), over simulated raw reads that may be short or fail at some byte; "
            "every getter and average is compared with an independent parse of the complete events; a state is (kind, how the file was damaged, events, nevents given, window sign, outcome)")
    real = "command line driver, physics library (about 1 case in 3) and CGMFtk (Python, real numpy)"
    stub = "operating system under the driver; raw file reads under the toolkit; physics engine in the stub cases; discreteLevels.dat synthesised"
    assumptions = ("files as written by the driver of the same tree, whole or cut short; no hand-edited files", "mass- and kinetic-energy-dependent averages leave out the last bin, as they do today")

    def case(self, rng, i, tier):
        p = Plan(levels=pick_levels(rng))
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        kind = "hist" if rng.random() < 0.78 else "yields"
        z, e = pick_reaction(rng)
        t = rng.choice([None, -1.0, -1.0, 1e-8, 2.5e-7, 0.0])
        R = 1
        s = rng.choice([None, 1, rng.randrange(1, 10 ** 6)])
        if kind == "yields":
            N = rng.choice([1, 1, 2, 3, 10, 40])
            p.node("main", argv=argv(z, e, -N, s, "o", None))
            stub = False
        else:
            R = rng.choice([1, 1, 1, 2, 3])
            so, stub = engine(rng, R > 1, 0.7)
            N = rng.choice([1, 1, 2, 3, 7, 25, 60]) if stub else rng.choice([1, 1, 2, 4])
            if not stub and rng.random() < 0.5:
                z, e, s = pick_start(rng, N, 1.0)
            for r in range(R):
                p.node("mpi" if R > 1 else "main", so=so, argv=argv(z, e, N, s, "o", t), new_phase=(r == 0))
            p.sched = "random %d 0.3" % rng.randrange(1, 10 ** 6)
        dmg = rng.choice(["none", "none", "none", "none", "none", "kill", "cut", "cut", "cut", "cutline", "eio", "headless"])
        if dmg == "headless" and (kind == "yields" or R == 1):
            dmg = "none"
        if dmg == "kill" and (R > 1 or kind == "yields"):
            dmg = "cut"
        if dmg == "kill":
            p.fault(0, 0, "write", "/work", rng.choice([1, 1, 2, 3]), 1, "torn", rng.choice([1, 10, 200, 1000, 3000]))
        tot = N * R
        k = rng.choice([None, None, None, 1, 2, tot, max(1, tot - 1), tot + 5])
        return p, dict(kind=kind, N=N, R=R, z=z, e=e, t=t, stub=stub, dmg=dmg, frac=rng.random(), tail=rng.choice([None, 1, 2, 3, 4, 5, 8, 30]), nevents=k, chunks=rng.choice([0, rng.randrange(1, 10 ** 6)]))

    def judge(self, plan, m, res):
        where = "%s %d %g t=%s N=%dx%d %s nevents=%s" % (m["kind"], m["z"], m["e"], m["t"], m["R"], m["N"], m["dmg"], m["nevents"])
        if m["dmg"] != "kill" and not jobs_ok(res, 0):
            return [V("run", "run ended %r %s" % (ends(res, 0), res.err.get((0, 0), "")[-160:]), where)], {}
        fs = [text(res, 0, "/work/o.%d" % r) for r in range(m["R"])]
        if any(f is None for f in fs):
            if m["dmg"] == "kill":
                return [], {}
            return [V("run", "no output file", where)], {}
        full = "".join(fs)
        tx = full
        eio = None
        if m["dmg"] == "headless":
            tx = "".join(fs[1:])
        elif m["dmg"] == "cut":
            tx = tx[:len(tx) - m["tail"]] if m["tail"] else tx[:int(m["frac"] * len(tx))]
        elif m["dmg"] == "cutline":
            l = tx.splitlines(True); tx = "".join(l[:int(m["frac"] * (len(l) + 1))])
        elif m["dmg"] == "eio":
            eio = int(m["frac"] * (len(tx) + 1))
        out = []
        w = 1e-8 if m["t"] is None else m["t"]
        if m["kind"] == "hist":
            try:
                hd, evs, used = parse_history(tx, w < 0, header=(m["dmg"] != "headless"))
            except Bad as x:
                hd, evs, used = None, [], 0
                if m["dmg"] in ("none", "eio"):
                    return [V("format", "history file unreadable: %s" % x, where)], {}
            n = len(evs)
        else:
            rows = [[float(x) for x in l.split()] for l in tx[:tx.rfind("\n") + 1].splitlines() if l.strip() and not l.lstrip().startswith("#")]
            n = len(rows) // 2
            used = len(tx) if tx.endswith("\n") and len(rows) % 2 == 0 else -1
        k = n if m["nevents"] is None else min(n, m["nevents"])
        ask = []
        if k > 0:
            E = expect_hist(evs[:k], w) if m["kind"] == "hist" else expect_yields(rows[:2 * k])
            ask = E
        a = toolkit(tx.encode("latin1"), m["kind"], m["nevents"], m["chunks"], eio, [[x[0], x[1]] for x in ask] or [["getNumberEvents", {}]])
        if a["short"]:
            res.injected["tk:short_read"] = res.injected.get("tk:short_read", 0) + a["short"]
        if m["dmg"] != "none":
            res.injected["tk:" + m["dmg"]] = res.injected.get("tk:" + m["dmg"], 0) + 1
        whole = used == len(tx) and n > 0 and m["dmg"] not in ("headless", "eio")
        if m["dmg"] == "headless":
            if a["ok"]:
                out.append(V("accepted", "a file without header was read as a history", where))
        elif not a["ok"]:
            if whole:
                out.append(V("refused", "complete file refused: %s" % a["exc"], where))
        elif k == 0:
            if a["ans"][0] != ["v", 0]:
                out.append(V("accepted", "events read from a file that contains none: %r" % (a["ans"][0],), where))
        else:
            if m["dmg"] == "eio" and m["nevents"] is None and eio < len(tx):
                out.append(V("accepted", "results returned although the file could not be read beyond byte %d of %d" % (eio, len(tx)), where))
            for (name, kw, want), got in zip(ask, a["ans"]):
                if got[0] == "e":
                    out.append(V("method", "%s(%s) failed: %s" % (name, kw, got[1]), where))
                elif not same(got[1], want):
                    out.append(V("value", "%s(%s) = %s, the file says %s" % (name, kw, str(got[1])[:120], str(want)[:120]), where))
        return out, dict(evals=len(ask) + 1, states=[(m["kind"], m["dmg"], m["R"] > 1, k, m["nevents"] is None, w < 0, a["ok"])], count={"refused": int(not a["ok"]), "events_read": k if a["ok"] else 0, "values_compared": len(ask) if a["ok"] else 0})

    def shrink(self, plan, m):
        if m["N"] > 1:
            for nn in sorted(set([1, 2, m["N"] // 2, m["N"] - 1])):
                if 0 < nn < m["N"]:
                    q = plan.clone(); mm = dict(m); mm["N"] = nn
                    for nd in q.phases[0]:
                        a = nd["argv"]; a[a.index("-n") + 1] = str(nn if m["kind"] == "hist" else -nn)
                    yield q, mm
        if m["chunks"]:
            yield plan.clone(), dict(m, chunks=0)
        if m["nevents"] is not None:
            yield plan.clone(), dict(m, nevents=None)


PROP = P()
