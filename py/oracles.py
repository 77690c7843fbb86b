"""Conservation and kinematics oracles over complete event records."""
import math, os

AMU = 931.494013
NM = 1.00866491578
MN = NM * AMU
_ME = {}
SF = (94238, 94240, 94242, 94244, 98252, 98254)
NF = (92233, 92234, 92235, 92238, 93237, 94239, 94241)
MAXN, MAXG = 10, 50


def ME(z, a):
    if not _ME:
        for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "masses.ref")):
            if l[0] != "#":
                k, v = l.split()
                _ME[int(k)] = float(v)
    return _ME.get(1000 * z + a)


def M(z, a):
    return a * AMU + ME(z, a)


def Sn(z, a):
    return ME(z, a - 1) + ME(0, 1) - ME(z, a)


def compound(zaid, einc):
    z, a = zaid // 1000, zaid % 1000
    return z, a + (1 if einc > 0 else 0)


def finite_all(x):
    if isinstance(x, float):
        return math.isfinite(x)
    if isinstance(x, dict):
        return all(finite_all(v) for v in x.values())
    if isinstance(x, list):
        return all(finite_all(v) for v in x)
    return True


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return math.sqrt(dot(a, a))


# ---------------------------------------------------------------- P06 -------
def nucleons(ev, zaid, einc):
    """Charge and nucleon number are conserved; multiplicities add up."""
    out = []
    z0, a0 = compound(zaid, einc)
    l, h = ev["L"], ev["H"]
    if l["Z"] + h["Z"] != z0:
        out.append("charge: Z_L+Z_H=%d+%d != %d" % (l["Z"], h["Z"], z0))
    if l["A"] + h["A"] + ev["np"] != a0:
        out.append("nucleons: A_L+A_H+n_pre=%d+%d+%d != %d" % (l["A"], h["A"], ev["np"], a0))
    if ev["nn"] != l["nu"] + h["nu"]:
        out.append("neutron count %d != %d+%d" % (ev["nn"], l["nu"], h["nu"]))
    if ev["ng"] != l["nug"] + h["nug"]:
        out.append("photon count %d != %d+%d" % (ev["ng"], l["nug"], h["nug"]))
    if ev["np"] < 0 or (einc == 0 and ev["np"] != 0):
        out.append("pre-fission multiplicity %d" % ev["np"])
    for t, f in (("light", l), ("heavy", h)):
        if f["nu"] < 0 or f["nug"] < 0:
            out.append("negative multiplicity in %s fragment" % t)
        n = f["A"] - f["nu"] - f["Z"]
        if f["Z"] <= 0 or f["A"] <= f["Z"] or n <= 0:
            out.append("impossible %s fragment Z=%d A=%d nu=%d" % (t, f["Z"], f["A"], f["nu"]))
        elif ME(f["Z"], f["A"]) is None or ME(f["Z"], f["A"] - f["nu"]) is None:
            out.append("unbound %s product Z=%d A=%d nu=%d" % (t, f["Z"], f["A"], f["nu"]))
    if l["A"] > h["A"]:
        out.append("light fragment heavier than heavy fragment (%d > %d)" % (l["A"], h["A"]))
    return out


# ---------------------------------------------------------------- P09 -------
def wellformed(ev, zaid, einc, time=0.0):
    out = []
    if not finite_all({k: v for k, v in ev.items() if k != "oob"}):
        out.append("non-finite value in event")
        return out
    if ev["nn"] > 2 * MAXN or ev["ng"] > 2 * MAXG:
        out.append("multiplicity out of range")
        return out
    for t, f in (("light", ev["L"]), ("heavy", ev["H"])):
        if f["P"] not in (-1, 1):
            out.append("%s parity %r" % (t, f["P"]))
        tw = 2 * f["J"]
        if tw < 0 or abs(tw - round(tw)) > 1e-6 or int(round(tw)) % 2 != f["A"] % 2:
            out.append("%s fragment A=%d spin %r" % (t, f["A"], f["J"]))
        if f["J"] > 60:
            out.append("%s fragment spin %r" % (t, f["J"]))
        if f["U"] < 0 or f["U"] > 150:
            out.append("%s excitation %r" % (t, f["U"]))
        if not (0 < f["KE"] < 200) or not (0 < f["KEp"] < 200):
            out.append("%s kinetic energy %r / %r" % (t, f["KE"], f["KEp"]))
        if f["nu"] > MAXN or f["nug"] > MAXG:
            out.append("%s multiplicity exceeds capacity" % t)
    for nm, e, u, v, w in (("neutron", "nE", "nu_", "nv", "nw"), ("cm neutron", "cE", "cu", "cv", "cw"), ("photon", "gE", "gu", "gv", "gw"), ("pre-fission neutron", "pE", "pu", "pv", "pw")):
        for i in range(len(ev[e])):
            if not (0.0 < ev[e][i] < 200.0):
                out.append("%s %d energy %r" % (nm, i, ev[e][i]))
            n2 = ev[u][i] ** 2 + ev[v][i] ** 2 + ev[w][i] ** 2
            if abs(n2 - 1.0) > 1e-9:
                out.append("%s %d direction norm^2 %r" % (nm, i, n2))
    for i, t in enumerate(ev["nt"]):
        if t != time:
            out.append("neutron %d age %r != %r" % (i, t, time))
    for i, t in enumerate(ev["gt"]):
        if t < time:
            out.append("photon %d age %r earlier than the fission time %r" % (i, t, time))
    if any(x != -1 for x in ev.get("oob", [])):
        out.append("getter outside its range returned %r" % (ev["oob"],))
    return out


# ---------------------------------------------------------------- P07 -------
def momentum(ev, zaid, einc):
    out = []
    z0, a0 = compound(zaid, einc)
    l, h = ev["L"], ev["H"]
    # total momentum of the scission configuration
    p = [l["pre"][i] + h["pre"][i] for i in range(3)]
    pc = [0.0, 0.0, math.sqrt(2 * MN * einc)]
    for k in range(ev["np"]):
        pn = math.sqrt(2 * MN * ev["pE"][k])
        for i, c in enumerate(("pu", "pv", "pw")):
            p[i] += pn * ev[c][k]
    if max(abs(p[i] - pc[i]) for i in range(3)) > 1e-5:
        out.append("scission momentum balance off by %r" % ([p[i] - pc[i] for i in range(3)],))
    off = 0
    goff = 0
    for t, f in (("light", l), ("heavy", h)):
        q = list(f["pre"])
        a = f["A"]
        for k in range(off, off + f["nu"]):
            d = [ev["nu_"][k], ev["nv"][k], ev["nw"][k]]
            c = [ev["cu"][k], ev["cv"][k], ev["cw"][k]]
            vl = math.sqrt(2 * ev["nE"][k] / MN)
            vc = math.sqrt(2 * ev["cE"][k] / MN)
            m = M(f["Z"], a)
            for i in range(3):
                # lab velocity is the cm velocity plus that of the emitting fragment
                if abs(vl * d[i] - (vc * c[i] + q[i] / m)) > 1e-8:
                    out.append("%s neutron %d: lab velocity is not cm velocity plus fragment velocity (component %d off by %g)" % (t, k - off, i, vl * d[i] - vc * c[i] - q[i] / m))
                    break
            for i in range(3):
                q[i] -= MN * vl * d[i]
            a -= 1
        if max(abs(q[i] - f["post"][i]) for i in range(3)) > 1e-5:
            out.append("%s recoil: pre minus neutron momenta differs from post momentum by %r" % (t, [q[i] - f["post"][i] for i in range(3)]))
        off += f["nu"]
        p2 = dot(f["post"], f["post"])
        kep = p2 / (2 * M(f["Z"], f["A"]))
        lo, hi = p2 / (2 * M(f["Z"], f["A"])), p2 / (2 * M(f["Z"], f["A"] - f["nu"]))
        if not (lo - 1e-6 <= f["KEp"] <= hi + 1e-6):
            out.append("%s post-emission kinetic energy %r is not p^2/2M in [%r,%r]" % (t, f["KEp"], lo, hi))
        goff += f["nug"]
    # share of the total kinetic energy
    ml, mh = M(l["Z"], l["A"]), M(h["Z"], h["A"])
    if abs(l["KE"] * ml - h["KE"] * mh) > 1e-6 * ml:
        out.append("kinetic energies not shared as inverse masses: %r %r" % (l["KE"], h["KE"]))
    # TKE = relative motion + centre of mass motion
    m = ml + mh
    pt = [l["pre"][i] + h["pre"][i] for i in range(3)]
    rel = [(mh * l["pre"][i] - ml * h["pre"][i]) / m for i in range(3)]
    ke = dot(rel, rel) * (1 / ml + 1 / mh) / 2
    # the code takes the centre-of-mass velocity from the compound mass, which differs from ml+mh by the Q value
    vc2 = dot(pt, pt) / m ** 2
    tke = l["KE"] + h["KE"]
    if abs(ke + 0.5 * m * vc2 - tke) > (0.02 if ev["np"] == 0 else 0.15):
        out.append("TKE %r is not the kinetic energy of the fragment momenta %r" % (tke, ke + 0.5 * m * vc2))
    return out


def photon_cm(ev, which):
    """Photon energies in the frame of the emitting fragment."""
    f = ev[which]
    lo = 0 if which == "L" else ev["L"]["nug"]
    b = norm(f["post"]) / M(f["Z"], f["A"] - f["nu"])
    return [ev["gE"][k] * (1 - b * ev["gu"][k]) / math.sqrt(1 - b * b) for k in range(lo, lo + f["nug"])]


# ---------------------------------------------------------------- P08 -------
def energy(ev, zaid, einc, table, icc, window, tol=2e-3):
    """Energy ledgers: scission (Q value, compound excitation, pre-fission neutrons) and each fragment."""
    out = []
    z0, a0 = compound(zaid, einc)
    l, h = ev["L"], ev["H"]
    n = ev["np"]
    tke = l["KE"] + h["KE"]
    txe = l["U"] + h["U"]
    q = ME(z0, a0 - n) - ME(l["Z"], l["A"]) - ME(h["Z"], h["A"])
    estar = tke + txe - q                      # excitation energy of the fissioning nucleus
    if einc == 0:
        if abs(estar) > 1e-4:
            out.append("spontaneous fission: TKE+TXE-Q = %r" % estar)
    elif n == 0:
        e0 = einc + Sn(z0, a0)
        if abs(estar - e0) > 1e-3:
            out.append("TKE+TXE-Q = %r differs from the compound excitation energy %r" % (estar, e0))
    else:
        e0, used = prefission(ev, zaid, einc)
        if abs(estar - (e0 - used)) > 0.12:
            out.append("TKE+TXE-Q = %r differs from the excitation energy %r left by %d pre-fission neutrons" % (estar, e0 - used, n))
    off = 0
    for t, w, f in (("light", "L", l), ("heavy", "H", h)):
        a, used = f["A"], 0.0
        for k in range(off, off + f["nu"]):
            used += ev["cE"][k] + Sn(f["Z"], a)
            a -= 1
        off += f["nu"]
        g = sum(photon_cm(ev, w))
        rest = f["U"] - used - g
        lv = table.get(1000 * f["Z"] + a, [0.0])
        near = lambda x: min(abs(x - y) for y in lv)
        if icc:
            ok = -tol < rest < max(lv) + tol      # only transitions between discrete levels convert
        elif window > 0:
            ok = near(rest) < tol
        else:
            ok = abs(rest) < tol
        start = 0
        if not ok and f["nu"] == 0 and f["U"] < max(lv) + 0.06:
            # too low for the continuum: the decay starts on the discrete level closest to the excitation energy
            k0 = min(range(len(lv)), key=lambda k: abs(lv[k] - f["U"]))
            k1 = min(range(max(1, len(lv) - 1)), key=lambda k: abs(lv[k] - f["U"])) + 1
            for k, s in ((k0, 1), (k1, 2)):
                if k < len(lv) and not start:
                    y = lv[k]
                    if (g < y + tol) if icc else (near(y - g) < tol) if window > 0 else (abs(y - g) < tol):
                        start = s
            if start == 2:
                out.append("DISCRETE %s fragment with excitation energy %r starts on discrete level %r, not on the closest one (%r)" % (t, f["U"], lv[k1], lv[k0]))
            ok = start > 0
        if not ok:
            out.append("%s fragment: excitation energy %r minus neutrons %r minus photons %r leaves %r MeV" % (t, f["U"], used, g, rest))
    return out


def prefission(ev, zaid, einc):
    """Excitation left after the pre-fission neutrons; returns (budget, used)."""
    z0, a0 = compound(zaid, einc)
    e0 = einc + Sn(z0, a0)
    p = [0.0, 0.0, math.sqrt(2 * MN * einc)]
    used = 0.0
    for k in range(ev["np"]):
        vl = math.sqrt(2 * ev["pE"][k] / MN)
        m = M(z0, a0 - k)
        v = [vl * ev[c][k] for c in ("pu", "pv", "pw")]
        vc = [v[i] - p[i] / m for i in range(3)]
        used += 0.5 * MN * dot(vc, vc) + Sn(z0, a0 - k)
        p = [p[i] - MN * v[i] for i in range(3)]
    return e0, used
