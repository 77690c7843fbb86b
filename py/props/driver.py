"""Helpers for checks that run the real command line driver (serial or MPI)."""
import re
from .common import *


def argv(zaid, e, n, s=None, f=None, t=None, d="/data", order=None):
    a = [["-i", str(zaid)], ["-e", repr(float(e)) if not isinstance(e, str) else e], ["-n", str(n)]]
    if s is not None:
        a.append(["-s", str(s)])
    if f is not None:
        a.append(["-f", f])
    if t is not None:
        a.append(["-t", repr(float(t)) if not isinstance(t, str) else t])
    if d is not None:
        a.append(["-d", d])
    if order is not None:
        order.shuffle(a)
    return ["cgmf"] + [x for p in a for x in p]


class Bad(Exception):
    pass


def _flt(x):
    return float(x)


def parse_history(text, ages, header=True):
    """Strict parser of a history file.  Returns (header tokens or None, events, consumed bytes);
    an event is dict(L=..., H=..., pre=[...], raw=text).  Stops silently at an incomplete tail."""
    pos = 0
    hd = None
    lines = []
    start = 0
    while True:
        k = text.find("\n", start)
        if k < 0:
            break
        lines.append((start, k + 1, text[start:k]))
        start = k + 1
    i = 0
    if header:
        if not lines:
            return None, [], 0
        if not lines[0][2].startswith("#"):
            raise Bad("no header line")
        hd = lines[0][2].split()[1:]
        i = 1
    evs = []
    used = lines[i - 1][1] if i else 0
    g = 5 if ages else 4

    def vec(line, n, w, what):
        t = line.split()
        if len(t) != n * w:
            raise Bad("%s line has %d fields, expected %d" % (what, len(t), n * w))
        v = [_flt(x) for x in t]
        return [v[k * w:(k + 1) * w] for k in range(n)]
    while i < len(lines):
        j = i
        ev = {}
        try:
            for tag in ("L", "H"):
                t = lines[j][2].split()
                if len(t) != 10:
                    raise Bad("fragment line has %d fields: %r" % (len(t), lines[j][2][:80]))
                fr = dict(A=int(t[0]), Z=int(t[1]), U=_flt(t[2]), J=_flt(t[3]), P=int(t[4]), KE=_flt(t[5]), KEp=_flt(t[6]), nu=int(t[7]), nug=int(t[8]), last=int(t[9]))
                j += 1
                m = lines[j][2].split()
                if len(m) != 6:
                    raise Bad("momentum line has %d fields" % len(m))
                fr["pre"] = [_flt(x) for x in m[:3]]
                fr["post"] = [_flt(x) for x in m[3:]]
                j += 1
                fr["cm"], fr["lab"], fr["g"] = [], [], []
                if fr["nu"] > 0:
                    fr["cm"] = vec(lines[j][2], fr["nu"], 4, "cm neutron"); j += 1
                    fr["lab"] = vec(lines[j][2], fr["nu"], 4, "lab neutron"); j += 1
                if fr["nug"] > 0:
                    fr["g"] = vec(lines[j][2], fr["nug"], g, "photon"); j += 1
                ev[tag] = fr
            ev["p"] = []
            if ev["L"]["last"] != 0:
                raise Bad("light fragment line ends in %d" % ev["L"]["last"])
            if ev["H"]["last"] > 0:
                ev["p"] = vec(lines[j][2], ev["H"]["last"], 4, "pre-fission neutron"); j += 1
        except IndexError:
            break
        except ValueError as x:
            raise Bad("unreadable number: %s" % x)
        ev["raw"] = text[lines[i][0]:lines[j - 1][1]]
        evs.append(ev)
        used = lines[j - 1][1]
        i = j
    return hd, evs, used


def event_text(evs):
    return "".join(e["raw"] for e in evs)


def fmt_expect(d, ages):
    """The history-file text that the documented format prescribes for a dumped event."""
    o = []
    off = goff = 0
    for tag in ("L", "H"):
        f = d[tag]
        o.append(" %d %d %.3f %.1f %d %.3f %.3f %d %d %d\n" % (f["A"], f["Z"], f["U"], f["J"], f["P"], f["KE"], f["KEp"], f["nu"], f["nug"], 0 if tag == "L" else d["np"]))
        o.append(" %.3f %.3f %.3f %.3f %.3f %.3f\n" % tuple(f["pre"] + f["post"]))
        for e, u, v, w in (("cE", "cu", "cv", "cw"), ("nE", "nu_", "nv", "nw")):
            for k in range(off, off + f["nu"]):
                o.append("%.3f %.3f %.3f %.3f " % (d[u][k], d[v][k], d[w][k], d[e][k]))
            if f["nu"] > 0:
                o.append("\n")
        off += f["nu"]
        for k in range(goff, goff + f["nug"]):
            o.append("%.3f %.3f %.3f %.3f " % (d["gu"][k], d["gv"][k], d["gw"][k], d["gE"][k]))
            if ages:
                o.append("%g " % d["gt"][k])
        if f["nug"] > 0:
            o.append("\n")
        goff += f["nug"]
    for k in range(d["np"]):
        o.append("%.3f %.3f %.3f %.3f " % (d["pu"][k], d["pv"][k], d["pw"][k], d["pE"][k]))
    if d["np"] > 0:
        o.append("\n")
    return "".join(o)


NUM = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?|nan|inf")


def summary(out):
    """Labelled numbers of the printed summary, in order; None if there is no complete summary."""
    if "CGMF Results" not in out or "THE END" not in out:
        return None
    body = out[out.index("CGMF Results"):out.index("THE END")]
    return [(m.start(), float(m.group(0))) for m in NUM.finditer(body)], body


LABELS = ["ZLF", "ALF", "ZHF", "AHF", "KELF", "KEHF", "TKE", "XELF", "XEHF", "TXE", "JLF", "JHF", "J", "nuLF", "nuHF", "nupre", "nutot",
          "EcmLF", "EcmHF", "Ecmpre", "Ecmtot", "ElabLF", "ElabHF", "Elabpre", "Elabtot", "nugLF", "nugHF", "nugtot", "EgLF", "EgHF", "Egtot"]
RX = [r"Average Light Fragment \(Z,A\) = \(%s,%s\)", r"Average Heavy Fragment \(Z,A\) = \(%s,%s\)",
      r"Average Kinetic Energies: LF = %s MeV ; HF = %s MeV ; <TKE> = %s MeV", r"Average Excitation Energies: LF = %s MeV ; HF = %s MeV ; <TXE> = %s MeV",
      r"Average Fragment Spins: <J>_LF = %s hbar ; <J>_HF = %s hbar ; <J> = %s hbar",
      r"Multiplicities \(n/f\):\s+<nu>_LF = %s ; <nu>_HF = %s ; <nu>_prefission = %s ; <nu>_tot = %s",
      r"c-o-m Energies:\s+<Ecm>_LF = %s MeV ; <Ecm>_HF = %s MeV ; <Ecm>_prefission = %s MeV ; <Ecm>_tot = %s MeV",
      r"Lab\. Energies:\s+<Elab>_LF = %s MeV ; <Elab>_HF = %s MeV ; <Elab>_prefission = %s MeV ; <Elab>_tot = %s MeV",
      r"Multiplicities \(g/f\):\s+<nu_g>_LF = %s ; <nu_g>_HF = %s ; <nu_g>_tot = %s", r"Gamma Energies:\s+<Eg>_LF = %s MeV ; <Eg>_HF = %s MeV ; <Eg>_tot = %s MeV"]


def parse_summary(out):
    """Dict label -> value, or None if no complete summary was printed."""
    if "THE END" not in out:
        return None
    vals = []
    n = r"(-?[\d.]+(?:e[-+]?\d+)?|-?nan|-?inf)"
    for r in RX:
        m = re.search(r.replace("%s", n), out)
        if not m:
            return None
        vals += [float(x) for x in m.groups()]
    return dict(zip(LABELS, vals))


def averages(evs):
    """Reference model of the summary from complete event records (dump format)."""
    n = float(len(evs))
    s = {}

    def av(f):
        return sum(f(e) for e in evs) / n
    for t, k in (("LF", "L"), ("HF", "H")):
        s["Z" + t] = av(lambda e: e[k]["Z"]); s["A" + t] = av(lambda e: e[k]["A"])
        s["KE" + t] = av(lambda e: e[k]["KE"]); s["XE" + t] = av(lambda e: e[k]["U"]); s["J" + t] = av(lambda e: e[k]["J"])
        s["nu" + t] = av(lambda e: e[k]["nu"]); s["nug" + t] = av(lambda e: e[k]["nug"])
    s["TKE"] = s["KELF"] + s["KEHF"]; s["TXE"] = s["XELF"] + s["XEHF"]; s["J"] = (s["JLF"] + s["JHF"]) / 2
    s["nupre"] = av(lambda e: e["np"]); s["nutot"] = s["nuLF"] + s["nuHF"] + s["nupre"]; s["nugtot"] = s["nugLF"] + s["nugHF"]
    NL = sum(e["L"]["nu"] for e in evs); NH = sum(e["H"]["nu"] for e in evs); NP = sum(e["np"] for e in evs)
    GL = sum(e["L"]["nug"] for e in evs); GH = sum(e["H"]["nug"] for e in evs)
    P = sum(sum(e["pE"]) for e in evs)
    for t, k in (("Ecm", "cE"), ("Elab", "nE")):
        l = sum(sum(e[k][:e["L"]["nu"]]) for e in evs); h = sum(sum(e[k][e["L"]["nu"]:]) for e in evs)
        s[t + "LF"] = l / max(NL, 1); s[t + "HF"] = h / max(NH, 1); s[t + "pre"] = P / max(NP, 1); s[t + "tot"] = (l + h + P) / max(NL + NH + NP, 1)
    l = sum(sum(e["gE"][:e["L"]["nug"]]) for e in evs); h = sum(sum(e["gE"][e["L"]["nug"]:]) for e in evs)
    s["EgLF"] = l / max(GL, 1); s["EgHF"] = h / max(GH, 1); s["Egtot"] = (l + h) / max(GL + GH, 1)
    return s


def summary_diff(a, b, tol=0.0051):
    return ["%s=%s expected %.4f" % (k, a[k], b[k]) for k in LABELS if not abs(a[k] - b[k]) <= tol]


def text(res, phase, path):
    return res.files.get(phase, {}).get(path, None) if res.files.get(phase, {}).get(path) is None else res.files[phase][path].decode("latin1")


def stub_events(res, phase, node):
    return [e["ev"] for e in res.events(phase, node) if e.get("k") == "stub"]


def engine(rng, mpi=False, p_stub=0.85):
    """(module, is_stub): real driver linked with the stand-in physics engine, or with the real one."""
    import simlib
    stub = simlib.setup()["stub"] and rng.random() < p_stub
    return ("stub_" if stub else "") + (("mpi" if mpi else "ser") if stub else ("mpi" if mpi else "serial")), stub


def serial_of(so):
    return "stub_ser" if so.startswith("stub") else "serial"


def pick_file(rng):
    """(-f argument or None, file stem)"""
    f = rng.choice([None, "out", "h.cgmf", "sub/r", "a-long.name_with.dots"])
    return f, "/work/" + (f or "histories.cgmf")


def jobs_ok(res, phase):
    return all(v[:2] == ("exit", 0) for k, v in res.nodes.items() if k[0] == phase)


def ends(res, phase):
    return [v for k, v in sorted(res.nodes.items()) if k[0] == phase]
