"""Synthetic discrete-level data base.

CGMF's distribution does not ship data/discreteLevels.dat, so the simulator
supplies one.  The scheme is deterministic in (variant, seed):
  std  isomers of all half-lives, no internal conversion
  icc  as std, with internal conversion coefficients
  gs   ground states only
  dec  sixteen levels each, many branches, half-lives, no internal conversion
  dcc  as dec, with internal conversion coefficients
"""
import random


def generate(variant="std", seed=1):
    if variant == "empty":
        return "# no nuclides\n"
    out = ["# synthetic levels variant=%s seed=%d\n" % (variant, seed)]
    ranges = [(z, int(1.9 * z), int(3.1 * z)) for z in range(24, 73)] + [(z, int(2.35 * z), int(2.62 * z)) for z in range(88, 99)]
    if variant in ("dec", "dcc"):
        return _decay(variant, seed, ranges, out)
    for z, alo, ahi in ranges:
        for a in range(alo, ahi + 1):
            r = random.Random("%s/%d/%d/%d" % (variant, seed, z, a))
            half = 0.5 if a % 2 else 0.0
            nl = 1 if variant == "gs" else r.choice([1, 2, 3, 4, 6, 8, 10, 12, 15, 20])
            out.append("%6s%6d%5d\n" % ("", z * 1000 + a, nl))
            e = 0.0
            for i in range(nl):
                if i == 0:
                    j = half if not half else half + r.randrange(0, 5)
                    p = 1 if not half else r.choice([-1, 1])
                    out.append("%10.6f%5.1f%3d%13.3e%3d\n" % (0.0, j, p, -1.0, 0))
                    continue
                e += r.choice([0.03, 0.08, 0.15, 0.3, 0.5]) * (0.5 + r.random())
                j = half + r.randrange(0, 9)
                p = r.choice([-1, 1])
                hl = r.choice([-1.0, 0.0, 0.0, 1e-13, 1e-12, 3e-11, 2e-10, 1e-9, 5e-9, 1e-8, 4e-8, 2e-7, 1e-6, 3e-5, 1e-3])
                ng = min(i, r.choice([1, 1, 1, 2, 2, 3]))
                fs = sorted(r.sample(range(i), ng), reverse=True)
                ws = [r.random() + 0.05 for _ in fs]
                s = sum(ws)
                out.append("%10.6f%5.1f%3d%13.3e%3d\n" % (e, j, p, hl, ng))
                for f, w in zip(fs, ws):
                    ic = 0.0 if variant != "icc" else r.choice([0.0, 0.01, 0.2, 1.0, 3.0])
                    # indices in the file are 1-based or 0-based depending on release; CGMF reads 0-based
                    out.append("%3d%9.5f%10.3e\n" % (f, w / s, ic))
    return "".join(out)


def _decay(variant, seed, ranges, out):
    for z, alo, ahi in ranges:
        for a in range(alo, ahi + 1):
            r = random.Random("%s/%d/%d/%d" % (variant, seed, z, a))
            half = 0.5 if a % 2 else 0.0
            out.append("%6s%6d%5d\n" % ("", z * 1000 + a, 16))
            e = 0.0
            for i in range(16):
                if i == 0:
                    out.append("%10.6f%5.1f%3d%13.3e%3d\n" % (0.0, half, 1, -1.0, 0))
                    continue
                e += 0.05 + 0.2 * r.random()
                hl = r.choice([-1.0, 0.0, 1e-12, 2e-10, 5e-9, 4e-8, 1e-6, 3e-5])
                ng = min(i, r.choice([1, 2, 3, 4, 5, 7, 10]))
                fs = r.sample(range(i), ng)
                ws = [r.choice([0.1, 0.3, 1.0]) * (0.5 + r.random()) for _ in fs]
                s = sum(ws)
                out.append("%10.6f%5.1f%3d%13.3e%3d\n" % (e, half + r.randrange(0, 6), r.choice([-1, 1]), hl, ng))
                for f, w in zip(fs, ws):
                    ic = 0.0 if variant == "dec" else r.choice([0.0, 0.0, 0.3, 8.0])
                    out.append("%3d%9.5f%10.3e\n" % (f, w / s, ic))
    return "".join(out)


_tab = {}


def table(variant):
    """zaid -> level energies of the generated scheme."""
    if variant not in _tab:
        t = {}
        cur = None
        for l in generate(variant).split("\n"):
            if l.startswith("#") or not l.strip():
                continue
            w = l.split()
            if l.startswith("      "):
                cur = t.setdefault(int(w[0]), [])
            elif len(w) == 5:
                cur.append(float(w[0]))
        _tab[variant] = t
    return _tab[variant]


_full = {}


def full(variant):
    """zaid -> list of (energy, half-life, [(final level, branch, conversion coefficient)])."""
    if variant not in _full:
        t = {}
        cur = None
        for l in generate(variant).split("\n"):
            if l.startswith("#") or not l.strip():
                continue
            w = l.split()
            if l.startswith("      "):
                cur = t.setdefault(int(w[0]), [])
            elif len(w) == 5:
                cur.append((float(w[0]), float(w[3]), []))
            else:
                cur[-1][2].append((int(w[0]), float(w[1]), float(w[2])))
        for lv in t.values():
            for e, h, b in lv:
                s = sum(x[1] for x in b)
                b[:] = [(f, p / s, c) for f, p, c in b]
        _full[variant] = t
    return _full[variant]


if __name__ == "__main__":
    import sys
    sys.stdout.write(generate(*(sys.argv[1:2] or ["std"])))
