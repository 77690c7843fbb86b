import math, json, os
from simlib import Plan
from runner import Prop, V
import oracles as O

EDGE_E = [2.53e-8, 1e-5, 0.5, 1.0, 2.0, 4.5, 5.5, 6.0, 7.0, 8.5, 10.0, 12.0, 14.0, 16.5, 18.0, 20.0]

# incident energies just above the opening of second-, third- and fourth-chance fission, where the spectrum of the
# pre-fission neutron has a single bin
THRESH = [(92233, 5.6, 5.65), (92233, 11.25, 11.3), (92234, 6.22, 6.27), (92234, 12.82, 12.87), (92235, 5.7, 5.75), (92238, 6.33, 6.38),
          (93237, 6.25, 6.3), (94239, 5.75, 5.8), (94241, 5.8, 5.85), (94241, 11.5, 11.55)]


def pick_reaction(rng):
    if rng.random() < 0.3:
        return rng.choice(O.SF), 0.0
    if rng.random() < 0.06:
        z, a, b = rng.choice(THRESH)
        return z, round(rng.uniform(a, b), 3)
    z = rng.choice(O.NF)
    r = rng.random()
    if r < 0.5:
        e = rng.choice(EDGE_E)
    elif r < 0.75:
        e = round(rng.uniform(0.01, 20.0), 3)
    else:
        e = round(rng.uniform(5.0, 20.0), 2)
    return z, e


SIBLING = {(94240, 0): (94239, 1), (94239, 1): (94240, 0), (94242, 0): (94241, 1), (94241, 1): (94242, 0)}


def near(rng, z, e):
    """A request easily mistaken for (z, e): an energy that differs little, the same compound nucleus, or a neighbour."""
    r = rng.random()
    if r < 0.3 and (z, int(e > 0)) in SIBLING:
        z2, k = SIBLING[(z, int(e > 0))]
        return z2, (rng.choice([1e-5, 2.0, round(rng.uniform(0.01, 20.0), 3)]) if k else 0.0)
    if e > 0 and r < 0.85:
        d = rng.choice([1e-9, 1e-6, 1e-4, 0.001, 0.004, 0.01, 0.04, 0.2, 0.7])
        return z, (e - d if e - d > 0 and (e + d > 20.0 or rng.random() < 0.5) else min(20.0, e + d))
    return (rng.choice([x for x in O.NF if x != z]), e) if e > 0 else (rng.choice([x for x in O.SF if x != z]), 0.0)


_rare = None


def rare(rng, plain=False):
    """A request from the committed corpus of rarely reached events (many neutrons or photons, three pre-fission
    neutrons, pre-fission neutrons at threshold, symmetric splits, cold or very hot fragments, high spins): target, energy, seed, overrides."""
    global _rare
    if _rare is None:
        c = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "corpus.json")))
        _rare = [x for x in c if not x[3]], c
    z, e, s, ov = rng.choice(_rare[0 if plain else 1])
    return z, e, s, (" ov " + " ".join("%d:%r" % tuple(x) for x in ov) if ov else "")


def pick_start(rng, n, p=0.5):
    """Reaction and starting event number of a run of n events, often one that passes a rare event."""
    if rng.random() < p:
        z, e, s, _ = rare(rng, True)
        return z, e, max(1, s - rng.randrange(n))
    return pick_reaction(rng) + (None,)


def pick_window(rng):
    return rng.choice([-1.0, -1.0, 1e-8, 1e-9, 1e-7, 1e-6, 3e-9, 1e-3])


def pick_levels(rng):
    return rng.choice(["std", "std", "std", "icc", "gs", "empty"])


def pick_heap(rng):
    return (rng.choice([0, 1, 2, 3]), rng.randrange(1, 10 ** 6))


def num(x):
    return repr(float(x))


def status_fail(st):
    """Process outcome that a caller recognises as failure."""
    return (st[0] == "exit" and st[1] != 0) or st[0] in ("signal", "killed", "mpierr")
