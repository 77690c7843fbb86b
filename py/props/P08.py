"""Energy is conserved in every event."""
from .physics import *


class P(EventProp):
    id = "P08"
    quick_n = 320
    thorough_n = 8000
    rule = ("one case = one process generating 8 events of random reactions, windows and level schemes, about a third under extreme random-number bursts; the energy ledger of the fission and of each fragment is balanced; "
            "a state is (target, rounded incident energy, pre-fission multiplicity, light and heavy neutron multiplicities, finite window)")

    def case(self, rng, i, tier):
        p, m = EventProp.case(self, rng, i, tier)
        if i == 0:      # the listed finding
            p.levels = "std"
            p.phases[0][0]["ops"][1:1] = ["rng 968490 limit 400000", "event 0 94240 0.0 0.0 -1.0", "del 0"]
        return p, m

    def judge_event(self, ev, z, e, t, w, plan):
        if not O.finite_all(ev):
            return [("nan", "non-finite value in the event")]
        return [("discrete-start", m[9:]) if m.startswith("DISCRETE") else ("energy", m) for m in O.energy(ev, z, e, L.table(plan.levels), plan.levels == "icc", w)]


PROP = P()
