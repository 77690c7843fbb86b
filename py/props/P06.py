"""Charge and nucleon number are conserved in every event."""
from .physics import *


class P(EventProp):
    id = "P06"
    quick_n = 320
    thorough_n = 8000
    rule = ("one case = one process generating 8 events of random reactions and windows, about a third under extreme random-number bursts; every event is judged; "
            "a state is (target, rounded incident energy, pre-fission multiplicity, light and heavy neutron multiplicities, finite window)")

    def judge_event(self, ev, z, e, t, w, plan):
        return [("nucleons", m) for m in O.nucleons(ev, z, e)]


PROP = P()
