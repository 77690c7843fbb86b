"""Momentum is conserved and laboratory kinematics are consistent in every event."""
from .physics import *


class P(EventProp):
    id = "P07"
    quick_n = 320
    thorough_n = 8000
    rule = ("one case = one process generating 8 events of random reactions and windows, about a third under extreme random-number bursts; every particle and both fragments of every event are judged; "
            "a state is (target, rounded incident energy, pre-fission multiplicity, light and heavy neutron multiplicities, finite window)")

    def judge_event(self, ev, z, e, t, w, plan):
        if not O.finite_all(ev):
            return [("nan", "non-finite value in the event")]
        return [("momentum", m) for m in O.momentum(ev, z, e)]


PROP = P()
