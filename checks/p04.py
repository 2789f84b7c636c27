"""P04: CRL, OCSP and the CA's lists tell the same story as the history of accepted requests."""
from harness.report import Report
from harness.world import LifecycleWorld

from . import lifecycle as L


def main(tier, args):
    rep = Report("P04", tier)
    quick = tier == "quick"
    full, em, g = L.graph(3, {"new", "kur"}, {"ok", "reject"})
    keep, _ = L.sampler(g, 0 if quick else 1)
    rep.add(states=full.states, transitions=full.generated, graph_states=em.states, graph_transitions=g.n_edges)

    def world():
        w = LifecycleWorld(3, compare_fail=False, observe=("db", "pub"))
        w.always = True
        return w
    L.run(rep, "n3", g, world, keep, 1500)
    return rep.finish()
