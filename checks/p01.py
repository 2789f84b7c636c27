"""P01: the certificate life cycle."""
from harness.report import Report
from harness.world import LifecycleWorld

from . import lifecycle as L


def main(tier, args):
    rep = Report("P01", tier)
    quick = tier == "quick"
    full, em, g = L.graph(3, {"new", "kur"}, {"ok", "reject"})
    keep, ncls = L.sampler(g, 2) if quick else ((lambda e: True), 0)
    rep.add(states=full.states, transitions=full.generated)
    L.run(rep, "n3", g, lambda: LifecycleWorld(3, compare_fail=False), keep, 500)
    rep.add(graph_states=em.states, graph_transitions=g.n_edges, classes=ncls)
    if not quick:
        full4, em4, g4 = L.graph(4, {"new", "kur"}, {"ok"})
        keep4, n4 = L.sampler(g4, 2)
        rep.add(states=full4.states, transitions=full4.generated, graph_states=em4.states,
                graph_transitions=g4.n_edges, classes=n4)
        L.run(rep, "n4", g4, lambda: LifecycleWorld(4, compare_fail=False), keep4, 1500)
    rep.assumptions += ["one CA process, requests handled one after the other",
                        "OS trust store replaced by a one-certificate stand-in; frozen clock advanced by the harness"]
    return rep.finish()
