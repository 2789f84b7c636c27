"""P02: certificate confirmation and transaction discipline."""
from harness.report import Report
from harness.world import LifecycleWorld

from . import lifecycle as L


def main(tier, args):
    rep = Report("P02", tier)
    quick = tier == "quick"
    variants = {"ok", "okHashAlg", "reject", "rejectBadHash"} | set(L.BAD)
    kinds = {"ir", "cr", "p10cr", "kur"}
    full, em, g = L.graph(2, kinds, variants, revops=("revoke",), probes=("reuse",))
    keep, ncls = L.sampler(g, 1) if quick else ((lambda e: True), 0)
    rep.add(states=full.states, transitions=full.generated, graph_states=em.states, graph_transitions=g.n_edges,
            classes=ncls)
    L.run(rep, "n2", g, lambda: LifecycleWorld(2), keep, 500)
    if not quick:
        full3, em3, g3 = L.graph(3, {"new", "kur"}, variants, revops=(), probes=("reuse",))
        keep3, n3 = L.sampler(g3, 3)
        rep.add(states=full3.states, transitions=full3.generated, graph_states=em3.states,
                graph_transitions=g3.n_edges, classes=n3)
        L.run(rep, "n3", g3, lambda: LifecycleWorld(3), keep3, 1500)
    return rep.finish()
