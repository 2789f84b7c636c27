"""P03: what a revoked, updated or unconfirmed credential may still authenticate."""
from harness.report import Report
from harness.world import LifecycleWorld

from . import lifecycle as L


def main(tier, args):
    rep = Report("P03", tier)
    quick = tier == "quick"
    kinds = {"ir", "cr", "p10cr", "kur"}
    full, em, g = L.graph(3, kinds, {"ok"}, probes=("genm",))
    signed = L.sampler(g, 2, all_changing=not quick)[0] if quick else (lambda e: True)
    keep = lambda e: e["a"].get("p", 0) != 0 and signed(e)
    rep.add(states=full.states, transitions=full.generated, graph_states=em.states, graph_transitions=g.n_edges)
    L.run(rep, "n3", g, lambda: LifecycleWorld(3), keep, 1500)
    return rep.finish()
