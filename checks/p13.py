"""P13: a message changed on the way is refused, and refusing it helps nobody."""
import random
from harness import exchange as X, wenv
from harness.report import Report
from . import damage


def main(tier, args):
    rep = Report("P13", tier)
    rng = random.Random(wenv.SEED)
    quick = tier == "quick"
    damage.SIGS[0] = tuple(s for s in X.SIGS if tier != "quick" or s != "sig-slhdsa")
    others = [p for p in X.MACS + damage.SIGS[0] if p not in damage.PROT.values()]
    damage.run(rep, "damage", lambda x: x["when"] == "on the way" and (not quick or rng.random() < 0.5), 1 if quick else 12, others)
    return rep.finish()
