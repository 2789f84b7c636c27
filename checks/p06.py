"""P06: whatever arrives is answered, and a refused request has no effect."""
import random
from harness import wenv
from harness.report import Report
from . import damage


def main(tier, args):
    rep = Report("P06", tier)
    rng = random.Random(wenv.SEED)
    quick = tier == "quick"
    damage.run(rep, "damage", lambda x: x["when"] == "by the sender" and (not quick or rng.random() < 0.8), 1 if quick else 12)
    return rep.finish()
