"""P16: header and protection defects are refused with the fitting failInfo, and have no effect."""
from harness import exchange as X
from harness.report import Report

from . import exchange_t as E, table as T


def main(tier, args):
    rep = Report("P16", tier)
    sig = ["sig-ec"] if tier == "quick" else list(X.SIGS)
    macs = list(X.MACS)
    E.prepare(list(X.SIGS))
    one = E.all_cases(rep, macs + list(X.SIGS), 1)
    two = E.all_cases(rep, ["password_based_mac", "sig-ec"], 2)
    if tier == "quick":
        lst = T.sample(one, lambda x: not x["c"]["defects"] or x["c"]["prot"] in ("password_based_mac", "sig-ec"), 100)
        lst += T.sample([x for x in two if len(x["c"]["defects"]) == 2], lambda x: False, 300)
    else:
        lst = one + [x for x in two if len(x["c"]["defects"]) == 2]
    T.run(rep, "request", lst, E.request_case)
    return rep.finish()
