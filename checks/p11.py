"""P11: every answer belongs to its request and is protected the way the request was."""
from harness import exchange as X
from harness.report import Report

from . import exchange_t as E, table as T


def main(tier, args):
    rep = Report("P11", tier)
    E.prepare(list(X.SIGS))
    lst = E.all_cases(rep, list(X.MACS) + list(X.SIGS), 1)
    if tier == "quick":
        lst = T.sample(lst, lambda x: not x["c"]["defects"] or x["c"]["prot"] in ("password_based_mac", "sig-ec"), 120)
    T.run(rep, "answer", lst, E.response_case)
    return rep.finish()
