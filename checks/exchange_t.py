"""Shared by P11 and P16: the cases of spec/Exchange.tla on a real Mock CA."""
from harness import ca, exchange as X, replay
from . import table as T

BODIES = ["ir", "cr", "p10cr", "kur", "rr", "genm"]
INV = ["Monotone", "OnlyAuthentic", "FailInfoIffRefused", "MacNeverForUpdateOrRevocation"]
_C = {}


def client(prot):
    k = prot if prot in X.SIGS else "sig-ec"
    if k not in _C:
        _C[k] = X.Client((k,))
    return _C[k]


def prepare(prots):
    for p in prots:
        client(p)


def exchange(case):
    """Send the request of a case; (client, request as received, answer, what was issued or revoked)."""
    c, body, prot = client(case["prot"]), case["body"], case["prot"]
    m = c.message(body, prot, case["defects"])
    before = lists(c)
    req = ca.reparse(m)
    try:
        resp = ca.send(c.h, m)
    except Exception as e:  # noqa: BLE001
        return c, req, None, ["the CA raised " + repr(e)[:200]], before
    a = ca.abstract(resp)
    if ca.ok(a) and body == "kur":
        c.holder(prot if prot in X.SIGS else "sig-ec")
    return c, req, resp, a, before


def lists(c):
    s = c.h.state
    return (len(s.certificate_db.issued_certs), len(s.certificate_db.revoked_certs),
            len(s.certificate_db.updated_certs), len(s.certificate_db.not_confirmed_certs))


EFFECT = {"ir": (1, 0, 0, 0), "cr": (1, 0, 0, 0), "p10cr": (1, 0, 0, 0), "kur": (1, 0, 1, 0), "rr": (0, 1, 0, 0),
          "genm": (0, 0, 0, 0)}


def request_case(x):
    """P16: accepted or refused as specified, and no effect unless accepted."""
    case, want = x["c"], x["req"]
    cl = client(case["prot"])
    c, body, prot = cl, case["body"], case["prot"]
    m = c.message(body, prot, case["defects"])
    before = lists(c)
    try:
        resp = ca.send(c.h, m)
    except Exception as e:  # noqa: BLE001
        return ["the CA raised instead of answering: " + repr(e)[:200]]
    a = ca.abstract(resp)
    after = lists(c)
    delta = tuple(y - z for y, z in zip(after, before))
    got = ca.ok(a)
    bad = []
    if got != want["ok"]:
        bad.append(f"{'accepted' if got else 'refused'}, should be {'accepted' if want['ok'] else 'refused'}")
    if not want["ok"] and not got and (not a["fail"] or not a["fail"] <= set(want["fail"])):
        bad.append(f"failInfo {sorted(a['fail'])}, should be one of {want['fail']}")
    if delta != (EFFECT[body] if want["ok"] else (0, 0, 0, 0)):
        bad.append(f"issued/revoked/updated/unconfirmed certificates changed by {delta}")
    if got and body == "kur":
        c.holder(prot)
    return [bad, {"body": a["body"], "fail": sorted(a["fail"]), "text": a["text"][:1]}] if bad else []


_SEEN = set()


def response_case(x):
    """P11: the header and the protection of the answer."""
    case, want = x["c"], x["resp"]
    c, req, resp, a, _ = exchange(case)
    if resp is None:
        return a
    f = X.answer_facts(c, req, resp, case["prot"])
    bad = []
    if want["tx"] == "echoed" and not f["tx"]:
        bad.append("transactionID not echoed")
    if want["recip"] != "any" and not f["recip"]:
        bad.append("recipNonce is not the request's senderNonce")
    if want["nonce"] != "16 bytes" and (not f["nonce"] or f["nonce_value"] in _SEEN):
        bad.append("senderNonce is not a fresh 16 byte nonce")
    _SEEN.add(f["nonce_value"])
    if not f["time"]:
        bad.append("no messageTime")
    if f["prot"] != want["prot"]:
        bad.append(f"protected by: {f['prot']}, should be: {want['prot']}")
    if want["regular"] and ca.ok(a):
        if not f["pvno"]:
            bad.append("pvno not echoed")
        if not f["recipient"]:
            bad.append("the recipient is not the requester")
    return [bad, f] if bad else []


def all_cases(rep, prots, n):
    return T.cases(rep, "Exchange", dict(Bodies=frozenset(BODIES), Prots=frozenset(prots), MaxDefects=n), INV)
