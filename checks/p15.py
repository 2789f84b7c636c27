"""P15: a message with several certificate requests is granted or refused as a whole."""
from harness import ca, exchange as X
from harness.report import Report
from pyasn1_alt_modules import rfc4211
from resources import cmputils, keyutils, utils

from . import table as T

_C = []


def client():
    if not _C:
        _C.append(X.Client(("sig-ec",)))
    return _C[0]


def build(cl, body, entries, implicit=True):
    """The message, with fresh keys and subjects for the numbers in entries."""
    keys = {n: keyutils.generate_key("ec") for n in {e["key"] for e in entries}}
    names = {n: cl.fresh() for n in {e["subj"] for e in entries}}
    ms = []
    for e in entries:
        cr = cmputils.prepare_cert_request(keys[e["key"]], names[e["subj"]], cert_req_id=e["id"])
        m = rfc4211.CertReqMsg()
        m["certReq"] = cr
        m["popo"] = cmputils.prepare_signature_popo(keys[e["key"]] if e["popo"] else keyutils.generate_key("ec"), cr)
        ms.append(m)
    fn = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key}[body]
    msg = fn(keys[entries[0]["key"]], cert_req_msg=ms, implicit_confirm=implicit, recipient="CN=CA",
             exclude_fields="sender,senderKID")
    return cl.protect(msg, "sig-ec"), keys, names


def case(x):
    cl = client()
    entries = x["msg"]
    msg, keys, names = build(cl, x["body"], entries)
    s = cl.h.state.certificate_db
    before = len(s.issued_certs), len(s.not_confirmed_certs)
    try:
        resp = ca.send(cl.h, msg)
    except Exception as ex:  # noqa: BLE001
        return ["the CA raised " + repr(ex)[:200]]
    a = ca.abstract(resp)
    after = len(s.issued_certs), len(s.not_confirmed_certs)
    bad = []
    if x["fail"]:
        if ca.ok(a) or any(st in ("accepted", "grantedWithMods") for st in a["status"]):
            bad.append("granted")
        if before != after:
            bad.append(f"(issued, unconfirmed) {before} -> {after}")
        if not set(a["fail"]) & set(x["fail"]):
            bad.append(f"failInfo {sorted(a['fail'])}, expected one of {x['fail']}")
    else:
        if after != (before[0] + len(entries), before[1]):
            bad.append(f"(issued, unconfirmed) {before} -> {after}, {len(entries)} requests")
        if not ca.ok(a):
            bad.append("refused")
        else:
            got = {}
            for r in resp["body"][a["body"]]["response"]:
                cert = r["certifiedKeyPair"]["certOrEncCert"]["certificate"]
                i = int(r["certReqId"])
                if i in got:
                    bad.append(f"two answers for certReqId {i}")
                got[i] = cert
            if set(got) != {e["id"] for e in entries}:
                bad.append(f"answers for {sorted(got)}")
            for e in entries:
                c = got.get(e["id"])
                if c is None:
                    continue
                pub = keyutils.load_public_key_from_spki(c["tbsCertificate"]["subjectPublicKeyInfo"])
                if pub != keys[e["key"]].public_key():
                    bad.append(f"certificate {e['id']} is for another key")
                if utils.get_openssl_name_notation(c["tbsCertificate"]["subject"]) != names[e["subj"]]:
                    bad.append(f"certificate {e['id']} is for another subject")
            if len({int(c["tbsCertificate"]["serialNumber"]) for c in got.values()}) != len(got):
                bad.append("serial numbers repeat")
    return [bad, {"body": a["body"], "fail": sorted(a["fail"]), "text": a["text"][:1]}] if bad else []


def main(tier, args):
    rep = Report("P15", tier)
    lst = T.cases(rep, "MultiReq", dict(MaxLen=3, Ids=frozenset({0,1,2})), ["AllOrNothing", "OneCertificatePerEntry", "NoKeyTwice"])
    client()
    if tier == "quick":
        ok = [x for x in lst if not x["fail"]]
        single = [x for x in lst if len(x["fail"]) == 1 and (x["body"] == "cr" or len(x["msg"]) == 1)]
        rest = [x for x in lst if x not in ok and x not in single]
        lst = ok + T.sample(single, lambda x: False, 420) + T.sample(rest, lambda x: False, 100)
    T.run(rep, "multi", lst, case)
    return rep.finish()
