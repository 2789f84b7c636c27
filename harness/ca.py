"""Adaptor between abstract protocol actions and the real Mock CA.

Every request is built with the suite's own client functions, sent as DER (encode + parse, as the
HTTP route does) to ``CAHandler.process_normal_request`` and the answer is abstracted to a small
record.  The state that is compared with the specification is only what the public API exposes.
"""
import os
import sys

from . import wenv  # noqa: F401  (must be first)

from pyasn1.codec.der import decoder, encoder
from pyasn1.type import tag
from pyasn1_alt_modules import rfc9480

from mock_ca.ca_handler import CAHandler
from resources import cmputils, keyutils, protectionutils, certutils, utils
from resources.asn1_structures import PKIMessageTMP
from unit_tests.utils_for_test import load_ca_cert_and_key

PASSWORD = "SiemensIT"
_CA = None


def ca_cert_and_key():
    global _CA
    if _CA is None:
        _CA = load_ca_cert_and_key()
    return _CA


_RA = None


def ra():
    """The key and the certificate of the RA the CA trusts (data/trusted_ras)."""
    global _RA
    if _RA is None:
        _RA = (keyutils.load_private_key_from_file("data/keys/private-key-ecdsa.pem"),
               certutils.parse_certificate(utils.load_and_decode_pem_file("data/trusted_ras/ra_cms_cert_ecdsa.pem")))
    return _RA


def new_handler(**kw) -> CAHandler:
    c, k = ca_cert_and_key()
    return CAHandler(ca_cert=c, ca_key=k, **kw)


def der(msg) -> bytes:
    return encoder.encode(msg)


def reparse(msg):
    return cmputils.parse_pkimessage(der(msg))


def send(handler, msg, raw=None):
    """Send one request; the request travels as DER, the answer too."""
    data = raw if raw is not None else der(msg)
    req = cmputils.parse_pkimessage(data)
    resp = handler.process_normal_request(req)
    return cmputils.parse_pkimessage(der(resp))


FAIL_NAMES = None


def fail_set(status_info):
    fi = status_info["failInfo"]
    if not fi.isValue:
        return frozenset()
    names = list(fi.namedValues)
    bits = fi.asBinary()
    n = len(fi)
    s = str(fi.asBinary()).rjust(n, "0")
    out = set()
    by_num = {v: k for k, v in fi.namedValues.items()}
    for i, b in enumerate(s):
        if b == "1":
            out.add(by_num.get(i, f"bit{i}"))
    return frozenset(out)


def status_text(si):
    out = []
    if si["statusString"].isValue:
        out = [str(x) for x in si["statusString"]]
    return out


STATUS = {0: "accepted", 1: "grantedWithMods", 2: "rejection", 3: "waiting", 4: "revocationWarning",
          5: "revocationNotification", 6: "keyUpdateWarning"}


def abstract(resp):
    """(body, status list, fail set of the first non accepted entry, text)."""
    body = resp["body"].getName()
    sts, fails, text = [], frozenset(), []
    if body == "error":
        si = resp["body"]["error"]["pKIStatusInfo"]
        sts.append(STATUS[int(si["status"])])
        fails |= fail_set(si)
        text += status_text(si)
    elif body in ("ip", "cp", "kup", "ccp"):
        for r in resp["body"][body]["response"]:
            si = r["status"]
            sts.append(STATUS[int(si["status"])])
            fails |= fail_set(si)
            text += status_text(si)
    elif body == "rp":
        for si in resp["body"]["rp"]["status"]:
            sts.append(STATUS[int(si["status"])])
            fails |= fail_set(si)
            text += status_text(si)
    return {"body": body, "status": sts, "fail": fails, "text": text}


def ok(a) -> bool:
    """Did the CA perform what was asked?"""
    if a["body"] == "error":
        return False
    return all(s in ("accepted", "grantedWithMods") for s in a["status"])


def certs_of(resp):
    body = resp["body"].getName()
    out = []
    for i in range(len(resp["body"][body]["response"])):
        out.append(cmputils.get_cert_from_pkimessage(resp, cert_number=i))
    return out


def plain_certs(resp):
    """The certificates an answer delivers in the clear (none for errors, rejections, encrypted certificates)."""
    body = resp["body"].getName()
    out = []
    if body not in ("ip", "cp", "kup", "ccp"):
        return out
    for r in resp["body"][body]["response"]:
        ck = r["certifiedKeyPair"]
        if ck.isValue and ck["certOrEncCert"].getName() == "certificate":
            out.append(ck["certOrEncCert"]["certificate"])
    return out


def set_protection(msg, data: bytes):
    msg["protection"] = rfc9480.PKIProtection().fromOctetString(data).subtype(
        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
    return msg


def tx(resp):
    return resp["header"]["transactionID"].asOctets()
