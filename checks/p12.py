"""P12: no certificate without proof of possession."""
from pyasn1.codec.der import encoder

from harness import ca, exchange as X, popo as Q
from harness.report import Report
from resources import extra_issuing_logic, keyutils

from . import table as T

SIGN = ["ec", "rsa", "ed25519", "mldsa", "slhdsa", "composite-sig"]
KEM, AGREE = ["mlkem", "composite-kem", "xwing"], ["ec", "x25519", "x448"]
_C = []
PROT = {"mac": "password_based_mac", "sig": "sig-ec", "ra": "ra"}


def client():
    if not _C:
        _C.append(X.Client(("sig-ec",)))
    return _C[0]


def case(x):
    c, e = x["c"], x["e"]
    cl = client()
    kit = Q.Kit(cl, c["key"], c["proof"], c["body"], PROT[c["prot"]])
    m = kit.message()
    s = cl.h.state.certificate_db
    before = (len(s.issued_certs), len(s.not_confirmed_certs))
    try:
        resp = ca.send(cl.h, m)
    except Exception as ex:  # noqa: BLE001
        return ["the CA raised " + repr(ex)[:200]]
    a = ca.abstract(resp)
    after = (len(s.issued_certs), len(s.not_confirmed_certs))
    bad = []
    if e["out"] == "refused":
        if ca.ok(a):
            bad.append("issued without proof of possession")
        if before != after:
            bad.append(f"(issued, unconfirmed) went from {before} to {after}")
        if e["fail"] and not set(e["fail"]) & set(a["fail"]):
            bad.append(f"failInfo {sorted(a['fail'])}, should contain {e['fail']}")
        if _certified(resp, kit.key) or _certified(resp, kit.other):
            bad.append("the answer carries a certificate for the key")
    elif not ca.ok(a):
        bad.append("refused although possession is proven")
    elif e["form"] == "plain":
        certs = ca.plain_certs(resp)
        if not certs or not _is_for(certs[0], kit.key):
            bad.append("the certificate is not for the requested key")
        if after[0] + after[1] != before[0] + before[1] + 1:
            bad.append(f"(issued, unconfirmed) went from {before} to {after}")
    else:
        bad += encrypted(kit, resp)
        if after != (before[0], before[1] + 1):
            bad.append(f"an undelivered certificate counts as confirmed: (issued, unconfirmed) {before} -> {after}")
    if c["body"] == "kur" and ca.ok(a):
        cl.holder("sig-ec")
    return [bad, {"body": a["body"], "fail": sorted(a["fail"]), "text": a["text"][:1]}] if bad else []


def _spki(key):
    return keyutils.prepare_subject_public_key_info(key.public_key())["subjectPublicKey"].asOctets()


def _certified(resp, key):
    return any(_is_for(c, key) for c in ca.plain_certs(resp))


def _is_for(cert, key):
    return keyutils.load_public_key_from_spki(cert["tbsCertificate"]["subjectPublicKeyInfo"]) == key.public_key()


def encrypted(kit, resp):
    """The certificate must be readable with the requested key only."""
    bad = []
    if _spki(kit.key) in encoder.encode(resp):
        bad.append("the certificate is in the answer in the clear")
    if ca.plain_certs(resp):
        bad.append("a plain certificate is in the answer")
    try:
        cert = _dec(resp, kit.key, kit.keytype)
        if not _is_for(cert, kit.key):
            bad.append("the encrypted certificate is for another key")
    except Exception as ex:  # noqa: BLE001
        bad.append("cannot be decrypted with the requested key: " + repr(ex)[:150])
    try:
        _dec(resp, kit.other, kit.keytype)
        bad.append("can be decrypted with a different key")
    except Exception:  # noqa: BLE001
        pass
    return bad


def _dec(resp, key, keytype):
    kw = {}
    if keytype in AGREE:        # the CA's key agreement certificate, which answers with a MAC do not carry
        cert = Q.env()[{"x25519": "x25519_cert", "x448": "x448_cert", "ec": "ecc_cert"}[keytype]]
        kw["server_cert"] = cert
        resp["extraCerts"][1] = cert
    return extra_issuing_logic.get_enc_cert_from_pkimessage(resp, ee_private_key=key, exclude_rid_check=True, **kw)


def main(tier, args):
    rep = Report("P12", tier)
    sign = SIGN if tier != "quick" else [k for k in SIGN if k != "slhdsa"]
    lst = T.cases(rep, "Popo", dict(SignKeys=frozenset(sign), KemKeys=frozenset(KEM), AgreeKeys=frozenset(AGREE)),
                  ["NoProofNoCertificate", "EncryptedOnlyWhenDeferred"])
    client()
    if tier == "quick":
        lst = T.sample(lst, lambda x: x["c"]["body"] != "cr" and x["c"]["prot"] != "ra" and x["c"]["key"] in ("ec", "x25519", "mlkem"), 260)
    T.run(rep, "proof", lst, case)
    return rep.finish()
