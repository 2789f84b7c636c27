"""P24: a hybrid credential is accepted only if both of its proofs are right, under the keys it binds."""
import random
import warnings

from cryptography.exceptions import InvalidSignature
from pyasn1.codec.der import decoder, encoder
from pyasn1.type import tag, univ
from pyasn1_alt_modules import rfc5280, rfc5652, rfc6402, rfc9480

from harness import wenv
from harness.report import Report
from pq_logic import pq_verify_logic
from pq_logic.hybrid_sig import (catalyst_logic, cert_binding_for_multi_auth as multi, certdiscovery, chameleon_logic,
                                 sun_lamps_hybrid_scheme_00 as sun)
from pq_logic.hybrid_structures import AltSignatureValueExt, RequesterCertificate
from pq_logic.keys.composite_sig import CompositeSigPrivateKey, CompositeSigPublicKey
from pq_logic.tmp_oids import id_altSignatureExt, id_altSubPubKeyExt
from resources import (certbuildutils, certutils, cmputils, convertutils, cryptoutils, keyutils, prepare_alg_ids, protectionutils,
                       utils)
from resources.oidutils import id_ce_altSignatureAlgorithm, id_ce_altSignatureValue, id_ce_subjectAltPublicKeyInfo

from . import table as T

RAW = {"compositeRsa": ("rsa", False), "compositeRsaPss": ("rsa", True), "compositeEc": ("ec", False), "compositeEd25519": ("ed25519", False)}
BINDINGS = ["compositeCert", "related", "sunByValue", "sunByHash", "catalystExt", "chameleon", "discovery"]
COMP_MSG = ["compositeMsg:" + b for b in BINDINGS]
CAT_MSG = ["catalystMsg:" + b for b in BINDINGS if b != "compositeCert"] + ["catalystMsg:own"]
CERTS = ["catalystCert", "catalystCrl", "sunCert", "sunCertByValue", "pairedCsr", "requester"]
SCHEMES = [*RAW, *COMP_MSG, *CAT_MSG, *CERTS]
NESTED = {*CAT_MSG, *CERTS}
LINKED = {p + b for p in ("compositeMsg:", "catalystMsg:") for b in ("related", "sunByHash", "discovery")} | {"sunCert"}
NO_DROP = {"requester"}
SUB = "explicitTag"
_K = {}


def stuff():
    if _K:
        return _K
    warnings.simplefilter("ignore")
    g = keyutils.generate_key
    k = {}
    for who in ("owner", "attacker"):
        k[who] = {"rsa": g("rsa", length=2048), "ec": g("ec", curve="secp256r1"), "ed25519": g("ed25519"), "pq": g("ml-dsa-44"),
                  "pqOther": g("ml-dsa-65")}
    k["caKey"] = g("ec", curve="secp256r1")
    k["caCert"], _ = certbuildutils.build_certificate(private_key=k["caKey"], common_name="CN=CA", hash_alg="sha256")
    _K.update(k)
    _K["bound"] = {b: binding(b) for b in BINDINGS}
    _K["bound"]["own"] = _K["bound"]["catalystExt"]
    return _K


def issue(key, name, extensions=None):
    c, _ = certbuildutils.build_certificate(private_key=key, common_name=name, hash_alg="sha256", ca_key=_K["caKey"], ca_cert=_K["caCert"],
                                            extensions=extensions)
    return decoder.decode(encoder.encode(c), rfc9480.CMPCertificate())[0]


def spki(key):
    return encoder.encode(convertutils.subject_public_key_info_from_pubkey(key.public_key()))


def binding(b):
    """(certificate, what is kept elsewhere, other certificates, the two with a key put in the place of the owner's)."""
    o, a = _K["owner"], _K["attacker"]
    cl, pq = o["rsa"], o["pq"]
    away, away2, others, others2 = {}, {}, [], []
    if b == "compositeCert":
        cert = issue(CompositeSigPrivateKey(pq_key=pq, trad_key=cl), "CN=Hybrid")
    elif b == "related":
        rel, rel2 = issue(pq, "CN=Related"), issue(a["pq"], "CN=Related")
        cert = issue(cl, "CN=Hybrid", [multi.prepare_related_cert_extension(cert_a=rel, hash_alg="sha256")])
        others, others2 = [rel], [rel2]
    elif b in ("sunByValue", "sunByHash"):
        e = sun.prepare_sun_hybrid_alt_sub_pub_key_ext(pq.public_key(), by_val=b == "sunByValue", hash_alg="sha256", location="http://x/key")
        cert = issue(cl, "CN=Hybrid", [e])
        away, away2 = {"http://x/key": spki(pq)}, {"http://x/key": spki(a["pq"])}
    elif b == "catalystExt":
        cert = issue(cl, "CN=Hybrid", [catalyst_logic.prepare_subject_alt_public_key_info_extn(key=pq.public_key())])
    elif b == "chameleon":
        csr = chameleon_logic.build_paired_csr(base_private_key=cl, delta_private_key=pq, base_common_name="CN=Hybrid")
        cert, _ = chameleon_logic.build_chameleon_cert_from_paired_csr(csr=csr, ca_key=_K["caKey"], ca_cert=_K["caCert"])
        cert = decoder.decode(encoder.encode(cert), rfc9480.CMPCertificate())[0]
    else:
        rel, rel2 = issue(pq, "CN=Related"), issue(a["pqOther"], "CN=Related")
        cert = issue(cl, "CN=Hybrid", [certdiscovery.prepare_subject_info_access_syntax_extension(url="http://x/cert", other_cert=rel)])
        away, away2 = {"http://x/cert": encoder.encode(rel)}, {"http://x/cert": encoder.encode(rel2)}
    return cert, (away, others), (away2, others2)


class Hand:
    """Who makes the proofs, and how. The first pass is the owner's; the second makes what the case says."""

    def __init__(self):
        self.made, self.case = {}, None

    def __call__(self, half, own, theirs, data):
        """own, theirs: functions that sign."""
        if self.case is None:
            self.made[half] = own(data)
            return self.made[half]
        how = self.case[half]
        if how == "owner":
            # a randomised signature over the same bytes stays what it was
            return own(data)
        if how == "copied":
            return self.made[half]
        if how == "attacker":
            return theirs(data)
        if how == "broken":
            s = bytearray(own(data))
            s[len(s) // 2] ^= 1
            return bytes(s)
        return None

    @property
    def content(self):
        return "owners" if self.case is None else self.case["content"]


def signer(key, hash_alg="sha256", **kw):
    return lambda data: cryptoutils.sign_data(data=data, key=key, hash_alg=hash_alg, **kw)


def alg(key):
    return prepare_alg_ids.prepare_sig_alg_id(signing_key=key, hash_alg="sha256", use_rsa_pss=False)


def ext(oid, value):
    e = rfc5280.Extension()
    e["extnID"], e["critical"], e["extnValue"] = oid, False, univ.OctetString(encoder.encode(value))
    return e


def again(obj, spec):
    return decoder.decode(encoder.encode(obj), spec)[0]


# -- the schemes: build(hand) -> what is presented; verify(it, link)

def composite_halves(hand, data, trad, use_pss):
    o, a = _K["owner"], _K["attacker"]
    own = CompositeSigPrivateKey(pq_key=o["pq"], trad_key=o[trad])
    their = CompositeSigPrivateKey(pq_key=a["pq"], trad_key=a[trad])
    m, label = own._prepare_input(data=data, ctx=b"", use_pss=use_pss)
    pq = hand("pq", lambda d: o["pq"].sign(data=d, ctx=label), lambda d: a["pq"].sign(data=d, ctx=label), m)
    cl = hand("classical", lambda d: own._sign_trad(d, use_pss=use_pss), lambda d: their._sign_trad(d, use_pss=use_pss), m)
    return (pq or b"") + (cl or b"")


def raw_build(scheme, hand):
    trad, pss = RAW[scheme]
    data = b"content " + hand.content.encode()
    return data, composite_halves(hand, data, trad, pss)


def raw_verify(scheme, it, link):
    trad, pss = RAW[scheme]
    k = CompositeSigPublicKey(pq_key=_K["owner"]["pq"].public_key(), trad_key=_K["owner"][trad].public_key())
    k.verify(data=it[0], signature=it[1], use_pss=pss)


def message(content):
    csr = certbuildutils.build_csr(signing_key=_K["owner"]["ec"], common_name="CN=" + content)
    return cmputils.build_p10cr_from_csr(csr, transaction_id=b"T" * 16, sender_nonce=b"N" * 16)


def msg_build(scheme, hand):
    kind, b = scheme.split(":")
    o, a = _K["owner"], _K["attacker"]
    m = message(hand.content)
    tagged = lambda x: x.subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1), cloneValueFlag=True)  # noqa: E731
    if kind == "compositeMsg":
        m["header"]["protectionAlg"] = tagged(prepare_alg_ids.prepare_sig_alg_id(
            signing_key=CompositeSigPrivateKey(pq_key=o["pq"], trad_key=o["rsa"]), hash_alg="sha256", use_rsa_pss=True))
        sig = composite_halves(hand, protectionutils.prepare_protected_part(m), "rsa", True)
    else:
        ak = a["pqOther"] if b == "discovery" else a["pq"]
        m["header"]["protectionAlg"] = tagged(alg(o["rsa"]))
        theirs = hand.case is not None and hand.case["pq"] == "attacker"
        used = ak if theirs else o["pq"]
        if hand.case is None or hand.case["pq"] != "missing":
            info, pub = protectionutils._prepare_catalyst_info_vals(prot_alg_id=alg(used), public_key=used.public_key() if b == "own" else None)
            m["header"]["generalInfo"].append(info)
            if pub is not None:
                m["header"]["generalInfo"].append(pub)
            s = hand("pq", signer(o["pq"], None), signer(ak, None), protectionutils.prepare_protected_part(m))
            v = rfc9480.InfoTypeAndValue()
            v["infoType"], v["infoValue"] = id_ce_altSignatureValue, encoder.encode(univ.BitString.fromOctetString(s))
            m["header"]["generalInfo"].append(v)
        sig = hand("classical", signer(o["rsa"]), signer(a["rsa"]), protectionutils.prepare_protected_part(m))
    m["protection"] = protectionutils.prepare_pki_protection_field(sig)
    return m


def msg_verify(scheme, m, link):
    kind, b = scheme.split(":")
    cert, right, wrong = _K["bound"][b]
    away, others = right if link == "right" else wrong
    cmputils.add_extra_certs(m, [cert, *others]) if hasattr(cmputils, "add_extra_certs") else m["extraCerts"].extend([cert, *others])
    m = cmputils.parse_pkimessage(encoder.encode(m))
    fetch.known = away
    pq_verify_logic.verify_hybrid_pkimessage_protection(m, must_be_catalyst_signed=kind == "catalystMsg")


def tbs(content, key, extensions=None, signing=None):
    return certbuildutils.prepare_tbs_certificate(subject="CN=" + content, signing_key=signing or key, public_key=key.public_key(), serial_number=7,
                                                  use_rsa_pss=False, extensions=extensions, issuer_cert=None)


def close(t, sig, key):
    c = rfc9480.CMPCertificate()
    c["tbsCertificate"], c["signatureAlgorithm"] = t, alg(key)
    c["signature"] = univ.BitString.fromOctetString(sig)
    return again(c, rfc9480.CMPCertificate())


def cat_cert_build(scheme, hand):
    o, a = _K["owner"], _K["attacker"]
    t = tbs(hand.content, o["rsa"], [catalyst_logic.prepare_alt_sig_alg_id_extn(alg(o["pq"])),
                                     catalyst_logic.prepare_subject_alt_public_key_info_extn(key=o["pq"].public_key())])
    c = rfc9480.CMPCertificate()
    c["tbsCertificate"] = t
    s = hand("pq", signer(o["pq"], None), signer(a["pq"], None), catalyst_logic.extract_alt_signature_data(c))
    if s is not None:
        t["extensions"].append(ext(id_ce_altSignatureValue, AltSignatureValueExt.fromOctetString(s)))
    return close(t, hand("classical", signer(o["rsa"]), signer(a["rsa"]), encoder.encode(t)), o["rsa"])


def cat_cert_verify(scheme, c, link):
    catalyst_logic.verify_catalyst_signature(c, issuer_pub_key=_K["owner"]["rsa"].public_key())


def crl_build(scheme, hand):
    o, a = _K["owner"], _K["attacker"]
    crl = rfc5280.CertificateList()
    t = crl["tbsCertList"]
    t["version"] = 1
    t["signature"] = alg(o["rsa"])
    t["issuer"] = _K["bound"]["catalystExt"][0]["tbsCertificate"]["subject"]
    t["thisUpdate"] = certbuildutils.default_validity()["notBefore"]
    r = rfc5280.TBSCertList()["revokedCertificates"].componentType.clone()
    r["userCertificate"] = 5 if hand.content == "owners" else 6
    r["revocationDate"] = certbuildutils.default_validity()["notBefore"]
    t["revokedCertificates"].append(r)
    crl["signatureAlgorithm"] = alg(o["rsa"])
    if hand.case is None or hand.case["pq"] != "missing":
        t["crlExtensions"].append(catalyst_logic.prepare_alt_sig_alg_id_extn(alg(o["pq"])))
        s = hand("pq", signer(o["pq"], None), signer(a["pq"], None), encoder.encode(t) + encoder.encode(crl["signatureAlgorithm"]))
        t["crlExtensions"].append(catalyst_logic.prepare_alt_signature_value_extn(signature=s))
    s = hand("classical", signer(o["rsa"]), signer(a["rsa"]), encoder.encode(t))
    crl["signature"] = univ.BitString.fromOctetString(s)
    return again(crl, rfc5280.CertificateList())


def crl_verify(scheme, crl, link):
    pq_verify_logic.verify_crl_signature(crl, _K["bound"]["catalystExt"][0], alt_public_key=_K["owner"]["pq"].public_key(),
                                         must_be_catalyst_signed=True)


def sun_build(scheme, hand):
    o, a = _K["owner"], _K["attacker"]
    pub = sun.prepare_sun_hybrid_alt_sub_pub_key_ext
    t = tbs(hand.content, o["ec"], [pub(o["pqOther"].public_key(), by_val=False, hash_alg="sha256", location="http://x/key")], signing=o["rsa"])
    s = hand("pq", signer(o["pq"], None), signer(a["pq"], None), encoder.encode(t))
    if s is not None:
        sig_ext = lambda v: sun.prepare_sun_hybrid_alt_signature_ext(  # noqa: E731
            signature=s, by_val=v, hash_alg="sha256", alt_sig_algorithm=alg(o["pq"]), location="http://x/sig")
        t["extensions"].append(sig_ext(False))
    cl = hand("classical", signer(o["rsa"]), signer(a["rsa"]), encoder.encode(t))
    if scheme == "sunCertByValue":
        for i, e in enumerate(t["extensions"]):
            if e["extnID"] == id_altSubPubKeyExt:
                t["extensions"][i] = pub(o["pqOther"].public_key(), by_val=True, hash_alg="sha256", location="http://x/key")
            elif e["extnID"] == id_altSignatureExt:
                t["extensions"][i] = sig_ext(True)
    return close(t, cl, o["rsa"]), {"http://x/key": spki(o["pqOther"]), "http://x/sig": s}


def sun_verify(scheme, it, link):
    c, away = it
    if link != "right":
        away = dict(away, **{"http://x/key": spki(_K["attacker"]["pqOther"])})
    fetch.known = away
    pq_verify_logic.verify_sun_hybrid_cert(c, _K["bound"]["catalystExt"][0], alt_issuer_key=_K["owner"]["pq"].public_key())


def csr_close(csr, sig, key):
    csr["signatureAlgorithm"] = alg(key)
    csr["signature"] = univ.BitString.fromOctetString(sig)
    return again(csr, rfc6402.CertificationRequest())


def paired_build(scheme, hand):
    o, a = _K["owner"], _K["attacker"]
    csr = certbuildutils.build_csr(signing_key=o["rsa"], common_name="CN=" + hand.content, exclude_signature=True, use_rsa_pss=False)
    dr = chameleon_logic.prepare_delta_cert_req(signing_key=o["pq"])
    at = csr["certificationRequestInfo"]["attributes"]
    at.append(certbuildutils.prepare_single_value_attr(chameleon_logic.id_at_deltaCertificateRequest, dr))
    s = hand("pq", signer(o["pq"], None), signer(a["pq"], None), encoder.encode(csr["certificationRequestInfo"]))
    if s is not None:
        at.append(certbuildutils.prepare_single_value_attr(chameleon_logic.id_at_deltaCertificateRequestSignature,
                                                           chameleon_logic.DeltaCertificateRequestSignatureValue.fromOctetString(s)))
    return csr_close(csr, hand("classical", signer(o["rsa"]), signer(a["rsa"]), encoder.encode(csr["certificationRequestInfo"])), o["rsa"])


def paired_verify(scheme, csr, link):
    chameleon_logic.verify_paired_csr_signature(csr)


def requester_build(scheme, hand):
    """A request for a classical certificate related to the post-quantum one the requester has."""
    o, a = _K["owner"], _K["attacker"]
    rel = _K["bound"]["related"][1][1][0]
    r = multi.prepare_requester_certificate(cert_a=rel, cert_a_key=o["pq"], uri="http://x/cert", hash_alg="sha256",
                                            freshness=0 if hand.content == "owners" else -20)
    s = hand("pq", signer(o["pq"]), signer(a["pq"]), encoder.encode(r["requestTime"]) + encoder.encode(r["certID"]))
    r["signature"] = univ.BitString.fromOctetString(s)
    csr = certbuildutils.build_csr(signing_key=o["rsa"], common_name="CN=Hybrid", exclude_signature=True, use_rsa_pss=False)
    csr = multi.add_csr_related_cert_request_attribute(csr, r)
    return csr_close(csr, hand("classical", signer(o["rsa"]), signer(a["rsa"]), encoder.encode(csr["certificationRequestInfo"])), o["rsa"])


def requester_verify(scheme, csr, link):
    fetch.known = {"http://x/cert": encoder.encode(_K["bound"]["related"][1][1][0])}
    certutils.verify_csr_signature(csr)
    multi.validate_related_cert_pop(csr, hash_alg="sha256")


def fetch(location, timeout=20):
    return fetch.known.get(str(location))


HANDLERS = {**{s: (raw_build, raw_verify) for s in RAW}, **{s: (msg_build, msg_verify) for s in (*COMP_MSG, *CAT_MSG)},
            "catalystCert": (cat_cert_build, cat_cert_verify), "catalystCrl": (crl_build, crl_verify), "sunCert": (sun_build, sun_verify),
            "sunCertByValue": (sun_build, sun_verify), "pairedCsr": (paired_build, paired_verify), "requester": (requester_build, requester_verify)}


def case(e):
    warnings.simplefilter("ignore")
    utils.fetch_value_from_location = fetch
    build, verify = HANDLERS[e["scheme"]]
    hand = Hand()
    build(e["scheme"], hand)
    hand.case = e
    it = build(e["scheme"], hand)
    why = None
    try:
        verify(e["scheme"], it, e["link"])
        got = "accepted"
    except Exception as err:  # noqa: BLE001
        got, why = "refused", repr(err)[:300]
    return [] if got == e["verdict"] else [[f"the credential is {got}, should be {e['verdict']}"], why]


def label(e):
    return ":".join(e[n] for n in ("scheme", "content", "pq", "classical", "link"))


def main(tier, args):
    rep = Report("P24", tier)
    lst = T.cases(rep, "Hybrid", dict(Schemes=frozenset(SCHEMES), Nested=frozenset(NESTED), Linked=frozenset(LINKED), NoDrop=frozenset(NO_DROP),
                                     Joined=frozenset([*RAW, *COMP_MSG])),
                  ["BothKeys", "NoDowngrade", "Bound", "Complete"])
    stuff()
    if tier != "thorough":
        one_off = lambda e: e["link"] != "right" or sum(e[h] != "owner" for h in ("pq", "classical")) < 2  # noqa: E731
        lst = T.sample(lst, one_off, 200)
    T.run(rep, "hybrid", lst, case, key=label)
    return rep.finish()
