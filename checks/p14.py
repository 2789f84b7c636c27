"""P14: the certificate is what was asked for, and a certificate the CA may issue."""
import datetime
import random

from cryptography import x509
from pyasn1.codec.der import decoder, encoder
from pyasn1.type import tag, univ
from pyasn1_alt_modules import rfc4211, rfc5280, rfc9480

from harness import ca, exchange as X, popo as Q
from harness.report import Report
from resources import certbuildutils, cmputils, keyutils, prepareutils, protectionutils

from . import p12, table as T

ROUTES = ["ir", "cr", "kur", "p10cr", "ra", "encrCert", "agreeMac", "agreeEncrCert", "encKey"]
NO_TIME = 99999
OID = {"ku": "2.5.29.15", "kuCA": "2.5.29.15", "kuN": "2.5.29.15", "eku": "2.5.29.37", "ekuC": "2.5.29.37", "san": "2.5.29.17", "bcEE": "2.5.29.19", "bcCA": "2.5.29.19",
       "bcCAlen": "2.5.29.19", "ski": "2.5.29.14", "aki": "2.5.29.35", "aia": "1.3.6.1.5.5.7.1.1", "crldp": "2.5.29.31",
       "idp": "2.5.29.28"}
_C = []


def client():
    if not _C:
        _C.append(X.Client(("sig-ec",)))
        _C.append(set())            # the serial numbers this process has seen
    return _C[0]


def extension(name, key, kind):
    f, c = certbuildutils, False
    ku = {"sign": "digitalSignature", "kem": "keyEncipherment", "agree": "keyAgreement"}[kind]
    ca_pub = ca.ca_cert_and_key()[1].public_key()
    return {
        "ku": lambda: f.prepare_key_usage_extension(ku, critical=True),
        "kuBad": lambda: f.prepare_key_usage_extension("keyEncipherment" if kind == "sign" else "digitalSignature", critical=True),
        "kuCA": lambda: f.prepare_key_usage_extension("keyCertSign,cRLSign", critical=True),
        "kuN": lambda: f.prepare_key_usage_extension(ku, critical=c),
        "eku": lambda: f._prepare_extended_key_usage(oids=[univ.ObjectIdentifier("1.3.6.1.5.5.7.3.2")], critical=c),
        "ekuC": lambda: f._prepare_extended_key_usage(oids=[univ.ObjectIdentifier("1.3.6.1.5.5.7.3.2")], critical=True),
        "san": lambda: f.prepare_subject_alt_name_extension("verif.example.com"),
        "bcEE": lambda: f.prepare_basic_constraints_extension(ca=False, critical=True),
        "bcCA": lambda: f.prepare_basic_constraints_extension(ca=True, critical=True),
        "bcCAlen": lambda: f.prepare_basic_constraints_extension(ca=True, path_length=2, critical=True),
        "bcBad": lambda: f.prepare_basic_constraints_extension(ca=False, path_length=2),
        "ski": lambda: f.prepare_ski_extension(key, critical=c),
        "skiBad": lambda: f.prepare_ski_extension(Q.gen("ec"), critical=c),
        "aki": lambda: f.prepare_authority_key_identifier_extension(ca_key=ca_pub, critical=c),
        "akiBad": lambda: f.prepare_authority_key_identifier_extension(ca_key=Q.gen("ec").public_key(), critical=c),
        "unknown": lambda: f.prepare_extension_structure(univ.ObjectIdentifier("1.2.3.4.5.6"), univ.Null(""), critical=c),
    }[name]()


def now():
    return datetime.datetime.now(datetime.timezone.utc).replace(microsecond=0)


def when(days):
    return now() + datetime.timedelta(days=days)


def time_of(t):
    return t[t.getName()].asDateTime


class Kit(Q.Kit):
    """One request with the template the case describes."""

    def __init__(self, cl, c):
        self.case = c
        r = c["route"]
        body, popo, keytype, prot = {
            "ir": ("ir", "sigOk", "ec", "sig-ec"), "cr": ("cr", "sigOk", "ec", "sig-ec"), "kur": ("kur", "sigOk", "ec", "own"),
            "p10cr": ("p10cr", "sigOk", "ec", "sig-ec"), "ra": ("ir", "raVerified", "ec", "ra"),
            "encrCert": ("ir", "encrCert", "mlkem", "sig-ec"), "agreeMac": ("ir", "agreeMac", "x25519", "sig-ec"),
            "agreeEncrCert": ("ir", "agreeEncrCert", "x25519", "sig-ec"), "encKey": ("ir", "encKey", "mlkem", "sig-ec")}[r]
        super().__init__(cl, keytype, popo, body, prot)
        if c["key"] == "weak":
            self.key = keyutils.generate_key("rsa", length=1024)
        self.kind = {"mlkem": "kem", "x25519": "agree"}.get(keytype, "sign")
        cn = self.cn
        self.text = {"named": cn, "multi": cn + ",O=Verification,OU=Unit 7,C=DE", "utf8": cn + " Zürich", "null": "Null-DN"}[c["subject"]]
        self.name = prepareutils.prepare_name(self.text)
        self.exts = rfc9480.Extensions()
        names = sorted(c["exts"])
        random.Random(repr(c)).shuffle(names)
        self.asked = {n: extension(n, self.key, self.kind) for n in names}
        self.exts.extend(list(self.asked.values()))

    def template(self):
        c = self.case
        t = certbuildutils.prepare_cert_template(key=self.key, subject=self.name, extensions=self.exts if c["exts"] else None)
        if c["serial"]:
            t["serialNumber"] = rfc4211.CertTemplate()["serialNumber"].clone(random.Random(repr(c)).choice([1, 77, -3, 1 << 170]))
        if c["version"] == "v3":
            t["version"] = rfc4211.CertTemplate()["version"].clone(2)
        tm = c["time"]
        if (tm["nb"], tm["na"]) != (NO_TIME, NO_TIME):
            o = rfc4211.OptionalValidity().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 4))
            for n, d in (("notBefore", tm["nb"]), ("notAfter", tm["na"])):
                if d != NO_TIME:
                    kind = "generalTime" if when(d).year >= 2050 else "utcTime"
                    o[n][kind] = rfc5280.Time()[kind].fromDateTime(when(d))
            t["validity"] = o
        return t

    def cert_request(self, cn=None, key=None, req_id=0):
        return cmputils.prepare_cert_request(self.key, self.name, cert_template=self.template(), cert_req_id=req_id)

    def p_encKey(self, cr): return self._enc(self.key, self.text)

    def p10cr(self):
        csr = certbuildutils.build_csr(self.key, common_name=self.name, extensions=self.exts if self.case["exts"] else None)
        return cmputils.build_p10cr_from_csr(csr, implicit_confirm=True, recipient="CN=CA", exclude_fields="sender,senderKID")

    def message(self):
        if self.body != "kur":
            return super().message()
        k0 = keyutils.generate_key("ec")
        r = ca.send(self.c.h, self.c.protect(cmputils.build_ir_from_key(
            k0, common_name=self.cn, implicit_confirm=True, exclude_fields="sender,senderKID", recipient="CN=CA"), "sig-ec"))
        m = rfc4211.CertReqMsg()
        m["certReq"] = self.cert_request()
        m["popo"] = self.p_sigOk(m["certReq"])
        msg = cmputils.build_key_update_request(self.key, cert_req_msg=m, implicit_confirm=True,
                                                exclude_fields="sender,senderKID", recipient="CN=CA")
        return protectionutils.protect_pkimessage(msg, "signature", private_key=k0, cert=ca.certs_of(r)[0], certs_dir="data/unittest/")


def issued(kit, resp):
    if kit.popo in ("encrCert", "agreeEncrCert"):
        return p12._dec(resp, kit.key, kit.keytype)
    return ca.plain_certs(resp)[0]


def compare(kit, cert, want):
    bad = []
    t = cert["tbsCertificate"]
    if int(t["version"]) + 1 != want["version"]:
        bad.append(f"version {int(t['version']) + 1}")
    sn = int(t["serialNumber"])
    if sn <= 0 or sn.bit_length() > 159:
        bad.append(f"serial number {sn}")
    if sn in _C[1]:
        bad.append("the serial number was used before")
    _C[1].add(sn)
    if encoder.encode(t["subject"]) != encoder.encode(kit.name):
        bad.append("another subject")
    if keyutils.load_public_key_from_spki(t["subjectPublicKeyInfo"]) != kit.key.public_key():
        bad.append("another key")
    ca_cert, ca_key = ca.ca_cert_and_key()
    if encoder.encode(t["issuer"]) != encoder.encode(ca_cert["tbsCertificate"]["subject"]):
        bad.append("another issuer")
    if encoder.encode(t["signature"]) != encoder.encode(cert["signatureAlgorithm"]):
        bad.append("the signature algorithms differ")
    try:            # with cryptography, not with the code under test
        c, i = (x509.load_der_x509_certificate(encoder.encode(x)) for x in (_plain(cert), ca_cert))
        i.public_key().verify(c.signature, c.tbs_certificate_bytes, *_scheme(c, i))
    except Exception as ex:  # noqa: BLE001
        bad.append("does not verify with the CA's key: " + repr(ex)[:120])
    v = t["validity"]
    for n, d, long in (("notBefore", want["nb"], want["nbLong"]), ("notAfter", want["na"], want["naLong"])):
        off = abs(time_of(v[n]) - when(d))
        # without a requested time the CA may start (and so end) a day earlier
        slack = datetime.timedelta(days=1 if kit.case["time"]["nb"] == NO_TIME and (n == "notBefore" or kit.case["time"]["na"] == NO_TIME) else 0)
        if off > slack:
            bad.append(f"{n} is {time_of(v[n])}, expected {when(d)}")
        if (v[n].getName() == "generalTime") != long:
            bad.append(f"{n} is encoded as {v[n].getName()}")
    got = {}
    for e in t["extensions"]:
        o = str(e["extnID"])
        if o in got:
            bad.append(f"extension {o} twice")
        got[o] = e
    names = {OID[n] for n in want["exts"]}
    if set(got) != names:
        bad.append(f"extensions missing {sorted(names - set(got))}, too many {sorted(set(got) - names)}")
    pub = kit.key.public_key()
    for n in want["exts"]:
        e = got.get(OID[n])
        if e is None:
            continue
        val = e["extnValue"].asOctets()
        if n in kit.asked and val != kit.asked[n]["extnValue"].asOctets():
            bad.append(f"the value of {n} was changed")
        if n == "ski" and val != certbuildutils.prepare_ski_extension(pub)["extnValue"].asOctets():
            bad.append("wrong subject key identifier")
        if n == "aki":
            want_id = x509.AuthorityKeyIdentifier.from_issuer_public_key(ca_key.public_key()).key_identifier
            a, _ = decoder.decode(val, asn1Spec=rfc5280.AuthorityKeyIdentifier())
            if a["keyIdentifier"].asOctets() != want_id:
                bad.append("wrong authority key identifier")
        if bool(e["critical"]) != (n in want["critical"]):
            bad.append(f"criticality of {n} is {bool(e['critical'])}")
    return bad


def _plain(cert):
    """The certificate without the tag it has inside an answer."""
    out = rfc9480.CMPCertificate()
    for f in ("tbsCertificate", "signatureAlgorithm", "signature"):
        out[f] = cert[f]
    return out


def _scheme(c, issuer):
    from cryptography.hazmat.primitives.asymmetric import ec, ed25519, rsa
    k = issuer.public_key()
    if isinstance(k, ed25519.Ed25519PublicKey):
        return ()
    if isinstance(k, ec.EllipticCurvePublicKey):
        return (c.signature_algorithm_parameters,)
    assert isinstance(k, rsa.RSAPublicKey)
    return (c.signature_algorithm_parameters, c.signature_hash_algorithm)


def case(x):
    cl = client()
    c, want = x["r"], x["o"]
    kit = Kit(cl, c)
    s = cl.h.state.certificate_db
    m = kit.message()
    before = len(s.issued_certs), len(s.not_confirmed_certs), len(s.updated_certs)
    try:
        resp = ca.send(cl.h, m)
    except Exception as ex:  # noqa: BLE001
        return ["the CA raised " + repr(ex)[:200]]
    a = ca.abstract(resp)
    after = len(s.issued_certs), len(s.not_confirmed_certs), len(s.updated_certs)
    bad = []
    if not want["granted"]:
        if ca.ok(a):
            bad.append("granted")
        if before != after:
            bad.append(f"(issued, unconfirmed, updated) {before} -> {after}")
        if not set(a["fail"]) & set(want["fail"]):
            bad.append(f"failInfo {sorted(a['fail'])}, expected {want['fail']}")
    elif not ca.ok(a):
        bad.append("refused")
    else:
        try:
            cert = issued(kit, resp)
        except Exception as ex:  # noqa: BLE001
            return [["no certificate: " + repr(ex)[:200]], None]
        bad += compare(kit, cert, want["cert"])
        if not any(X.der_eq(e, ca.ca_cert_and_key()[0]) for e in resp["extraCerts"]):
            bad.append("the answer does not carry the CA's certificate")
    return [bad, {"body": a["body"], "fail": sorted(a["fail"]), "text": a["text"][:1]}] if bad else []


def main(tier, args):
    rep = Report("P14", tier)
    lst = T.cases(rep, "IssueCert", dict(Routes=frozenset(ROUTES), MaxOdd=2 if tier == "quick" else 3),
                  ["NeverExpired", "Named", "WithinRequest", "NoCertSignWithoutCA"])
    client()
    n = len(lst)
    if tier == "quick":
        lst = T.sample(lst, lambda x: x["odd"] < 2, 350)
    else:
        lst = T.sample(lst, lambda x: x["odd"] < 3, 6000)
    rep.cov["cases_specified"] = n
    T.run(rep, "issue", lst, case)
    return rep.finish()
