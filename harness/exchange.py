"""Requests with chosen header and protection defects (spec/Exchange.tla)."""
import os
from datetime import datetime, timedelta, timezone

from pyasn1.codec.der import encoder
from pyasn1.type import char, tag, univ, useful
from pyasn1_alt_modules import rfc9480

from . import ca, wenv
from . import world as W
from resources.suiteenums import ProtectedType
from resources import cmputils, general_msg_utils, keyutils, prepareutils, protectionutils, utils

MACS = ("password_based_mac", "pbmac1", "hmac", "kmac", "aes-gmac")
SIGS = {"sig-ec": "ec", "sig-rsa": "rsa", "sig-ed25519": "ed25519", "sig-ed448": "ed448", "sig-mldsa": "ml-dsa-44",
        "sig-slhdsa": "slh-dsa-sha2-128f", "sig-composite": "composite-sig"}


class Client:
    """A CA and one certificate holder per signature algorithm."""

    def __init__(self, sigs=("sig-ec",), password="SiemensIT-Secret", **kw):
        self.password = password
        self.h = ca.new_handler(pre_shared_secret=password.encode(), **kw)
        self.key, self.cert = {}, {}
        self.n = 0
        for s in sigs:
            self.holder(s)

    def enrol(self, k, cn, kind="cr"):
        r = ca.send(self.h, W.mac(W.enrol_msg(kind, cn, k, True, True), password=self.password))
        assert ca.ok(ca.abstract(r)), ca.abstract(r)
        return ca.certs_of(r)[0]

    def holder(self, s):
        k = keyutils.generate_key(SIGS[s])
        self.key[s], self.cert[s] = k, self.enrol(k, f"CN=Holder {s}")

    def fresh(self):
        self.n += 1
        return f"CN=Subject {os.getpid()}-{self.n}"

    # ------------------------------------------------------------------ building
    def body(self, body, prot, cn=None, key=None):
        """The unprotected message, and what identifies its effect."""
        macp = prot in MACS
        k = key or keyutils.generate_key("ec")
        cn = cn or self.fresh()
        if body in ("ir", "cr", "p10cr"):
            return W.enrol_msg(body, cn, k, macp, True)
        if body == "kur":
            s = prot if prot in self.cert else "sig-ec"
            kw = dict(exclude_fields=None) if macp else {}
            return W.enrol_msg("kur", f"CN=Holder {s}", k, macp, True, **kw)
        com = dict(recipient="CN=CA", exclude_fields="sender,senderKID")
        if body == "rr":
            m = cmputils.build_cmp_revoke_request(cert=self.victim(prot), reason="superseded", **com)
        elif body == "genm":
            m = general_msg_utils.build_cmp_general_message(add_messages="current_crl", **com)
        else:
            raise ValueError(body)
        _sender(m, "CN=client")
        if macp:
            _octets(m, "senderKID", b"CN=client", 2)
        return m

    def victim(self, prot):
        """A certificate the holder of the credential may revoke: one of its own."""
        self.last_victim = self.enrol(self.key.get(prot) or keyutils.generate_key("ec"), self.fresh())
        return self.last_victim

    def protect(self, m, prot, patch=True, **kw):
        if prot == "none":
            return m
        if prot in MACS:
            pw = kw.pop("password", self.password)
            if prot == "aes-gmac":      # the secret is repeated up to the size of the key, as the CA does
                pw = (pw * 32)[:32]
            return protectionutils.protect_pkimessage(m, prot, password=pw, **kw)
        k, c = self.key[prot], self.cert[prot]
        if m["body"].getName() == "rr":
            c = self.last_victim
        return protectionutils.protect_pkimessage(m, "signature", private_key=kw.pop("private_key", k), cert=c,
                                                  certs_dir="data/unittest/", do_patch=patch, **kw)

    def message(self, body, prot, defects=(), cn=None, key=None):
        m = self.protect(self.body(body, prot, cn, key), prot)
        hdr = [d for d in defects if d in HEADER]
        if hdr:
            for d in hdr:
                HEADER[d](m, prot)
            m = self.protect(m, prot, patch=False)
        for d in defects:
            if d in PROTECTION:
                m = PROTECTION[d](self, m, prot)
        return m


def _octets(m, name, data, n):
    f = univ.OctetString(data).subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, n))
    m["header"][name] = f


def _drop(m, name):
    """Remove an optional header field by rebuilding the header without it."""
    old = m["header"]
    new = old.clone()
    for f in list(old):
        if f != name and old[f].isValue:
            new[f] = old[f]
    m["header"] = new


def _time(m, delta):
    t = datetime.fromtimestamp(wenv.clock(), timezone.utc) + timedelta(seconds=delta)
    m["header"]["messageTime"] = useful.GeneralizedTime(t.strftime("%Y%m%d%H%M%SZ")).subtype(
        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))


def _sender(m, name):
    m["header"]["sender"] = prepareutils.prepare_general_name("directoryName", name)


def _implicit(m, der):
    g = m["header"]["generalInfo"]
    iv = rfc9480.InfoTypeAndValue()
    iv["infoType"] = rfc9480.id_it_implicitConfirm
    iv["infoValue"] = univ.Any(der)
    if not g.isValue:
        m["header"]["generalInfo"] = univ.SequenceOf(componentType=rfc9480.InfoTypeAndValue()).subtype(
            subtypeSpec=g.subtypeSpec, explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 8))
    for i in range(len(m["header"]["generalInfo"])):
        if m["header"]["generalInfo"][i]["infoType"] == rfc9480.id_it_implicitConfirm:
            m["header"]["generalInfo"][i] = iv
            return
    m["header"]["generalInfo"].append(iv)


HEADER = {
    "pvno1": lambda m, p: m["header"].setComponentByName("pvno", 1),
    "pvno3": lambda m, p: m["header"].setComponentByName("pvno", 3),
    "pvno4": lambda m, p: m["header"].setComponentByName("pvno", 4),
    "noTx": lambda m, p: _drop(m, "transactionID"),
    "emptyTx": lambda m, p: _octets(m, "transactionID", b"", 4),
    "shortTx": lambda m, p: _octets(m, "transactionID", os.urandom(15), 4),
    "longTx": lambda m, p: _octets(m, "transactionID", os.urandom(17), 4),
    "noNonce": lambda m, p: _drop(m, "senderNonce"),
    "emptyNonce": lambda m, p: _octets(m, "senderNonce", b"", 5),
    "shortNonce": lambda m, p: _octets(m, "senderNonce", os.urandom(15), 5),
    "longNonce": lambda m, p: _octets(m, "senderNonce", os.urandom(17), 5),
    "recipNonce": lambda m, p: _octets(m, "recipNonce", os.urandom(16), 6),
    "noTime": lambda m, p: _drop(m, "messageTime"),
    "oldOk": lambda m, p: _time(m, -490),
    "tooOld": lambda m, p: _time(m, -520),
    "future": lambda m, p: _time(m, 5),
    "farFuture": lambda m, p: _time(m, 520),
    "otherSender": lambda m, p: _sender(m, "CN=Somebody Else"),
    "notDirName": lambda m, p: m["header"].setComponentByName("sender", prepareutils.prepare_general_name("rfc822Name", "a@b.example")),
    "noKID": lambda m, p: _drop(m, "senderKID"),
    "otherKID": lambda m, p: _octets(m, "senderKID", b"CN=A third party", 2),
    "implicitBad": lambda m, p: _implicit(m, b"\x02\x01\x01"),
    "otherRecipient": lambda m, p: m["header"].setComponentByName("recipient", prepareutils.prepare_general_name("directoryName", "CN=Another CA")),
}


def _flip(self, m, p):
    v = bytearray(m["protection"].asOctets())
    v[-1] ^= 1
    return ca.set_protection(m, bytes(v))


def _noprot(self, m, p):
    n = type(m)()
    for f in ("header", "body", "extraCerts"):
        if m[f].isValue:
            n[f] = m[f]
    return n


def _noalg(self, m, p):
    _drop(m, "protectionAlg")
    return m


def _neither(self, m, p):
    return _noprot(self, _noalg(self, m, p), p)


def _otherkey(self, m, p):
    if p in MACS:
        return self.protect(m, p, password="another password!"[:16])
    return self.protect(m, p, patch=False, private_key=keyutils.generate_key(SIGS[p]))


def _noextra(self, m, p):
    n = type(m)()
    for f in ("header", "body", "protection"):
        if m[f].isValue:
            n[f] = m[f]
    return n


PROTECTION = {"flip": _flip, "noProt": _noprot, "noAlg": _noalg, "unprotected": _neither, "otherKey": _otherkey,
              "noExtra": _noextra}


def answer_facts(client, req, resp, prot):
    """What the specification says about the header and the protection of an answer, observed."""
    q, s = req["header"], resp["header"]

    def o(h, f):
        return h[f].asOctets() if h[f].isValue else None
    sn = o(s, "senderNonce")
    f = {"tx": o(q, "transactionID") == o(s, "transactionID"),
         "recip": o(q, "senderNonce") == o(s, "recipNonce"),
         "nonce": bool(sn) and len(sn) == 16 and sn not in (o(q, "senderNonce"), o(q, "recipNonce")),
         "nonce_value": (sn or b"").hex(),
         "time": bool(s["messageTime"].isValue),
         "pvno": int(q["pvno"]) == int(s["pvno"]),
         "recipient": encoder.encode(q["sender"]) == encoder.encode(s["recipient"])}
    f["prot"] = answer_protection(client, resp, req)
    f["cacert"] = bool(resp["extraCerts"].isValue) and der_eq(resp["extraCerts"][0], ca.ca_cert_and_key()[0])
    return f


def der_eq(a, b):
    return encoder.encode(a) == encoder.encode(b)


def answer_protection(client, resp, req=None):
    """Which of the two protections verifies for an answer."""
    if not resp["header"]["protectionAlg"].isValue or not resp["protection"].isValue:
        return "none"
    pu = protectionutils
    kind = ProtectedType.get_protection_type(resp).value
    if kind == "mac":
        try:
            pu.verify_pkimessage_protection(resp, password=client.password)
        except Exception as e:  # noqa: BLE001
            return "bad MAC: " + str(e)[:60]
        try:
            pu.verify_pkimessage_protection(resp, password="not the password")
            return "any password verifies"
        except Exception:  # noqa: BLE001
            return "shared secret"
    pub = keyutils.load_public_key_from_spki(ca.ca_cert_and_key()[0]["tbsCertificate"]["subjectPublicKeyInfo"])
    try:
        pub.verify(resp["protection"].asOctets(), protected_part(resp))
    except Exception as e:  # noqa: BLE001
        return f"bad signature: {type(e).__name__} {str(e)[:60]}"
    return "CA signature"


def protected_part(msg):
    """DER of SEQUENCE { header, body }, what the protection covers (RFC 4210, 5.1.3)."""
    body = encoder.encode(msg["header"]) + encoder.encode(msg["body"])
    n = len(body)
    ln = bytes([n]) if n < 128 else bytes([0x80 + (n.bit_length() + 7) // 8]) + n.to_bytes((n.bit_length() + 7) // 8, "big")
    return b"\x30" + ln + body
