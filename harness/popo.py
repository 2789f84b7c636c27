"""Certificate requests with chosen proofs of possession (spec/Popo.tla)."""
import os

from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
from pyasn1.codec.der import encoder
from pyasn1.type import tag, univ
from pyasn1_alt_modules import rfc4211

from . import ca, exchange as X
from . import world as W
from resources import (certutils, cmputils, cryptoutils, envdatautils, extra_issuing_logic, keyutils, prepare_alg_ids,
                       protectionutils, utils)
from unit_tests.utils_for_test import load_env_data_certs

KEYS = {"ec": dict(algorithm="ec"), "rsa": dict(algorithm="rsa"), "ed25519": dict(algorithm="ed25519"),
        "mldsa": dict(algorithm="ml-dsa-44"), "slhdsa": dict(algorithm="slh-dsa-sha2-128f"),
        "composite-sig": dict(algorithm="composite-sig"),
        "x25519": dict(algorithm="x25519"), "x448": dict(algorithm="x448"),
        "mlkem": dict(algorithm="ml-kem-768"), "composite-kem": dict(algorithm="composite-kem"), "xwing": dict(algorithm="xwing")}
_ENV = {}


def env():
    if not _ENV:
        _ENV.update(load_env_data_certs())
    return _ENV


def gen(name):
    kw = dict(KEYS[name])
    return keyutils.generate_key(kw.pop("algorithm"), **kw)


class Kit:
    """What one request is made of."""

    def __init__(self, client, keytype, popo, body, prot):
        self.c, self.keytype, self.popo, self.body, self.prot = client, keytype, popo, body, prot
        self.key, self.other = gen(keytype), gen(keytype)
        self.cn = client.fresh()

    def cert_request(self, cn=None, key=None, req_id=0):
        return cmputils.prepare_cert_request(key or self.key, cn or self.cn, cert_req_id=req_id)

    # every function returns the ProofOfPossession for a CertRequest, or None for no proof
    def p_sigOk(self, cr): return cmputils.prepare_signature_popo(self.key, cr)
    def p_sigOtherKey(self, cr): return cmputils.prepare_signature_popo(self.other, cr)
    def p_sigOtherSubject(self, cr): return cmputils.prepare_signature_popo(self.key, self.cert_request(cn=self.c.fresh()))
    def p_sigOtherKeyInReq(self, cr): return cmputils.prepare_signature_popo(self.other, self.cert_request(key=self.other))
    def p_sigOtherId(self, cr): return cmputils.prepare_signature_popo(self.key, self.cert_request(req_id=1))

    def p_sigFlip(self, cr):
        p = cmputils.prepare_signature_popo(self.key, cr)
        v = bytearray(p["signature"]["signature"].asOctets())
        v[-1] ^= 1
        p["signature"]["signature"] = univ.BitString.fromOctetString(bytes(v))
        return p

    def p_sigEmpty(self, cr):
        p = cmputils.prepare_signature_popo(self.key, cr)
        p["signature"]["signature"] = univ.BitString.fromOctetString(b"")
        return p

    def _cut(self, cr, change):
        p = cmputils.prepare_signature_popo(self.key, cr)
        p["signature"]["signature"] = univ.BitString.fromOctetString(change(p["signature"]["signature"].asOctets()))
        return p

    def p_sigCut(self, cr): return self._cut(cr, lambda v: v[:len(v) // 2])
    def p_sigGrown(self, cr): return self._cut(cr, lambda v: v + b"\0")

    def p_sigOtherAlg(self, cr):
        """A signature of a different key type over the request, naming its own algorithm."""
        k = gen("ec" if self.keytype not in ("ec",) else "ed25519")
        return cmputils.prepare_signature_popo(k, cr)

    def p_raVerified(self, cr):
        p = rfc4211.ProofOfPossession()
        p["raVerified"] = univ.Null("").subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
        return p

    def p_none(self, cr): return None
    def p_encrCert(self, cr): return cmputils.prepare_popo_challenge_for_non_signing_key(True, True)
    def p_agreeEncrCert(self, cr): return cmputils.prepare_popo_challenge_for_non_signing_key(True, False)

    def _ka_cert(self):
        return env()[{"x25519": "x25519_cert", "x448": "x448_cert"}.get(self.keytype, "ecc_cert")]

    def _mac(self, cr, key, bad=False):
        return extra_issuing_logic.prepare_pkmac_popo(cr, self._ka_cert(), key, iterations=1000, bad_pop=bad)

    def p_agreeMac(self, cr): return self._mac(cr, self.key)
    def p_agreeMacOtherKey(self, cr): return self._mac(cr, self.other)
    def p_agreeMacFlip(self, cr): return self._mac(cr, self.key, True)
    def _mac_value(self, cr, change):
        p = self._mac(cr, self.key)
        v = p["keyAgreement"]["agreeMAC"]["value"]
        p["keyAgreement"]["agreeMAC"]["value"] = univ.BitString.fromOctetString(change(v.asOctets()))
        return p

    def p_agreeMacCut(self, cr): return self._mac_value(cr, lambda v: v[:1])
    def p_agreeMacEmpty(self, cr): return self._mac_value(cr, lambda v: b"")
    def p_agreeMacGrown(self, cr): return self._mac_value(cr, lambda v: v + b"\0")

    def p_agreeMacOtherSubject(self, cr): return self._mac(self.cert_request(cn=self.c.fresh()), self.key)

    def _enc(self, key, sender=None, recip="kem_cert", data=None):
        e = data if data is not None else extra_issuing_logic.prepare_enc_key_with_id(key, sender or self.cn, key_save_type="seed")
        cek = os.urandom(32)
        rc = env()[recip]
        info = envdatautils.prepare_kem_recip_info(recip_cert=rc, cek=cek, public_key_recip=keyutils.load_public_key_from_spki(
            rc["tbsCertificate"]["subjectPublicKeyInfo"]))
        return envdatautils.prepare_enc_key_for_popo(e, rid=None, recip_info=info, cek=cek,
                                                     for_agreement=self.keytype in ("x25519", "x448", "ec"))

    def p_encKey(self, cr): return self._enc(self.key)
    def p_encKeyOther(self, cr): return self._enc(self.other)
    def p_encKeyOtherName(self, cr): return self._enc(self.key, self.c.fresh())
    def p_encKeyGarbage(self, cr): return self._enc(None, data=univ.Null(""))

    # ------------------------------------------------------------------ whole messages
    def message(self):
        if self.body == "p10cr":
            return self.c.protect(self.p10cr(), self.prot)
        cr = self.cert_request()
        popo = getattr(self, "p_" + self.popo)(cr)
        m = rfc4211.CertReqMsg()
        m["certReq"] = cr
        if popo is not None:
            m["popo"] = popo
        kw = dict(for_mac=True, sender="CN=client") if self.prot in X.MACS else dict(exclude_fields="sender,senderKID")
        fn = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key, "kur": cmputils.build_key_update_request}[self.body]
        arg = {"cert_req_msg": [m]} if self.body != "kur" else {"cert_req_msg": m}
        msg = fn(self.key, implicit_confirm=True, recipient="CN=CA", **arg, **kw)
        return self.sign_ra(msg) if self.prot == "ra" else self.c.protect(msg, self.prot)

    def sign_ra(self, msg):
        k, c = ra()
        return protectionutils.protect_pkimessage(msg, "signature", private_key=k, cert=c, certs_dir="data/unittest/")

    def p10cr(self):
        kw = dict(for_mac=True, sender="CN=client") if self.prot in X.MACS else dict(exclude_fields="sender,senderKID")
        pq = self.keytype in ("mldsa", "slhdsa", "composite-sig", "ed25519")
        m = cmputils.build_p10cr_from_key(self.key, common_name=self.cn, implicit_confirm=True, recipient="CN=CA", **kw,
                                          **(dict(hash_alg=None) if pq else {}))
        csr = m["body"]["p10cr"]
        p = self.popo
        if p == "sigOk":
            return m
        o = cmputils.build_p10cr_from_key(self.other if p != "sigOtherSubject" else self.key, common_name=self.cn if p != "sigOtherSubject" else self.c.fresh(),
                                          **(dict(hash_alg=None) if pq else {}))["body"]["p10cr"]
        if p in ("sigOtherKeyInReq", "sigOtherSubject"):
            sig, alg = o["signature"].asOctets(), csr["signatureAlgorithm"]
        elif p in ("sigOtherKey", "sigOtherAlg"):
            k = self.other if p == "sigOtherKey" else gen("ec" if self.keytype != "ec" else "ed25519")
            h = None if isinstance(k, Ed25519PrivateKey) or (pq and p == "sigOtherKey") else "sha256"
            sig = cryptoutils.sign_data(encoder.encode(csr["certificationRequestInfo"]), k, hash_alg=h)
            alg = prepare_alg_ids.prepare_sig_alg_id(k, hash_alg=h)
        elif p == "sigFlip":
            v = bytearray(csr["signature"].asOctets())
            v[-1] ^= 1
            sig, alg = bytes(v), csr["signatureAlgorithm"]
        elif p in ("sigCut", "sigGrown"):
            v = csr["signature"].asOctets()
            sig, alg = v[:len(v) // 2] if p == "sigCut" else v + b"\0", csr["signatureAlgorithm"]
        elif p == "sigEmpty":
            sig, alg = b"", csr["signatureAlgorithm"]
        else:
            raise ValueError(p)
        csr["signature"] = univ.BitString.fromOctetString(sig)
        csr["signatureAlgorithm"] = alg
        return m


_RA = []


def ra():
    if not _RA:
        from resources import keyutils as k
        _RA.extend([k.load_private_key_from_file("data/keys/private-key-ecdsa.pem"),
                    certutils.parse_certificate(utils.load_and_decode_pem_file("data/trusted_ras/ra_cms_cert_ecdsa.pem"))])
    return _RA
