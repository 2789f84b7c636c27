"""The Lifecycle specification's actions on the real Mock CA."""
import hashlib

from cryptography import x509
from cryptography.x509 import ocsp  # noqa: F401
from cryptography.hazmat.primitives import hashes, serialization

from . import wenv
from .ca import *  # noqa: F403
from . import ca

from pyasn1.codec.der import encoder
from pyasn1.type import univ
from pyasn1_alt_modules import rfc9480
from resources import cmputils, general_msg_utils, keyutils, oid_mapping, protectionutils, certutils

_KEYS = {}


def key(name, alg="ec"):
    if name not in _KEYS:
        _KEYS[name] = keyutils.generate_key(alg)
    return _KEYS[name]


STATE_NAMES = {"NOT_CONFIRMED": "NC", "CONFIRMED": "C", "REVOKED": "REV", "REVIVED": "RVD", "UPDATED": "UPD",
               "UPDATED_BUT_NOT_CONFIRMED": "UBNC", "UNKNOWN": "none"}


def mac(msg, alg="password_based_mac", password=ca.PASSWORD):
    return protectionutils.protect_pkimessage(msg, alg, password=password)


def sign(msg, k, cert):
    return protectionutils.protect_pkimessage(msg, "signature", private_key=k, cert=cert, certs_dir="data/unittest/")


def enrol_msg(kind, cn, k, for_mac, impl=True, **kw):
    common = dict(implicit_confirm=impl, recipient="CN=CA")
    if for_mac:
        common.update(for_mac=True, sender="CN=client")
    else:
        common.update(exclude_fields="sender,senderKID")
    common.update(kw)
    if kind == "ir":
        return cmputils.build_ir_from_key(k, common_name=cn, **common)
    if kind == "cr":
        return cmputils.build_cr_from_key(k, common_name=cn, **common)
    if kind == "p10cr":
        return cmputils.build_p10cr_from_key(k, common_name=cn, **common)
    if kind == "kur":
        return cmputils.build_key_update_request(k, common_name=cn, **common)
    raise ValueError(kind)


class LifecycleWorld:
    """One Mock CA and the clients' material for the slots of the specification."""

    def __init__(self, n, compare_fail=True, observe=("db",), kinds=("ir", "cr", "p10cr"), tag=""):
        self.n, self.compare_fail, self.observe, self.kinds = n, compare_fail, observe, kinds
        self.h = ca.new_handler()
        self.tag = tag
        self.key = {s: key(f"slot{s}") for s in range(1, n + 1)}
        self.cert, self.req, self.resp, self.cn, self.prot = {}, {}, {}, {}, {}
        self.crl_no = None
        self.crl_seen = {}

    def fork_key(self):
        pass

    # ------------------------------------------------------------------ helpers
    def _protect(self, msg, p, alg="password_based_mac"):
        if p == 0:
            return mac(msg, alg)
        return sign(msg, self.key[p], self.cert[p])

    def _send(self, msg):
        """Exchange one message; an exception that escapes the CA is reported as such."""
        try:
            resp = send(self.h, msg)
        except Exception as e:  # noqa: BLE001 - totality of the handler is observed, not assumed
            return None, {"body": "exception:" + type(e).__name__, "status": ["exception"], "fail": frozenset(),
                          "text": [str(e)[:200]]}
        return resp, abstract(resp)

    def _reply(self, a):
        return {"ok": a["body"] == "pkiconf" or (a["body"] not in ("error",) and not a["body"].startswith("exc")
                                               and all(x in ("accepted", "grantedWithMods") for x in a["status"])),
                "fail": sorted(a["fail"]), "body": a["body"], "text": a["text"][:1]}

    # ------------------------------------------------------------------ actions
    def do(self, a):
        return getattr(self, "do_" + a["op"])(a)

    def do_tick(self, a):
        wenv.clock_advance(11)
        return {"ok": True, "fail": [], "body": "tick"}

    def concrete_kind(self, a):
        k = a["k"]
        if k == "new":
            hsh = hashlib.sha256(f"{wenv.SEED}{a}{sorted(self.cert)}".encode()).digest()[0]
            k = self.kinds[hsh % len(self.kinds)]
        return k

    def do_enrol(self, a):
        s, p, k = a["s"], a["p"], self.concrete_kind(a)
        cn = f"CN=Verif Slot {s}{self.tag}" if not (k == "kur" and p != 0) else self.cn[p]
        kw = {}
        if k == "kur" and p == 0:
            kw = dict(exclude_fields=None)
        m = enrol_msg(k, cn, self.key[s], p == 0, a["impl"], **kw)
        alg = "password_based_mac"
        m = self._protect(m, p, alg)
        resp, ab = self._send(m)
        rep = self._reply(ab)
        if rep["ok"]:
            self.cert[s] = certs_of(resp)[0]
            self.req[s], self.resp[s], self.cn[s], self.prot[s] = m, resp, cn, p
            rep["impl"] = header_implicit(resp)
        return rep

    def do_reuse(self, a):
        s = a["s"]
        txid = self.resp[s]["header"]["transactionID"].asOctets()
        m = mac(enrol_msg("cr", "CN=Verif Reuse", key("reuse"), True, True, transaction_id=txid))
        _, ab = self._send(m)
        return self._reply(ab)

    def conf_msg(self, s, p, v):
        resp = self.resp[s]
        kw = dict(sender="CN=client", for_mac=True) if p == 0 else dict(exclude_fields="sender,senderKID")
        ca_resp = resp
        h = resp["header"]
        if v == "badRecip":
            kw["recip_nonce"] = bytes(16)
        elif v == "oldSender":
            kw["sender_nonce"] = self.req[s]["header"]["senderNonce"].asOctets()
        elif v == "shortSender":
            kw["sender_nonce"] = b"\x07" * 8
        elif v == "unknownTx":
            kw["transaction_id"] = bytes(15) + bytes([s])
        drop = {"missRecip": "recipNonce", "missSender": "senderNonce", "missTx": "transactionID"}.get(v)
        if drop:
            kw["exclude_fields"] = ",".join(x for x in [kw.get("exclude_fields"), drop] if x)
        if v == "badReqId":
            kw["cert_req_id"] = 7
        if v in ("badHash", "rejectBadHash"):
            kw["cert_hash"] = b"\x13" * 64
        if v == "otherHash":
            o = min(u for u in self.cert if u != s)
            cc0 = cmputils.build_cert_conf_from_resp(self.resp[o], sender="CN=client", for_mac=True)
            kw["cert_hash"] = cc0["body"]["certConf"][0]["certHash"].asOctets()
        if v in ("okHashAlg", "wrongHashAlg"):
            kw["pvno"] = 3
        elif v == "hashAlgV2":
            kw["pvno"] = 2
        cert_der = der(self.cert[s])
        hashes_ = {"emptyHash": b"", "okHashAlg": hashlib.sha256(cert_der).digest()}
        if v in hashes_ and hashes_[v]:
            kw["cert_hash"] = hashes_[v]
        if p != 0 and v == "noProt":
            kw["exclude_fields"] = "senderKID"
        cc = cmputils.build_cert_conf_from_resp(ca_resp, **kw)
        body = cc["body"]["certConf"]
        if v == "emptyHash":
            body[0]["certHash"] = univ.OctetString(b"")
        elif v == "truncHash":
            body[0]["certHash"] = univ.OctetString(hashlib.sha512(cert_der).digest()[:32])
        elif v in ("okHashAlg", "wrongHashAlg", "hashAlgV2"):
            alg = {"okHashAlg": "sha256", "wrongHashAlg": "sha384", "hashAlgV2": "sha512"}[v]
            body[0]["hashAlg"]["algorithm"] = oid_mapping.sha_alg_name_to_oid(alg)
            if v != "okHashAlg":
                body[0]["certHash"] = univ.OctetString(hashlib.sha512(cert_der).digest())
        if v == "noEntry":
            while len(body):
                body.clear()
            cc["body"]["certConf"].clear()
        elif v == "twoEntries":
            body.append(body[0])
        elif v in ("reject", "rejectBadHash"):
            body[0]["statusInfo"]["status"] = 2
        elif v == "badStatus":
            body[0]["statusInfo"]["status"] = 3
        elif v == "acceptedFail":
            body[0]["statusInfo"]["status"] = 0
            body[0]["statusInfo"]["failInfo"] = rfc9480.PKIFailureInfo("badCertId")
        return cc

    def do_conf(self, a):
        s, p, v = a["s"], a["p"], a["v"]
        cc = self.conf_msg(s, p, v)
        if v == "noProt":
            pass
        else:
            if v == "otherMacAlg":
                cc = self._protect(cc, p, "hmac")
            else:
                cc = self._protect(cc, p)
            if v == "badProt":
                b = bytearray(cc["protection"].asOctets())
                b[-1] ^= 1
                ca.set_protection(cc, bytes(b))
        _, ab = self._send(cc)
        return self._reply(ab)

    def _rr(self, p, t, reason):
        m = cmputils.build_cmp_revoke_request(cert=self.cert[t], reason=reason, exclude_fields="sender,senderKID")
        m = sign(m, *(ca.ra() if p == 9 else (self.key[p], self.cert[p])))
        _, ab = self._send(m)
        return self._reply(ab)

    def do_revoke(self, a):
        return self._rr(a["p"], a["t"], a.get("reason", "superseded"))

    def do_revive(self, a):
        return self._rr(a["p"], a["t"], "removeFromCRL")

    def do_genm(self, a):
        m = general_msg_utils.build_cmp_general_message(add_messages="current_crl", exclude_fields="sender,senderKID")
        m = sign(m, self.key[a["p"]], self.cert[a["p"]])
        _, ab = self._send(m)
        r = self._reply(ab)
        return r

    # ------------------------------------------------------------------ observation
    def db_state(self, s):
        if s not in self.cert:
            return "none"
        return STATE_NAMES[self.h.state.certificate_db.get_cert_state(self.cert[s]).name]

    def project(self):
        return {"st": [self.db_state(s) for s in range(1, self.n + 1)]}

    def label(self, e):
        a = e["a"]
        return a["op"] + ":" + str(a.get("k", a.get("v", ""))) + ":" + ("ok" if e["r"]["ok"] else "no")

    def compare(self, e, got):
        bad = []
        r = e["r"]
        if got["ok"] != r["ok"]:
            bad.append(f"expected {'acceptance' if r['ok'] else 'refusal'}, got {got}")
        if not r["ok"] and got["body"].startswith("exc"):
            bad.append(f"the CA raised instead of answering: {got}")
        if self.compare_fail and not r["ok"] and sorted(r["fail"]) != got["fail"]:
            bad.append(f"expected failInfo {r['fail']}, got {got['fail']}")
        if r["ok"] and e["a"]["op"] == "enrol" and "impl" in got and got["impl"] != e["a"]["impl"]:
            bad.append("implicitConfirm of the answer differs from the request")
        now = self.project()
        if now["st"] != e["t"]["st"]:
            bad.append(f"state should be {e['t']['st']}, is {now['st']}")
        if "pub" in self.observe and not bad and (r["ok"] or self.always):
            bad += self.published(e["pub"], e["a"])
        return bad

    always = False

    # ------------------------------------------------------------------ revocation information
    def read_crl(self, data):
        crl = x509.load_der_x509_crl(data)
        cc, _ = ca.ca_cert_and_key()
        cac = x509.load_der_x509_certificate(der(cc))
        bad = []
        if crl.issuer != cac.subject:
            bad.append("the CRL's issuer is not the CA")
        if not crl.is_signature_valid(cac.public_key()):
            bad.append("the CRL's signature does not verify under the CA key")
        no = crl.extensions.get_extension_for_class(x509.CRLNumber).value.crl_number
        if self.crl_no is not None and no <= self.crl_no:
            bad.append(f"the CRL number went from {self.crl_no} to {no}")
        self.crl_no = no
        serials = sorted(c.serial_number for c in crl)
        if len(set(serials)) != len(serials):
            bad.append("the CRL lists a certificate twice")
        return set(serials), bad

    def published(self, pub, a):
        bad = []
        ser = {s: int(c["tbsCertificate"]["serialNumber"]) for s, c in self.cert.items()}
        want = {ser[s] for s in ser if pub["crl"][s - 1]}
        for name, get in (("/crl", self.h.get_current_crl), ("genm", self.genm_crl)):
            try:
                data = get()
            except Exception as ex:  # noqa: BLE001
                bad.append(f"no CRL from {name}: {type(ex).__name__} {ex}")
                continue
            got, b = self.read_crl(data)
            bad += [f"{name}: {x}" for x in b]
            if got != want:
                names = {v: k for k, v in ser.items()}
                bad.append(f"{name}: CRL lists slots {sorted(names.get(x, x) for x in got)}, should list "
                           f"{sorted(names[x] for x in want)}")
        cc, _ = ca.ca_cert_and_key()
        cac = x509.load_der_x509_certificate(der(cc))
        for s, c in self.cert.items():
            req = x509.ocsp.OCSPRequestBuilder().add_certificate(
                x509.load_der_x509_certificate(der(c)), cac, hashes.SHA256())
            nonce = bytes([s]) * 16
            req = req.add_extension(x509.OCSPNonce(nonce), False).build()
            try:
                resp = x509.ocsp.load_der_ocsp_response(
                    self.h.process_ocsp_request(req.public_bytes(serialization.Encoding.DER)))
            except Exception as ex:  # noqa: BLE001
                bad.append(f"no OCSP answer for slot {s}: {type(ex).__name__} {ex}")
                continue
            if resp.response_status == x509.ocsp.OCSPResponseStatus.SUCCESSFUL:
                got = resp.certificate_status.name.lower()
                if resp.serial_number != ser[s]:
                    bad.append(f"OCSP answers for another serial number than slot {s}'s")
                try:
                    if resp.extensions.get_extension_for_class(x509.OCSPNonce).value.nonce != nonce:
                        bad.append("OCSP nonce is not the request's")
                except x509.ExtensionNotFound:
                    bad.append("OCSP nonce is missing")
                try:
                    cac.public_key().verify(resp.signature, resp.tbs_response_bytes)
                except Exception:  # noqa: BLE001
                    bad.append("the OCSP signature does not verify under the CA key")
            else:
                got = "none"
            if got == "unknown":
                got = "none"
            if got != pub["ocsp"][s - 1]:
                bad.append(f"OCSP of slot {s} is {got}, should be {pub['ocsp'][s - 1]}")
        db = self.h.state.certificate_db
        for name, lst in (("issued", db.issued_certs), ("revoked", db.revoked_certs), ("updated", db.updated_certs)):
            got = [int(c["tbsCertificate"]["serialNumber"]) for c in lst]
            want = sorted(ser[s] for s in ser if pub["lists"][name][s - 1])
            if sorted(got) != want:
                bad.append(f"{name} list has {len(got)} entries, should have {len(want)}: {got} {want}")
        return bad

    def genm_crl(self):
        m = general_msg_utils.build_cmp_general_message(add_messages="current_crl", for_mac=True, sender="CN=client")
        resp = send(self.h, mac(m))
        if resp["body"].getName() != "genp":
            raise ValueError(str(abstract(resp)))
        v = resp["body"]["genp"][0]["infoValue"].asOctets()
        return v


def header_implicit(resp):
    gi = resp["header"]["generalInfo"]
    if not gi.isValue:
        return False
    return any(str(x["infoType"]) == "1.3.6.1.5.5.7.4.13" for x in gi)
