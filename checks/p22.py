"""P22: the suite calls an answer conforming exactly if it is, in whatever order it looks at its parts."""
import datetime
import random

from pyasn1.codec.der import encoder
from pyasn1.type import char, tag, univ, useful
from pyasn1_alt_modules import rfc4211, rfc5280, rfc9480

from harness import ca, exchange as X, wenv
from harness import world as W
from harness.report import Report
from resources import (certbuildutils, checkutils as C, cmputils, compareutils, convertutils, cryptoutils, keyutils, prepareutils,
                       protectionutils as P, utils)

from . import table as T

_S = {}
REQ = {"ip": "ir", "cp": "cr", "cpP10": "p10cr", "kup": "kur", "rp": "rr", "genp": "genm"}
BODIES = ["ip", "cp", "cpP10", "kup", "rp", "pkiconf", "genp", "rejIp", "rejRp", "modsIp"]


def answers():
    """Conforming exchanges with the real CA: request, answer, answer before it (DER)."""
    if _S:
        return _S
    c = _S["c"] = X.Client(("sig-ec",))
    for prot in ("sig-ec", "pbmac1"):
        for b in BODIES:
            if prot == "pbmac1" and b in ("kup", "rp", "rejRp") or prot == "sig-ec" and b == "genp":
                continue
            if b == "pkiconf":
                k, cn = keyutils.generate_key("ec"), c.fresh()
                m = c.protect(W.enrol_msg("cr", cn, k, prot != "sig-ec", False), prot)
                r = ca.reparse(ca.send(c.h, m))
                kw = dict(sender="CN=client", for_mac=True) if prot != "sig-ec" else dict(exclude_fields="sender,senderKID")
                conf = c.protect(cmputils.build_cert_conf_from_resp(r, recipient="CN=CA", **kw), prot)
                a = ca.reparse(ca.send(c.h, conf))
                _S[b, prot] = (ca.der(conf), ca.der(a), ca.der(r), ca.der(m))
                continue
            if b == "kup":
                _S["x"] = x = X.Client(("sig-ec",))       # its holder's certificate is used up
            else:
                x = c
            if b == "modsIp":
                m, a = (cmputils.parse_pkimessage(z) for z in _S["ip", prot])
                a["body"]["ip"]["response"][0]["status"]["status"] = 1
                _S[b, prot] = (ca.der(m), ca.der(ca.reparse(protect({"new"}, a, prot, c.password))))
                continue
            if b in ("rejIp", "rejRp"):
                m, a = (cmputils.parse_pkimessage(z) for z in _S[b[3:].lower(), prot])
                _S[b, prot] = (ca.der(m), ca.der(ca.reparse(protect({"new"}, refuse(a), prot, c.password))))
                continue
            m = x.message(REQ[b], prot)
            a = ca.reparse(ca.send(x.h, m))
            assert a["body"].getName() in ("ip", "cp", "kup", "rp", "genp"), a["body"].prettyPrint()
            _S[b, prot] = (ca.der(m), ca.der(a))
    cac, cak = ca.ca_cert_and_key()
    k = keyutils.generate_key("ec")
    _S["stray"] = certbuildutils.build_certificate(k, "CN=Stray")[0], k
    return _S


def refuse(r):
    """The same answer, as a server that refuses the request would put it."""
    n = r["body"].getName()
    no = cmputils.prepare_pkistatusinfo(texts="no", status="rejection", failinfo="badCertTemplate")
    if n == "rp":
        r["body"]["rp"]["status"][0] = no
        return r
    one = drop(r["body"][n]["response"][0], "certifiedKeyPair")
    one["status"] = no
    content = drop(r["body"][n], "caPubs")
    content["response"][0] = one
    r["body"][n] = content
    return r


def set_time(h, delta):
    t = h["messageTime"].asDateTime + datetime.timedelta(seconds=delta)
    h["messageTime"] = useful.GeneralizedTime(t.strftime("%Y%m%d%H%M%SZ")).subtype(
        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))


def octets(h, name, n, val):
    h[name] = univ.OctetString(val).subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, n))


def drop(seq, *names):
    """The structure without some of its optional fields."""
    out = seq.clone()
    for n in seq:
        if n not in names and seq[n].isValue:
            out[n] = seq[n]
    return out


def info(h, items):
    keep = [i for i in h["generalInfo"] if i["infoType"] not in (rfc9480.id_it_implicitConfirm, rfc9480.id_it_confirmWaitTime)] \
        if h["generalInfo"].isValue else []
    gi = rfc9480.PKIHeader().componentType["generalInfo"].asn1Object.clone()
    for i in keep:
        gi.append(i)
    for oid, val in items:
        e = rfc9480.InfoTypeAndValue()
        e["infoType"], e["infoValue"] = oid, univ.Any(val)
        gi.append(e)
    h["generalInfo"] = gi


def when(s):
    t = datetime.datetime.now(datetime.timezone.utc) + datetime.timedelta(seconds=s)
    return encoder.encode(useful.GeneralizedTime(t.strftime("%Y%m%d%H%M%SZ")))


NULL = b"\x05\x00"
OTHER = univ.ObjectIdentifier("1.2.3.4.5")
IC, CWT = rfc9480.id_it_implicitConfirm, rfc9480.id_it_confirmWaitTime


def spoil(d, r, b, req):
    """Put the defects of header and body into the answer r; its protection is made afterwards."""
    h, body = r["header"], r["body"]
    n = body.getName()
    pv = {"pvno1": 1, "pvno4": 4}
    for x in sorted(d):
        if x in pv:
            h["pvno"] = pv[x]
        elif x == "txShort":
            octets(h, "transactionID", 4, h["transactionID"].asOctets()[:15])
        elif x == "txOther":
            octets(h, "transactionID", 4, bytes(15) + b"\x09")
        elif x == "txBit":
            v = h["transactionID"].asOctets()
            octets(h, "transactionID", 4, v[:7] + bytes([v[7] ^ 16]) + v[8:])
        elif x == "txLonger":
            octets(h, "transactionID", 4, h["transactionID"].asOctets() + b"\0")
        elif x == "recipBit":
            v = h["recipNonce"].asOctets()
            octets(h, "recipNonce", 6, bytes([v[0] ^ 64]) + v[1:])
        elif x == "recipLonger":
            octets(h, "recipNonce", 6, h["recipNonce"].asOctets() + b"\x01")
        elif x == "recipOther":
            v = h["recipNonce"].asOctets()
            octets(h, "recipNonce", 6, v[:-1] + bytes([v[-1] ^ 1]))
        elif x == "recipShort":
            octets(h, "recipNonce", 6, h["recipNonce"].asOctets()[:15])
        elif x == "senderShort":
            octets(h, "senderNonce", 5, h["senderNonce"].asOctets()[:15])
        elif x == "timeLate":
            set_time(h, 3600)
        elif x == "timeEarly":
            set_time(h, -3600)
        elif x in ("timeDay", "timeDayEarly"):
            set_time(h, 86400 if x == "timeDay" else -86400)
        elif x == "fromOther":
            h["sender"] = prepareutils.prepare_general_name("directoryName", "CN=Somebody Else")
        elif x == "fromPrefix":
            name = utils.get_openssl_name_notation(h["sender"]["directoryName"])
            h["sender"] = prepareutils.prepare_general_name("directoryName", name[:-1])
        elif x in ("kidLonger", "kidPrefix"):
            v = h["senderKID"].asOctets()
            octets(h, "senderKID", 2, v + b"\x01" if x == "kidLonger" else v[:-1])
        elif x == "icNotNullLast":
            info(h, [(OTHER, NULL), (IC, b"\x02\x01\x05")])
        elif x == "cwtPastLast":
            info(h, [(OTHER, NULL), (CWT, when(-60))])
        elif x == "kidOther":
            octets(h, "senderKID", 2, b"CN=Nobody")
        elif x == "icNotNull":
            info(h, [(IC, b"\x02\x01\x05")])
        elif x == "icWrongBody":
            info(h, [(IC, NULL)])
        elif x == "cwtPast":
            info(h, [(CWT, when(-60))])
        elif x == "cwtWithIc":
            info(h, [(IC, NULL), (CWT, when(600))])
        elif x == "cwtGarbage":
            info(h, [(CWT, b"\x04\x01\x07")])
        elif x == "cwtNoTime":
            info(h, [(CWT, when(600))])
        elif x == "otherBody":
            r["body"] = other_body()
        elif x == "certInRefusal":
            field = r["body"][n]["response"][0]["certifiedKeyPair"]["certOrEncCert"]
            cert = field.componentType["certificate"].asn1Object.clone()
            for part in ("tbsCertificate", "signatureAlgorithm", "signature"):
                cert[part] = _S["stray"][0][part]
            field["certificate"] = cert
        elif x == "caPubsInRefusal":
            r["body"][n]["caPubs"].append(_S["stray"][0])
        elif n in ("ip", "cp", "kup"):
            spoil_issuing(x, r, body[n], b)
        elif n == "rp":
            si = body["rp"]["status"][0]
            if x == "grantedWithFail":
                body["rp"]["status"][0] = cmputils.prepare_pkistatusinfo(texts="x", status="accepted", failinfo="badRequest")
            elif x == "waiting":
                si["status"] = 3
    gone = {"txMissing": "transactionID", "recipMissing": "recipNonce", "senderMissing": "senderNonce", "kidMissing": "senderKID",
            "cwtNoTime": "messageTime"}
    names = [v for k, v in gone.items() if k in d]
    if names:
        r["header"] = drop(h, *names)


def other_body():
    b = cmputils.PKIMessageTMP()["body"]
    e = rfc9480.ErrorMsgContent().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 23))
    e["pKIStatusInfo"] = cmputils.prepare_pkistatusinfo(texts="x", status="rejection")
    b["error"] = e
    return b


def spoil_issuing(x, r, content, b):
    one = content["response"][0]
    if x == "reqId":
        one["certReqId"] = 0 if b == "cpP10" else 1
    elif x == "two":
        content["response"].append(one)
    elif x == "rejectedWithCert":
        one["status"]["status"] = 2
    elif x == "waiting":
        one["status"]["status"] = 3
    elif x == "grantedWithFail":
        one["status"] = cmputils.prepare_pkistatusinfo(texts="x", status="accepted", failinfo="badRequest")
    elif x == "modsWithFail":
        one["status"] = cmputils.prepare_pkistatusinfo(texts="x", status="grantedWithMods", failinfo="badRequest")
    elif x == "noCert":
        content["response"][0] = drop(one, "certifiedKeyPair")
    elif x == "keyPresent":
        ev = rfc9480.EncryptedKey().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
        ev["encryptedValue"]["encValue"] = univ.BitString.fromOctetString(b"\x01\x02")
        one["certifiedKeyPair"]["privateKey"] = ev
    elif x == "caPubsOther":
        content["caPubs"].append(_S["stray"][0])
    elif x in ("certKey", "noChain") or x.startswith("certSubject"):
        old = one["certifiedKeyPair"]["certOrEncCert"]["certificate"]
        cac, cak = ca.ca_cert_and_key()
        k = keyutils.load_public_key_from_spki(old["tbsCertificate"]["subjectPublicKeyInfo"])
        if x == "certKey":
            k = keyutils.generate_key("ec").public_key()
        subj = "CN=Somebody Else" if x == "certSubject" else None
        if x in ("certSubjectPrefix", "certSubjectMore"):
            subj = utils.get_openssl_name_notation(old["tbsCertificate"]["subject"])
            subj = subj[:-1] if x == "certSubjectPrefix" else subj + ",OU=More"
        new = resign(old, cak, k, subj, x == "noChain")
        cert = one["certifiedKeyPair"]["certOrEncCert"]["certificate"].clone()
        cert["tbsCertificate"], cert["signatureAlgorithm"], cert["signature"] = (
            new["tbsCertificate"], new["signatureAlgorithm"], new["signature"])
        one["certifiedKeyPair"]["certOrEncCert"]["certificate"] = cert


def resign(old, cak, k, subj, stray):
    cac = ca.ca_cert_and_key()[0]
    if stray:
        cac, cak = _S["stray"]
    tbs = old["tbsCertificate"].clone()
    for n in old["tbsCertificate"]:
        if old["tbsCertificate"][n].isValue:
            tbs[n] = old["tbsCertificate"][n]
    tbs["subjectPublicKeyInfo"] = convertutils.subject_public_key_info_from_pubkey(k)
    if subj:
        tbs["subject"] = prepareutils.prepare_name(subj)
    if stray:
        tbs["issuer"] = cac["tbsCertificate"]["subject"]
    new = rfc9480.CMPCertificate()
    new["tbsCertificate"] = tbs
    return certbuildutils.sign_cert(signing_key=cak, cert=new)


def protect(d, r, prot, pw):
    cac, cak = ca.ca_cert_and_key()
    if prot == "sig-ec":
        ec = r["extraCerts"]
        k = keyutils.generate_key(keyutils.get_key_name(cak)) if "otherKey" in d else cak
        r = P.protect_pkimessage(r, "signature", private_key=k, cert=None, exclude_certs=True, do_patch=False)
        if "algOther" in d:
            r["header"]["protectionAlg"]["algorithm"] = univ.ObjectIdentifier("1.2.840.10045.4.3.2")
            sig = protect_again(r, cak)
            ca.set_protection(r, sig)
        r["extraCerts"] = ec
        if "certNotFirst" in d:
            certs = list(ec)
            r["extraCerts"] = cmputils.prepare_extra_certs([_S["stray"][0]] + certs)
    else:
        alg = "password_based_mac" if "otherMac" in d else "pbmac1"
        ec = r["extraCerts"] if r["extraCerts"].isValue else None
        r = P.protect_pkimessage(r, alg, password="Another Password" if "otherKey" in d else pw, do_patch=False)
        if ec is not None:
            r["extraCerts"] = ec
    if {"flipped", "flippedLast"} & d:
        v = bytearray(r["protection"].asOctets())
        v[-1 if "flippedLast" in d else len(v) // 2] ^= 4
        ca.set_protection(r, bytes(v))
    if "changedAfter" in d:
        octets(r["header"], "senderNonce", 5, bytes(range(16)))
    if "changedBody" in d:
        r["body"][r["body"].getName()]["response"][0]["status"]["statusString"].append(char.UTF8String("more"))
    out = cmputils.PKIMessageTMP()
    out["header"] = drop(r["header"], "protectionAlg") if {"noProt", "protOnly"} & d else r["header"]
    out["body"] = r["body"]
    if not {"noProt", "algOnly"} & d:
        out["protection"] = r["protection"]
    if "noExtra" not in d and r["extraCerts"].isValue:
        out["extraCerts"] = r["extraCerts"]
    return out


def protect_again(r, key):
    return cryptoutils.sign_data(data=P.prepare_protected_part(r), key=key, hash_alg="sha256")


def validators(a, req, prev, first, pw):
    b, sig = a["body"], a["prot"] == "sig-ec"
    issuing = b in ("ip", "cp", "cpP10", "kup", "modsIp")

    def body(r):
        if b in ("rp", "rejRp"):
            C.check_rp_cmp_message_body(r)
        elif b == "pkiconf":
            C.validate_pki_confirmation_message(r, prev, first)
        else:
            C.validate_ca_message_body(r, used_p10cr=b == "cpP10", allow_os_store=False)

    def content(r):
        cert = cmputils.get_cert_from_pkimessage(r)
        n = req["body"].getName()
        if n == "p10cr":
            same = compareutils.compare_csr_and_cert(req["body"][n], cert, subject_strict=True) or \
                encoder.encode(req["body"][n]["certificationRequestInfo"]["attributes"]) != b"" and same_csr(req["body"][n], cert)
        else:
            same = compareutils.compare_cert_template_and_cert(req["body"][n][0]["certReq"]["certTemplate"], cert, strict_subject_validation=True)
        if not same:
            raise ValueError("the certificate is not what was asked for")

    v = {"protection": lambda r: P.verify_pkimessage_protection(r, password=None if sig else pw),
         "header": lambda r: C.validate_pkimessage_header(r, req, allow_failure_sender=False),
         "algorithm": lambda r: C.check_protection_alg_field(r, expected_type="sig" if sig else "mac")}
    if sig:
        v["signature"] = lambda r: C.check_pkimessage_signature_protection(r, allow_sender_failure=False)
    if (sig or issuing) and b != "rejIp":
        v["certificates"] = C.validate_extra_certs
    if issuing or b in ("rp", "pkiconf", "rejIp", "rejRp"):
        v["body"] = body
    if issuing:
        v["content"] = content
    return v


def same_csr(csr, cert):
    i, t = csr["certificationRequestInfo"], cert["tbsCertificate"]
    return encoder.encode(i["subject"]) == encoder.encode(t["subject"]) and \
        encoder.encode(i["subjectPublicKeyInfo"]) == encoder.encode(t["subjectPublicKeyInfo"])


def case(x):
    S, a, d = answers(), x["a"], set(x["d"])
    pw = S["c"].password
    raw = S[a["body"], a["prot"]]
    msgs = [cmputils.parse_pkimessage(m) for m in raw]
    req, r = msgs[0], msgs[1]
    prev, first = (msgs[2], msgs[3]) if len(msgs) > 2 else (None, None)
    spoil(d, r, a["body"], req)
    try:
        r = ca.reparse(protect(d, r, a["prot"], pw) if d else r)
    except Exception as e:  # noqa: BLE001
        return [["the harness built a message that cannot be parsed: " + repr(e)[:200]], None]
    before = ca.der(r)
    v = validators(a, req, prev, first, pw)
    flags = {}
    for name in x["order"]:
        if name not in v:
            continue
        try:
            v[name](r)
        except Exception as e:  # noqa: BLE001
            flags[name] = repr(e)[:160]
        try:
            same = ca.der(r) == before
        except Exception:  # noqa: BLE001
            same = False
        if not same:
            return [[f"the validator {name} changes the message"], flags]
    if x["conforming"] and flags:
        return [[f"a conforming answer is called defective: {flags}"], None]
    if not x["conforming"] and not flags:
        return [[f"an answer with {sorted(d)} is called conforming"], None]
    return []


def main(tier, args):
    rep = Report("P22", tier)
    quick = tier == "quick"
    lst = T.cases(rep, "Verdict", dict(N=2, Bodies=frozenset(BODIES), Firsts=frozenset({1, 6} if quick else range(1, 8))), ["Complete"])
    answers()
    rng = random.Random(wenv.SEED)
    rng.shuffle(lst)
    keep, seen = [], {}
    for x in lst:
        n = len(x["d"])
        key = (str(x["a"]), n, str(sorted(x["d"]))) if n == 1 else (str(x["a"]), n, x["first"]) if n == 0 else (n,)
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= (1 if n == 1 else 1 if n == 0 else 60 if quick else 4000) * (1 if quick or n == 2 else 7):
            keep.append(x)
    T.run(rep, "verdict", keep, case, key=lambda x: f"{x['a']['body']}:{x['a']['prot']}:{sorted(x['d'])}")
    return rep.finish()
