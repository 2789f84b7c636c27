"""P18: a key the CA generates reaches only its requester, and is the key of the certificate."""
from cryptography.hazmat.primitives import serialization as S
from cryptography.hazmat.primitives.asymmetric import ec, rsa

from pyasn1.codec.der import decoder, encoder
from pyasn1_alt_modules import rfc4211

from harness import ca, exchange as X, wenv
from harness import world as W
from harness.report import Report
from resources import ca_kga_logic, certbuildutils, certutils, cmputils, keyutils

from . import table as T

WHO = {"rsaEnc": ("rsa", "digitalSignature,keyEncipherment"), "ecAgr": ("ec", "digitalSignature,keyAgreement"),
       "p384": ({"curve": "secp384r1"}, "digitalSignature,keyAgreement"), "rsaNo": ("rsa", "digitalSignature"),
       "ecNo": ("ec", "digitalSignature"), "rsaNone": ("rsa", None), "ecNone": ("ec", None),
       "ed": ("ed25519", "digitalSignature"), "mldsa": ("ml-dsa-44", "digitalSignature")}
SAMPLE = {}     # one key of every kind: only its kind is asked for
SEEN = set()
_C = {}


def gen(spec):
    return keyutils.generate_key("ec", **spec) if isinstance(spec, dict) else keyutils.generate_key(spec)


def sample(kind):
    if kind == "none":
        return None
    if kind not in SAMPLE:
        SAMPLE[kind] = gen({"p384": {"curve": "secp384r1"}, "slh": "slh-dsa-sha2-128f", "xwing": "xwing",
                            "hss": "hss_lms_sha256_m32_h5_lmots_sha256_n32_w4"}.get(kind, kind))
    return SAMPLE[kind]


def client():
    if not _C:
        c = _C["c"] = X.Client(())
        c.updated = set()   # the holders whose certificate an update has replaced
        c.who, c.stranger = {}, {"rsaEnc": keyutils.generate_key("rsa"), "ecAgr": keyutils.generate_key("ec")}
        for w in WHO:
            holder(c, w)
    return _C["c"]


def holder(c, w):
    spec, ku = WHO[w]
    k = gen(spec)
    ext = certbuildutils.prepare_extensions(key_usage=ku) if ku else None
    cn = c.fresh()
    t = certbuildutils.prepare_cert_template(key=k, subject=cn, extensions=ext)
    m = cmputils.build_cr_from_key(k, common_name=cn, cert_template=t, implicit_confirm=True, for_mac=True,
                                   sender="CN=client", recipient="CN=CA")
    r = ca.send(c.h, W.mac(m, password=c.password))
    assert ca.ok(ca.abstract(r)), ca.abstract(r)
    c.who[w] = (k, ca.certs_of(r)[0], cn)


def build(c, x, cn):
    b, w, kind, dev = x["body"], x["who"], x["kind"], x["dev"]
    macp = w not in WHO
    kw = dict(for_mac=True, sender="CN=client") if macp else dict(exclude_fields="sender,senderKID")
    if b == "kur":
        if macp:
            kw["exclude_fields"] = None
        else:
            cn = c.who[w][2]
    kw.update(implicit_confirm=x["impl"], recipient="CN=CA", pvno=2 if dev == "pvno2" else 3)
    k = sample(kind)
    f = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key, "kur": cmputils.build_key_update_request}[b]
    m = f(k, common_name=cn, for_kga=dev != "keySet", **kw)
    if dev == "keySet":                 # a key without a proof of possession
        e = rfc4211.CertReqMsg()
        e["certReq"] = m["body"][b][0]["certReq"]
        m["body"][b][0] = e
    if dev == "two":
        e, _ = decoder.decode(encoder.encode(m["body"][b][0]), rfc4211.CertReqMsg())
        e["certReq"]["certReqId"] = 1
        m["body"][b].append(e)
    if macp:
        return W.mac(m, w, password="Not-the-password-of-anybody" if dev == "badProt" else c.password), cn
    m = W.sign(m, *c.who[w][:2])
    if dev == "badProt":
        p = bytearray(m["protection"].asOctets())
        p[-1] ^= 1
        ca.set_protection(m, bytes(p))
    return m, cn


def kind_of(k):
    if isinstance(k, rsa.RSAPrivateKey):
        return "rsa"
    if isinstance(k, ec.EllipticCurvePrivateKey):
        return {"secp256r1": "ec", "secp384r1": "p384"}.get(k.curve.name, k.curve.name)
    n = keyutils.get_key_name(k)
    return "hss" if n.startswith("hss") else n      # a template cannot tell its parameters


def secrets(k):
    """Byte strings that give the private key away."""
    if isinstance(k, rsa.RSAPrivateKey):
        n = k.private_numbers()
        return [n.p.to_bytes(k.key_size // 16, "big"), n.q.to_bytes(k.key_size // 16, "big")]
    if isinstance(k, ec.EllipticCurvePrivateKey):
        return [k.private_numbers().private_value.to_bytes((k.key_size + 7) // 8, "big")]
    raw = k.private_bytes_raw() if hasattr(k, "private_bytes_raw") else k.private_bytes(
        S.Encoding.Raw, S.PrivateFormat.Raw, S.NoEncryption())
    if keyutils.get_key_name(k).startswith("ml-dsa"):   # the first 32 bytes of the expanded key are public
        return [raw[32:64]]
    return [raw[:16]]


EXT = ("2.5.29.14", "2.5.29.35", "1.3.6.1.5.5.7.1.1", "2.5.29.31")


def case(x):
    c, q = client(), x["c"]
    w, macp = q["who"], q["who"] not in WHO
    if w in c.updated:
        holder(c, w)
        c.updated.remove(w)
    m, cn = build(c, q, c.fresh())
    lists = lambda: tuple(map(len, (c.h.state.certificate_db.issued_certs, c.h.state.certificate_db.revoked_certs,  # noqa: E731
                                    c.h.state.certificate_db.updated_certs, c.h.state.certificate_db.not_confirmed_certs)))
    before = lists()
    try:
        r = ca.send(c.h, m)
    except Exception as e:  # noqa: BLE001
        return ["the CA raised instead of answering: " + repr(e)[:200]]
    a = ca.abstract(r)
    info = {"body": a["body"], "fail": sorted(a["fail"]), "text": a["text"][:1]}
    delta = tuple(y - z for y, z in zip(lists(), before))
    if x["refuse"]:
        bad = []
        if ca.ok(a):
            bad.append("a key is generated, the request should be refused")
        elif "any" not in x["refuse"] and (not a["fail"] or not a["fail"] <= set(x["refuse"])):
            bad.append(f"failInfo {sorted(a['fail'])}, should be {x['refuse']}")
        if any(delta):
            bad.append(f"issued/revoked/updated/unconfirmed certificates changed by {delta}")
        return [bad, info] if bad else []
    if not ca.ok(a):
        return [["refused, a key should be generated"], info]
    bad = []
    if q["body"] == "kur":
        c.updated.add(w)
    conf = c.h.state.certificate_db
    cert = ca.certs_of(r)[0]
    impl = q["impl"]
    want = ((1, 0, 0, 0) if impl else (0, 0, 0, 1)) if q["body"] != "kur" else ((1, 0, 1, 0) if impl else (-1, 0, 1, 1))
    if delta != want:
        bad.append(f"issued/revoked/updated/unconfirmed certificates changed by {delta}, should be {want}")
    env = r["body"][a["body"]]["response"][0]["certifiedKeyPair"]["privateKey"]
    if not env.isValue or env.getName() != "envelopedData":
        return [bad + ["no enveloped private key"], info]
    rec = env["envelopedData"]["recipientInfos"]
    if len(rec) != 1 or rec[0].getName() != x["by"]:
        bad.append(f"delivered by {[z.getName() for z in rec]}, should be {x['by']}")
    if q["body"] == "cr" and a["body"] != "cp" or q["body"] == "ir" and a["body"] != "ip" or q["body"] == "kur" and a["body"] != "kup":
        bad.append(f"answered with {a['body']}")
    raw, key = ca.der(r), None
    read = lambda pw, k: ca_kga_logic.validate_not_local_key_gen(ca.reparse(r), password=pw, ee_key=k)  # noqa: E731
    for s in x["steps"][1:]:
        if s == "stranger":
            try:
                read("another password" if macp else None, None if macp else c.stranger[w])
                bad.append("a stranger can read the key")
            except Exception:  # noqa: BLE001
                pass
        elif s == "requester":
            try:
                key = read(c.password if macp else None, None if macp else c.who[w][0])
            except Exception as e:  # noqa: BLE001
                return [bad + ["the requester cannot read the key: " + repr(e)[:250]], info]
            bad += delivered(q, cert, key, raw)
        elif s == "confirm":
            kw = dict(for_mac=True, sender="CN=client") if macp else dict(exclude_fields="sender,senderKID")
            mc = cmputils.build_cert_conf_from_resp(r, recipient="CN=CA", **kw)
            mc = W.mac(mc, w, password=c.password) if macp else W.sign(mc, *c.who[w][:2])
            st = conf.get_cert_state(cert).name
            if st != "NOT_CONFIRMED":
                bad.append(f"the certificate is {st} before it is confirmed")
            try:
                rc = ca.send(c.h, mc)
                b = rc["body"].getName()
                info["conf"] = ca.abstract(rc)["text"]
            except Exception as e:  # noqa: BLE001
                b = repr(e)[:150]
            if b != "pkiconf":
                bad.append(f"the confirmation is answered with {b}")
        elif s == "use":
            k2 = keyutils.generate_key("ec")
            mu = cmputils.build_cr_from_key(k2, common_name=c.fresh(), implicit_confirm=True, recipient="CN=CA",
                                            exclude_fields="sender,senderKID")
            a2 = ca.abstract(ca.send(c.h, W.sign(mu, key, cert)))
            if not ca.ok(a2):
                bad.append(f"a request signed with the delivered key is refused: {a2}")
    st = conf.get_cert_state(cert).name
    if W.STATE_NAMES[st] != x["cert"]:
        bad.append(f"the certificate ends up {st}, should be {x['cert']}")
    return [bad, info] if bad else []


def delivered(q, cert, key, raw):
    bad = []
    pub = key.public_key()
    if certutils.load_public_key_from_cert(cert) != pub:
        bad.append("the delivered key is not the certificate's")
    kind = q["kind"]
    want = {"none": "rsa"}.get(kind) or (kind if kind in ("rsa", "ec", "p384") else kind_of(sample(kind)))
    if kind_of(key) != want:
        bad.append(f"a {kind_of(key)} key is delivered, {want} was asked for")
    sec = secrets(key)
    if any(s in raw for s in sec):
        bad.append("the answer contains the private key in the clear")
    if sec[0] in SEEN:
        bad.append("the same key is delivered twice")
    SEEN.add(sec[0])
    if sample(kind) is not None and pub == sample(kind).public_key():
        bad.append("the key is not generated by the CA")
    have = [str(e["extnID"]) for e in cert["tbsCertificate"]["extensions"]] if cert["tbsCertificate"]["extensions"].isValue else []
    miss = [o for o in EXT if o not in have]
    if miss:
        bad.append(f"the certificate lacks the extensions {miss}")
    return bad


KINDS = ["none", "rsa", "ec", "p384", "ed25519", "ed448", "x25519", "x448", "ml-dsa-44", "ml-dsa-65", "ml-kem-768", "dsa"]
MORE = ["xwing", "slh", "hss"]
INV = ["Secret", "Deliverable", "NoEffect", "Granted"]


def main(tier, args):
    rep = Report("P18", tier)
    quick = tier == "quick"
    kinds = KINDS + ([] if quick else MORE)
    lst = T.cases(rep, "Kga", dict(Bodies={"ir", "cr", "kur"}, Whos={"pbmac1", "password_based_mac", "hmac", "kmac"} | set(WHO),
                                   Kinds=set(kinds), Deviations={"-", "pvno2", "keySet", "two", "badProt"}), INV)
    client()
    for k in kinds:
        sample(k)
    if quick:
        few = T.sample([x for x in lst if not x["refuse"]], lambda x: x["c"]["kind"] == "ec", 90)
        few += T.sample([x for x in lst if x["refuse"]], lambda x: x["c"]["kind"] in ("ec",) and not x["c"]["impl"], 60)
        lst = few
    T.run(rep, "request", lst, case)
    return rep.finish()
