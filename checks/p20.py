"""P20: a client takes a private key only if it is the certificate's and comes from a key generation authority it trusts."""
import hashlib

from pyasn1.codec.der import decoder, encoder
from pyasn1.type import tag, univ
from pyasn1_alt_modules import rfc5652, rfc5958, rfc8018, rfc9480

from harness import ca
from harness import world as W
from harness.report import Report
from resources import (asn1utils, ca_kga_logic as K, certbuildutils, certutils, cmputils, cryptoutils, envdatautils as E, keyutils, oid_mapping,
                       protectionutils, utils)

from . import p18, table as T

KINDS = ["ec", "rsa", "ed25519", "ml-dsa-44", "ml-kem-768", "x25519", "ed448", "x448", "p384"]
WHO = {"pwri": "pbmac1", "ktri": "rsaEnc", "kari": "ecAgr"}
_D = {}
INV = ["OnlyGenuine", "Genuine", "Signed"]


def deliveries():
    """One genuine delivery per kind (DER), and material of the adversary."""
    if _D:
        return _D
    c = p18.client()
    for by, w in WHO.items():
        for kind in KINDS if by == "pwri" else ["ec"]:
            m, _ = p18.build(c, dict(body="ir", who=w, kind=kind, dev="-", impl=True), c.fresh())
            _D[by, kind] = ca.der(ca.send(c.h, m))
    cac, cak = ca.ca_cert_and_key()
    kga_key = keyutils.load_private_key_from_file("data/keys/private-key-ecdsa.pem")
    kga = certutils.parse_certificate(utils.load_and_decode_pem_file("data/unittest/ra_kga_cert_ecdsa.pem"))
    _D["kga"] = (kga_key, [kga, cac])
    eku = certbuildutils.prepare_extensions
    for name, e in (("noEku", None), ("otherEku", "cmcCA")):
        k = keyutils.generate_key("ec")
        ext = certbuildutils.prepare_extensions(key_usage="digitalSignature", eku=e, key=k.public_key(), ca_key=cak.public_key(),
                                                critical=False)
        cert, _ = certbuildutils.build_certificate(k, "CN=Not a KGA", ca_cert=cac, ca_key=cak, extensions=ext)
        _D[name] = (k, [cert, cac])
    rk, k = keyutils.generate_key("ec"), keyutils.generate_key("ec")
    root, _ = certbuildutils.build_certificate(rk, "CN=Root CA", extensions=eku(key_usage="keyCertSign", is_ca=True, key=rk.public_key()))
    cert, _ = certbuildutils.build_certificate(k, "CN=KGA", ca_cert=root, ca_key=rk, extensions=eku(
        key_usage="digitalSignature", eku="cmKGA", key=k.public_key(), ca_key=rk.public_key(), critical=False))
    _D["untrusted"] = (k, [cert, root])
    # a chain with post-quantum keys is checked by other code: with a genuine and with a forged signature of the CA
    for name, by in (("pqKga", cak), ("pqForged", keyutils.generate_key("ed25519"))):
        k = keyutils.generate_key("ml-dsa-44", seed=b"\x07" * 32)
        cert, _ = certbuildutils.build_certificate(k, "CN=PQ KGA", ca_cert=cac, ca_key=by, extensions=eku(
            key_usage="digitalSignature", eku="cmKGA", key=k.public_key(), ca_key=cak.public_key(), critical=False))
        _D[name] = (k, [cert, cac])
    _D["caSigns"] = (cak, [cac])
    _D["stray"] = certbuildutils.build_certificate(rk, "CN=Stray")[0]
    return _D


def like(key):
    """Another key of the same kind."""
    n = p18.kind_of(key)
    return keyutils.generate_key("ec", curve="secp384r1") if n == "p384" else keyutils.generate_key(n)


def content(d, key, kga):
    """The signed content of a delivery with the defects d."""
    kk, chain = _D["kga" if kga == "ec" else "pqKga"]
    for n in ("noEku", "otherEku", "untrusted", "caSigns", "pqForged"):
        if n in d:
            kk, chain = _D[n]
    pq = kga != "ec" or "pqForged" in d
    hashless = pq or "caSigns" in d
    another = like(key)
    signer = keyutils.generate_key("ec") if "notSigner" in d else kk
    if "strayCert" in d:
        chain = chain + [_D["stray"]]
    if "otherKey" in d:
        key = another
    save = dict(key_save_type="raw") if p18.kind_of(key).startswith("ml-") else {}
    one = keyutils.prepare_one_asymmetric_key(key, version="v1" if "keyV1" in d else "v2", include_public_key="keyV1" not in d, **save)
    if "mismatch" in d or "otherPriv" in d:
        a, b = (key, another) if "mismatch" in d else (another, key)
        one = keyutils.prepare_one_asymmetric_key(a, public_key=b.public_key(), version="v2", **save)
    if "garbage" in d:
        one["privateKey"] = univ.OctetString(b"\x30\x03\x02\x01\x07")
    pkg = E.prepare_asymmetric_key_package([one, one] if "twoKeys" in d else [one])
    e = asn1utils.encode_to_der(pkg)
    if "trailing" in d:
        e += b"\x05\x00"
    h = "sha512" if hashless else "sha256"
    sd = rfc5652.SignedData()
    sd["version"] = 1 if "sdVersion" in d else 3
    sd["digestAlgorithms"] = E._prepare_digest_alg_ids("sha384" if "otherDigestAlg" in d else h)
    if "twoDigests" in d:
        sd["digestAlgorithms"].append(E._prepare_digest_alg_ids("sha384")[0])
    sd["certificates"] = E.prepare_certificate_set([] if "noCerts" in d else chain)
    sd["encapContentInfo"] = E.prepare_encapsulated_content_info(e, override_oid="contentType" in d)
    si = E.prepare_signer_info(_D["kga"][0] if hashless else kk, chain[0], e, sig_hash_name="sha256",
                               version=1 if "siVersion" in d else 3)
    attrs = rfc5652.SignedAttributes().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))
    digest = hashlib.new(h, e if "otherDigest" not in d else e + b"x").digest()
    for a in E.prepare_signed_attributes(digest):
        if a["attrType"] == rfc5652.id_messageDigest and "noDigest" in d:
            continue
        if a["attrType"] == rfc5652.id_contentType and "noType" in d:
            continue
        attrs.append(a)
    si["signedAttrs"] = attrs
    if hashless:
        si["signatureAlgorithm"]["algorithm"] = oid_mapping.get_alg_oid_from_key_hash(kk, hash_alg="sha512") if kga == "pqHash" else \
            chain[0]["tbsCertificate"]["subjectPublicKeyInfo"]["algorithm"]["algorithm"]
        si["digestAlgorithm"]["algorithm"] = E._prepare_digest_alg_ids(h)[0]["algorithm"]
    sig = bytearray(cryptoutils.sign_data(data=encoder.encode(sd["encapContentInfo"]), key=signer,
                                          hash_alg="sha256" if not hashless or signer is not kk else
                                          "sha512" if kga == "pqHash" else None))
    if "badSig" in d:
        sig[-1] ^= 1
    si["signature"] = univ.OctetString(bytes(sig))
    if "sidIssuer" in d:
        si["sid"] = rfc5652.SignerIdentifier()
        t = chain[0]["tbsCertificate"]
        si["sid"]["issuerAndSerialNumber"]["issuer"] = t["issuer"]
        si["sid"]["issuerAndSerialNumber"]["serialNumber"] = t["serialNumber"]
    sd["signerInfos"].append(si)
    if "twoSigners" in d:
        sd["signerInfos"].append(si)
    return encoder.encode(sd)


def spoil_recipient(d, by, ri, salt, cek, c):
    s = ri[by]
    if "riVersion" in d:
        s["version"] = 0 if by == "ktri" else 4
    if "ridOther" in d:
        i = rfc5652.SubjectKeyIdentifier(b"\x01" * 20)
        if by == "ktri":
            s["rid"]["subjectKeyIdentifier"] = i.subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
        else:
            s["recipientEncryptedKeys"][0]["rid"]["rKeyId"]["subjectKeyIdentifier"] = i
    if "sameSalt" in d:
        p, _ = decoder.decode(encoder.encode(s["keyDerivationAlgorithm"]["parameters"]), rfc8018.PBKDF2_params())
        p["salt"]["specified"] = univ.OctetString(salt)
        s["keyDerivationAlgorithm"]["parameters"] = p
        # the recipient could unwrap the key: only the salt is wrong
        kek = cryptoutils.compute_pbkdf2_from_parameter(p, key=c.password.encode())
        from cryptography.hazmat.primitives.keywrap import aes_key_wrap
        s["encryptedKey"] = aes_key_wrap(kek, cek)
    if "flippedWrap" in d:
        tgt = s["recipientEncryptedKeys"][0] if by == "kari" else s
        b = bytearray(tgt["encryptedKey"].asOctets())
        b[-1] ^= 1
        tgt["encryptedKey"] = bytes(b)


def case(x):
    by, d = x["c"]["by"], x["c"]["defects"]
    D, c = deliveries(), p18.client()
    r = cmputils.parse_pkimessage(D[by, x["c"]["kind"]])
    w, macp = WHO[by], by == "pwri"
    pw, k = (c.password, None) if macp else (None, c.who[w][0])
    ckp = r["body"]["ip"]["response"][0]["certifiedKeyPair"]
    env = ckp["privateKey"]["envelopedData"]
    cek = K.extract_content_encryption_key(env, r, pw, k, r["extraCerts"][0])
    data = K.validate_encrypted_content_info(env["encryptedContentInfo"], cek)
    sd, _ = decoder.decode(data, rfc5652.SignedData())
    pkg, _ = decoder.decode(sd["encapContentInfo"]["eContent"].asOctets(), rfc5958.AsymmetricKeyPackage())
    key = K.validate_asymmetric_key_package(pkg)
    ris = list(env["recipientInfos"])
    salt = protectionutils.get_cmp_protection_salt(r["header"]["protectionAlg"]) if macp else None
    spoil_recipient(d, by, ris[0], salt, cek, c)
    if "twoRecipients" in d:
        ris.append(ris[0])
    data = content(d, key, x["c"]["kga"])
    env2 = E.prepare_enveloped_data(recipient_infos=ris, cek=cek, data_to_protect=data)
    eci = env2["encryptedContentInfo"]
    if "idData" in d:
        eci["contentType"] = rfc5652.id_data
    if "noIv" in d:
        a = rfc5652.ContentEncryptionAlgorithmIdentifier()
        a["algorithm"] = eci["contentEncryptionAlgorithm"]["algorithm"]
        eci["contentEncryptionAlgorithm"] = a
    if "flippedContent" in d or "cut" in d:
        b = bytearray(eci["encryptedContent"].asOctets())
        b[len(b) // 2] ^= 1
        if "cut" in d:
            b = b[:len(b) // 32 * 16]
        eci["encryptedContent"] = rfc5652.EncryptedContent(bytes(b)).subtype(
            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
    if "notEnveloped" in d:
        ev = rfc9480.EncryptedKey().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
        ev["encryptedValue"]["encValue"] = univ.BitString.fromOctetString(data)
        ckp["privateKey"] = ev
    else:
        ckp["privateKey"]["envelopedData"] = env2
    if "pvno2" in d:
        r["header"]["pvno"] = 2
    if macp:
        r = protectionutils.protect_pkimessage(r, w, password="Another-Password-Entirely" if "otherPassword" in d else pw,
                                               salt=salt)
        if "flippedMessage" in d:
            p = bytearray(r["protection"].asOctets())
            p[-1] ^= 1
            ca.set_protection(r, bytes(p))
    try:
        r = ca.reparse(r)
    except Exception as e:  # noqa: BLE001
        return [["the harness built a message that cannot be parsed: " + repr(e)[:200]], None]
    try:
        got = K.validate_not_local_key_gen(r, password=pw, ee_key=k)
    except Exception as e:  # noqa: BLE001
        if x["take"]:
            return [["a genuine delivery is refused: " + repr(e)[:300]], None]
        return []
    if not x["take"]:
        return [[f"a key with {d} is taken"], None]
    if got.public_key() != key.public_key():
        return [["another key is returned"], None]
    return []


def main(tier, args):
    rep = Report("P20", tier)
    lst = T.cases(rep, "DeliveredKey", dict(N=2, Deliveries={"pwri", "ktri", "kari"}, Kinds=frozenset(KINDS)), INV)
    deliveries()
    if tier == "quick":
        lst = T.sample(lst, lambda x: len(x["c"]["defects"]) < 2, 150)
    T.run(rep, "delivery", lst, case)
    return rep.finish()
