"""P23: a key that is written and read again is the same key, or nothing is read."""
import os
import tempfile
import warnings

from pyasn1.codec.der import decoder, encoder
from pyasn1.type import univ
from pyasn1_alt_modules import rfc5280, rfc5958

from harness.report import Report
from pq_logic.combined_factory import CombinedKeyFactory as F
from resources import cryptoutils, keyutils

from . import table as T

KINDS = ["rsa", "ec", "ed25519", "ed448", "x25519", "x448", "ml-dsa-44", "ml-dsa-65-sha512", "ml-kem-512", "ml-kem-768",
         "slh-dsa-sha2-128f", "frodokem-640-aes", "composite-sig", "composite-kem", "xwing", "chempat", "hss", "rsa-kem"]
SEED_ONLY = {"rsa", "ec", "ed25519", "ed448", "x25519", "x448", "rsa-kem", "hss", "composite-sig", "composite-kem"}
EXPANDED = {"ml-dsa-44", "ml-dsa-65-sha512", "ml-kem-512", "ml-kem-768"}
WITH_PUBLIC = {"hss", "frodokem-640-aes"}
PW = "a Password"
_K = {}


def keys():
    for a in KINDS:
        if a not in _K:
            _K[a] = keyutils.generate_key(a), keyutils.generate_key(a)
    return _K


def other_alg(kind):
    """The identifier of an algorithm of the same sort."""
    o = {"rsa": "ec", "ec": "rsa", "ed25519": "ed448", "x25519": "x448", "ed448": "x25519", "x448": "ed25519", "ml-dsa-44": "ml-kem-512",
         "ml-dsa-65-sha512": "ml-kem-768", "ml-kem-512": "ml-kem-768", "ml-kem-768": "ml-kem-512", "hss": "ml-dsa-44"}.get(kind, "ml-dsa-44")
    return keyutils.prepare_subject_public_key_info(_K[o][0].public_key())["algorithm"]


def usable(k, o, loaded):
    """What was read does what the written key does."""
    pub = k.public_key()
    if loaded.public_key() != pub or type(loaded) is not type(k):
        return False
    if hasattr(loaded, "decaps") and hasattr(pub, "encaps"):
        try:
            ss, ct = pub.encaps()
        except TypeError:
            return True
        return loaded.decaps(ct) == ss
    if hasattr(loaded, "exchange") and not hasattr(loaded, "sign"):
        return loaded.exchange(o.public_key()) == o.exchange(pub)
    sig = cryptoutils.sign_data(b"data", loaded, hash_alg="sha256")
    cryptoutils.verify_signature(public_key=pub, signature=sig, data=b"data", hash_alg="sha256")
    return True


def kept(x, k, o):
    kind, form, box, d = x["kind"], x["form"], x["box"], x["damage"]
    if box == "spki":
        s, _ = decoder.decode(encoder.encode(keyutils.prepare_subject_public_key_info(k.public_key())),
                              rfc5280.SubjectPublicKeyInfo())
        bits = s["subjectPublicKey"].asOctets()
        bits = {"publicShort": bits[:-1], "publicLong": bits + b"\0", "publicEmpty": b""}.get(d, bits)
        s["subjectPublicKey"] = univ.BitString.fromOctetString(bits)
        if d == "otherAlgorithm":
            s["algorithm"] = other_alg(kind)
        return encoder.encode(s) + (b"\0" if d == "tail" else b"")

    def der(key):
        raw = F.save_private_key_one_asym_key(key, password=None, version=1, save_type=form, include_public_key=box == "derPublic")
        return decoder.decode(raw, asn1Spec=rfc5958.OneAsymmetricKey())[0]

    s = der(k)
    priv, pub = s["privateKey"].asOctets(), s["publicKey"].asOctets() if s["publicKey"].isValue else None
    version, alg = int(s["version"]), s["privateKeyAlgorithm"]
    priv = {"short": priv[:-1], "long": priv + b"\0", "empty": b""}.get(d, priv)
    if d in ("mixed", "mixedSeed"):
        # the seed of one key, and what another's expands to; the public key is the one of the other part
        mine, its = univ.Sequence(), decoder.decode(der(o)["privateKey"].asOctets())[0]
        own = decoder.decode(priv)[0]
        mine[0], mine[1] = (own[0], its[1]) if d == "mixed" else (its[0], own[1])
        priv = encoder.encode(mine)
    if pub is not None:
        pub = {"publicShort": pub[:-1], "publicLong": pub + b"\0"}.get(d, pub)
    if d == "publicOther":
        pub = der(o)["publicKey"].asOctets()
    version = {"version2": 2, "version0": 0}.get(d, version)
    if d == "otherAlgorithm":
        alg = other_alg(kind)
    return encoder.encode(keyutils._prepare_one_asym_key(priv, pub, version, alg))


def case(e):
    x, want = e["c"], e["result"]
    warnings.simplefilter("ignore")
    k, o = _K[x["kind"]]
    box, d = x["box"], x["damage"]
    why = None
    if box.startswith("file"):
        pw = PW if box == "fileProtected" else None
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, "k.pem")
            keyutils.save_key(k, path, password=pw, save_type=x["form"])
            pw = {"wrongPassword": "another", "noPassword": None, "caseOfPassword": PW.lower()}.get(d, pw)
            try:
                got = keyutils.load_private_key_from_file(path, password=pw)
            except Exception as err:  # noqa: BLE001
                got, why = None, repr(err)[:300]
    else:
        data = kept(x, k, o)
        try:
            got = keyutils.load_public_key_from_spki(data) if box == "spki" else F.load_private_key_from_one_asym_key(data)
        except Exception as err:  # noqa: BLE001
            got, why = None, repr(err)[:300]
    if got is None:
        res = "refused"
    elif box == "spki":
        res = "same" if got == k.public_key() else "another key"
    else:
        try:
            res = "same" if usable(k, o, got) else "another key"
        except Exception as err:  # noqa: BLE001
            res, why = "a key that does not work", repr(err)[:300]
    return [] if res == want else [[f"read: {res}, expected: {want}"], why]


def main(tier, args):
    rep = Report("P23", tier)
    lst = T.cases(rep, "SavedKey", dict(Kinds=frozenset(KINDS), SeedOnly=frozenset(SEED_ONLY), WithPublic=frozenset(WITH_PUBLIC),
                                       Expanded=frozenset(EXPANDED)), ["Faithful", "Kept"])
    keys()
    T.run(rep, "saved", lst, case, key=lambda e: ":".join(e["c"][n] for n in ("kind", "form", "box", "damage")))
    return rep.finish()
