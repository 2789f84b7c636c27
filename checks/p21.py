"""P21: only signers with a valid chain to the CA's trust anchor are trusted."""
from datetime import datetime, timedelta, timezone

from harness import ca, exchange as X, wenv, world as W
from harness.report import Report
from resources import certbuildutils as B, cmputils, keyutils, protectionutils

from . import table as T

ALGS = {"ec": "ec", "rsa": "rsa", "ed25519": "ed25519", "ed448": "ed448", "mldsa": "ml-dsa-44", "slhdsa": "slh-dsa-sha2-128f",
        "composite": "composite-sig"}
PQ = {"mldsa", "slhdsa", "composite"}
_C, _K = [], {}


def client():
    if not _C:
        _C.append(X.Client(()))
        _C[0].ca = ca.ca_cert_and_key()
    return _C[0]


def key(name, alg="ec"):
    if (name, alg) not in _K:
        _K[name, alg] = keyutils.generate_key(alg)
    return _K[name, alg]


def validity(kinds):
    now, day = datetime.fromtimestamp(wenv.clock(), timezone.utc), timedelta(days=1)
    if "expired" in kinds:
        return B.prepare_validity(now - 5 * day, now - day)
    if "future" in kinds:
        return B.prepare_validity(now + day, now + 5 * day)
    return B.prepare_validity(now - day, now + 30 * day)


def leaf_ext(kinds):
    ku = None if "noKU" in kinds else "keyEncipherment" if "kuOther" in kinds else "digitalSignature"
    return B.prepare_extensions(key_usage=ku, key=key("any"), critical=False)


def inter_ext(kinds, k):
    ku = None if "noKU" in kinds else "digitalSignature" if "noCertSign" in kinds else "keyCertSign"
    bc = None if "noBC" in kinds else "notCA" not in kinds
    return B.prepare_extensions(key_usage=ku, key=k.public_key(), is_ca=bc, path_length=0 if "pathlen0" in kinds else None,
                                critical=False)


def chain(x):
    """The certificates of the chain, None for those that are not sent."""
    at = {p: {k for k, q in x["defects"] if q == p} for p in range(x["depth"] + 2)}
    d = x["depth"]
    cert, k = client().ca
    root = cert
    if at[d + 1] & {"impostor", "foreign"}:
        k = key("impostor")
        name = cert["tbsCertificate"]["subject"] if "impostor" in at[d + 1] else "CN=Foreign Root"
        root, _ = B.build_certificate(k, name, extensions=B.prepare_extensions(key_usage="keyCertSign", key=k.public_key(), is_ca=True,
                                                                            critical=False), validity=validity(()))
    out = [None if "missing" in at[d + 1] else root]
    icert = root
    for p in range(d, 0, -1):
        ik = key(f"inter{p}")
        c, _ = B.build_certificate(ik, f"CN=Intermediate {p}", ca_key=k, ca_cert=icert, extensions=inter_ext(at[p], ik),
                                   validity=validity(at[p]), bad_sig="badSig" in at[p])
        out.insert(0, None if "missing" in at[p] else c)
        k, icert = ik, c
    lk = key("leaf", ALGS[x["alg"]])
    c, _ = B.build_certificate(lk, "CN=The Leaf", ca_key=k, ca_cert=icert, extensions=leaf_ext(at[0]), validity=validity(at[0]),
                               bad_sig="badSig" in at[0])
    return lk, [c] + out


def junk():
    if "junk" not in _K:
        a, b = key("junk a"), key("junk b")
        ra, _ = B.build_certificate(a, "CN=Junk Root", validity=validity(()))
        _K["junk"] = [ra, B.build_certificate(b, "CN=Junk", ca_key=a, ca_cert=ra, validity=validity({"expired"}))[0]]
    return _K["junk"]


def message(cl, x):
    lk, certs = chain(x)
    leaf, rest = certs[0], [c for c in certs[1:] if c is not None]
    if x["order"] == "reversed":
        rest.reverse()
    elif x["order"] == "junk":
        rest = [junk()[1]] + [c for y in rest for c in (y, junk()[0])]
    if x["body"] == "rr":
        m = cmputils.build_cmp_revoke_request(cert=victim(), reason="superseded", exclude_fields="sender,senderKID")
    else:
        m = cl.body(x["body"], "sig-ec")
    m = protectionutils.protect_pkimessage(m, "signature", private_key=lk, cert=leaf, exclude_certs=True)
    m["extraCerts"] = cmputils.prepare_extra_certs([leaf] + rest)
    return m


def victim():
    if "victim" not in _K:
        _K["victim"] = client().enrol(key("victim"), "CN=Victim")
    return _K["victim"]


def case(x):
    cl = client()
    db = cl.h.state.certificate_db
    m = message(cl, x)
    n, revoked = len(db.issued_certs), len(db.revoked_certs)
    try:
        resp = ca.send(cl.h, m)
    except Exception as ex:  # noqa: BLE001
        return ["the CA raised " + repr(ex)[:200]]
    a = ca.abstract(resp)
    got = {"body": a["body"], "fail": sorted(a["fail"]), "text": [t[:150] for t in a["text"][:1]]}
    new = len(db.issued_certs) - n
    bad = []
    if len(db.revoked_certs) != revoked:
        bad.append("somebody else's certificate was revoked")
    if x["trusted"]:
        if not ca.ok(a):
            bad.append("a trusted signer was refused")
        elif new != (x["body"] != "genm"):
            bad.append(f"{new} certificates issued")
    else:
        if ca.ok(a):
            bad.append("granted to a signer who is not trusted")
        if new:
            bad.append("issued for a signer who is not trusted")
        if not bad and not set(a["fail"]) & set(x["fail"]):
            bad.append(f"failInfo {sorted(a['fail'])}, expected one of {x['fail']}")
    return [bad, got] if bad else []


def key_of(x):
    """Signers with post-quantum keys: what is wrong with the chain identifies the finding."""
    lax = {"expired", "future", "notCA", "noBC", "noCertSign", "pathlen0"}
    kinds = {k for k, p in x["defects"] if k != "noKU"}
    if x["alg"] in PQ and kinds and kinds <= lax:
        return "pq-chain-not-validated"
    return T.replay.canon(x)


def main(tier, args):
    rep = Report("P21", tier)
    algs = {"ec", "rsa", "ed25519", "mldsa", "composite"} | ({"ed448", "slhdsa"} if tier == "thorough" else set())
    lst = T.cases(rep, "Trust", dict(Algs=frozenset(algs), MaxDepth=2, MaxDefects=2),
                  ["ADefectNeverHelps", "OnlyTheRootIsTrusted"])
    client()
    for a in algs:
        key("leaf", ALGS[a])
    for k in ("any", "impostor", "inter1", "inter2", "junk a", "junk b"):
        key(k)
    junk(), victim()
    if tier == "quick":
        lst = T.sample(lst, lambda x: len(x["defects"]) <= 1 and (x["body"], x["order"]) in (("ir", "normal"), ("rr", "normal")) and x["alg"] in ("ec", "mldsa", "composite"), 600)
    else:
        lst = T.sample(lst, lambda x: len(x["defects"]) <= 1, 6000)
    T.run(rep, "trust", lst, case, key=key_of)
    return rep.finish()
