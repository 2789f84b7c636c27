"""Damaged requests (spec/Damage.tla): P06 totality and atomicity, P13 integrity of protected messages."""
import base64
import json
import random

from pyasn1.codec.der import decoder, encoder
from pyasn1.type import char
from pyasn1_alt_modules import rfc9480

import mock_ca.ca_handler as H
from harness import ca, exchange as X, mutate as M, wenv, world as W
from resources import cmputils, keyutils
from resources.oidutils import HMAC_OID_2_NAME, SHA_OID_2_NAME

from . import table as T

_C = []
SIGS = [("sig-ec",)]            # the signature keys the client has
PROT = {"mac": "password_based_mac", "sig": "sig-ec"}


def client():
    if not _C:
        c = X.Client(SIGS[0])
        H.handler, H.state = c.h, c.h.state
        _C.append((c, H.app.test_client()))
    return _C[0]


def books(c):
    s = c.h.state.certificate_db
    return {k: sorted(int(x["tbsCertificate"]["serialNumber"]) for x in v) for k, v in (
        ("issued", s.issued_certs), ("unconfirmed", s.not_confirmed_certs), ("revoked", s.revoked_certs),
        ("updated", s.updated_certs))}


def diff(a, b):
    return {k: len(b[k]) - len(a[k]) for k in a}


def post(web, data):
    """What the HTTP route does with these bytes: (answer, None) or (None, why it is not an answer)."""
    try:
        r = web.post("/issuing", data=data)
    except Exception as e:  # noqa: BLE001
        return None, "no answer: " + repr(e)[:200]
    if r.status_code not in (200, 400):
        return None, f"HTTP {r.status_code} {r.get_data(as_text=True)[:200]}"
    try:
        m, rest = decoder.decode(r.data, asn1Spec=ca.PKIMessageTMP())
    except Exception as e:  # noqa: BLE001
        return None, "the answer is not a PKIMessage: " + repr(e)[:200]
    return (m, None) if not rest else (None, "trailing data in the answer")


def decorate(m):
    """Header fields a request may have."""
    m["header"]["freeText"].append(char.UTF8String("please"))
    X._octets(m, "recipKID", b"the CA's key", 3)
    return m


def request(c, body, prot):
    p = PROT.get(prot, prot)
    mac = p in X.MACS
    if body == "kur" or getattr(c, "updated", False):       # an updated certificate cannot be used any more
        c.holder("sig-ec")
    c.updated = body == "kur"
    if body != "certConf":
        m = c.protect(decorate(c.body(body, p)), p)
    else:
        k = keyutils.generate_key("ec")
        q = c.protect(W.enrol_msg("cr", c.fresh(), k, mac, False), p)
        a = ca.send(c.h, q)
        kw = dict(exclude_fields=None, sender="CN=client", for_mac=True) if mac else dict(exclude_fields="sender,senderKID")
        m = c.protect(decorate(cmputils.build_cert_conf_from_resp(a, recipient="CN=CA", **kw)), p)
    return m


def pbm_params(c, m):
    prm, _ = decoder.decode(encoder.encode(m["header"]["protectionAlg"]["parameters"]), asn1Spec=rfc9480.PBMParameter())
    return dict(password=c.password.encode(), salt=prm["salt"].asOctets(), iterations=int(prm["iterationCount"]),
                owf=SHA_OID_2_NAME[prm["owf"]["algorithm"]], mac=HMAC_OID_2_NAME[prm["mac"]["algorithm"]].split("-")[1])


def in_part(root, p, part):
    r = M.region(root, p)
    if r == "header":
        return M.header_field(root, p) == part
    if r == "body":
        d = len(p)
        return part == ("body1" if d <= 4 else "body2" if d <= 6 else "body3")
    if r == "protection":
        return part == "protection"
    if r == "extraCerts":
        if len(p) < 3:
            return part == "chain" and len(p) == 1
        return part == ("signer" if p[2] == 0 else "chain")
    return False


def canon(data):
    try:
        return encoder.encode(cmputils.parse_pkimessage(data))
    except Exception:  # noqa: BLE001
        return None


def case(x, one=1):
    """All disagreements over a number of places of this part; the number of requests that were sent."""
    c, web = client()
    rng = random.Random(json.dumps([wenv.SEED, {k: x[k] for k in ("body", "prot", "part", "op", "when")}], sort_keys=True))
    bad, sent, info = [], 0, None
    m = request(c, x["body"], x["prot"])
    data = ca.der(m)
    root = M.tree(data)
    ps = [p for p in M.paths(root) if p and in_part(root, p, x["part"])]
    rng.shuffle(ps)
    fresh = True
    for p in ps[:one * 3]:
        if sent >= one:
            break
        if not fresh:
            m = request(c, x["body"], x["prot"])
            data = ca.der(m)
            root = M.tree(data)
            if p not in M.paths(root):
                continue
            fresh = True
        other = ca.der(request(c, x["body"], x["prot"])) if x["op"] in ("splice", "earlier") else None
        if x["op"] == "earlier":
            post(web, other)
        d = M.mutate(data, p, x["op"], rng.random(), other)
        if d is None:
            continue
        if x["when"] == "by the sender":
            d = M.reprotect(d, key=c.key["sig-ec"]) if x["prot"] == "sig" else M.reprotect(d, password=pbm_params(c, m))
            if d is None:
                continue
        sent += 1
        b, i, fresh = one_request(c, web, x, data, d)
        if b:
            bad += [f"{y} (at {p})" for y in b]
            info = dict(i, sent=d.hex()[:6000], intact=data.hex()[:6000])
    return [bad[:6], info or {"n": sent}]


def one_request(c, web, x, data, d):
    """Send the damaged request d, then the intact one."""
    before = books(c)
    resp, why = post(web, d)
    after = books(c)
    if resp is None:
        return [why], {}, False
    a = ca.abstract(resp)
    bad = secrets(c, x, data, d, resp)
    if not ca.ok(a):
        if before != after:
            bad.append(f"refused, but the books changed by {diff(before, after)}")
        if x["body"] == "certConf" and x["when"] == "by the sender":
            return bad, a_info(a), False         # the sender's own, authentic confirmation: it is spent
        resp, why = post(web, data)
        a2 = ca.abstract(resp) if resp is not None else {}
        if resp is None:
            bad.append("the intact request: " + why)
        elif not ca.ok(a2):
            bad.append(f"the intact request is refused after the damaged one: {sorted(a2['fail'])} {a2['text'][:1]}")
        else:
            bad += effect(x, before, books(c), "the intact request")
        return bad, a_info(a), False
    same = canon(d) == canon(data)
    if not x["mayAccept"] and not same:
        bad.append("accepted although a protected part was changed")
    bad += effect(x, before, after, "the accepted request")
    return bad, a_info(a), False


def secrets(c, x, data, d, resp):
    """An answer must not contain the secret, nor the MAC that the damaged request should have had."""
    if PROT.get(x["prot"], x["prot"]) not in X.MACS:
        return []
    out = encoder.encode(resp)
    bad = ["the answer contains the shared secret"] if contains(out, c.password.encode()) else []
    if x["prot"] == "mac" and x["when"] == "on the way":
        good = M.reprotect(d, password=pbm_params(c, cmputils.parse_pkimessage(data)))
        try:
            mac = good and M.tree(good).kids[2].kids[0].val[1:]
        except (ValueError, IndexError):
            mac = None
        if mac and mac not in data and contains(out, mac):
            bad.append("the answer contains the MAC that would have been accepted")
    return bad


def contains(out, secret):
    low = out.lower()
    return any(f in low for f in (secret.lower(), secret.hex().encode(), base64.b64encode(secret).lower()))


def effect(x, a, b, what):
    d = diff(a, b)
    if d not in x["effects"]:
        return [f"{what} changed the books by {d}"]
    return []


def a_info(a):
    return {"body": a["body"], "fail": sorted(a["fail"]), "text": a["text"][:1]}


def run(rep, name, pick, one, others=()):
    lst = T.cases(rep, "Damage", dict(OtherProts=frozenset(others)), ["RefusalHasNoEffect", "DamageOnTheWayIsFound", "NothingTwice"])
    lst = [x for x in lst if pick(x)]
    client()
    import functools
    res = T.run(rep, name, lst, functools.partial(case, one=one),
                key=lambda x: " ".join(x[k] for k in ("body", "prot", "part", "op", "when")))
    return res
