"""P09: nested messages only count with the RA's signature, and let nothing in that is refused alone."""
import os

from harness import ca, exchange as X
from harness import world as W
from harness.report import Report
from pyasn1.type import univ
from resources import cmputils, keyutils, prepareutils, protectionutils
from unit_tests.utils_for_test import build_certificate

from . import table as T

_C = []
ANSWER = {"ir": "ip", "cr": "cp", "p10cr": "cp", "kur": "kup", "certConf": "pkiconf"}


def client():
    if not _C:
        _C.append(X.Client(()))
        _C.append({})
    return _C[0]


class Holder:
    def __init__(self, cl, state="good"):
        if state == "ra":
            (self.key, self.cert), self.cn, self.cl = ca.ra(), "CN=RA", cl
            return
        self.key, self.cn, self.cl = keyutils.generate_key("ec"), cl.fresh(), cl
        if state == "foreign":
            ik = keyutils.generate_key("ec")
            self.cert, _ = build_certificate(private_key=self.key, ca_key=ik, common_name=self.cn)
            return
        m = W.mac(W.enrol_msg("cr", self.cn, self.key, True, state != "unconfirmed"), password=cl.password)
        r = ca.send(cl.h, m)
        assert ca.ok(ca.abstract(r))
        self.cert = ca.certs_of(r)[0]
        if state == "revoked":
            rr = cmputils.build_cmp_revoke_request(cert=self.cert, reason="superseded", recipient="CN=CA",
                                                   exclude_fields="sender,senderKID")
        elif state == "updated":
            rr = W.enrol_msg("kur", self.cn, keyutils.generate_key("ec"), False, True)
        else:
            return
        r = ca.send(cl.h, W.sign(rr, self.key, self.cert))
        assert ca.ok(ca.abstract(r)), ca.abstract(r)

    def sign(self, m):
        return W.sign(m, self.key, self.cert)


class Build:
    """The messages of one case."""

    def __init__(self, cl):
        self.cl = cl
        self.good = Holder(cl)
        self.keys, self.names, self.holders = [], [], []

    def known_bad_key(self, cn, why):
        k = keyutils.generate_key("ec")
        c = self.cl.enrol(k, cn)
        if why == "compromised":
            rr = cmputils.build_cmp_revoke_request(cert=c, reason="keyCompromise", recipient="CN=CA",
                                                   exclude_fields="sender,senderKID")
            r = ca.send(self.cl.h, W.sign(rr, k, c))
            assert ca.ok(ca.abstract(r))
        return k

    def entry(self, e):
        cl, body, prot, need = self.cl, e["body"], e["prot"], e["need"]
        h = self.good if e["who"] == "good" else Holder(cl, e["who"])
        signed = prot in ("sig", "badsig")
        cn = h.cn if body == "kur" else cl.fresh()
        k = keyutils.generate_key("ec")
        if need in ("compromised", "usedkey"):
            k = self.known_bad_key(cn, need)
        elif need == "first":
            k, cn = self.keys[0], self.names[0]
        kw = {}
        if need == "badpopo":
            kw["bad_pop"] = True
        elif need == "raVerified":
            kw["ra_verified"] = True
        if body in ("ir", "cr", "p10cr", "kur"):
            if body == "kur" and not signed:
                kw["exclude_fields"] = None
            m = W.enrol_msg(body, cn, k, not signed, True, **kw)
            if body == "kur" and prot == "none":
                m["header"]["sender"] = prepareutils.prepare_general_name("directoryName", cn)
                m = cmputils.patch_extra_certs(m, certs=[h.cert])
        else:
            m = cl.body(body, "password_based_mac" if not signed else "sig-ec")
        self.keys.append(k), self.names.append(cn), self.holders.append(h)
        if prot in ("mac", "badmac"):
            m = W.mac(m, password=cl.password)
        elif signed:
            m = h.sign(m)
        if prot.startswith("bad"):
            v = bytearray(m["protection"].asOctets())
            v[-1] ^= 1
            ca.set_protection(m, bytes(v))
        return ca.reparse(m)

    def header(self, m, field, data, n, e):
        """Change a header field of an inner message, which its sender then protects."""
        if data is None:
            X._drop(m, field)
        else:
            X._octets(m, field, data, n)
        return ca.reparse(W.mac(m, password=self.cl.password) if e["prot"] == "mac" else
                          self.good.sign(m) if e["prot"] == "sig" else m)


def outer(b, c, es, inner):
    cl, added, d = b.cl, c["kind"] == "added", c["defect"]
    if not added:
        if d == "dupTx":
            inner[1] = b.header(inner[1], "transactionID", inner[0]["header"]["transactionID"].asOctets(), 4, es[1])
        elif d == "dupNonce":
            inner[1] = b.header(inner[1], "senderNonce", inner[0]["header"]["senderNonce"].asOctets(), 5, es[1])
        elif d == "shortInnerTx":
            inner[1] = b.header(inner[1], "transactionID", os.urandom(8), 4, es[1])
        elif d == "shortInnerNonce":
            inner[1] = b.header(inner[1], "senderNonce", os.urandom(8), 5, es[1])
    if d == "recipInner":
        inner[0] = b.header(inner[0], "recipNonce", os.urandom(16), 6, es[0])
    kw = {}
    m = cmputils.build_nested_pkimessage(other_messages=inner or None, for_added_protection=added and bool(inner),
                                         recipient="CN=CA", **kw) if inner else empty_nested()
    S = {"txDiffers": ("transactionID", os.urandom(16), 4), "nonceDiffers": ("senderNonce", os.urandom(16), 5),
         "recipOuter": ("recipNonce", os.urandom(16), 6), "shortTx": ("transactionID", os.urandom(8), 4),
         "shortNonce": ("senderNonce", os.urandom(8), 5)}
    if inner:
        S["txAsOuter"] = ("transactionID", inner[0]["header"]["transactionID"].asOctets(), 4)
        S["nonceAsOuter"] = ("senderNonce", inner[0]["header"]["senderNonce"].asOctets(), 5)
    if d in S:
        X._octets(m, *S[d])
    elif d == "noTx":
        X._drop(m, "transactionID")
    elif d == "noNonce":
        X._drop(m, "senderNonce")
    s = c["signer"]
    if s == "ra":
        m = W.sign(m, *ca.ra())
    elif s == "holder":
        m = Holder(cl).sign(m)
    elif s == "foreign":
        m = Holder(cl, "foreign").sign(m)
    elif s == "mac":
        X._sender(m, "CN=client")
        X._octets(m, "senderKID", b"CN=client", 2)
        m = W.mac(m, password=cl.password)
    else:
        X._sender(m, "CN=client")
    if d == "flip" and m["protection"].isValue:
        v = bytearray(m["protection"].asOctets())
        v[-1] ^= 1
        ca.set_protection(m, bytes(v))
    return m


def empty_nested():
    return cmputils.build_nested_pkimessage(other_messages=None, recipient="CN=CA")


def counts(cl):
    s = cl.h.state.certificate_db
    return len(s.issued_certs), len(s.not_confirmed_certs), len(s.updated_certs), len(s.revoked_certs)


def check_answer(bad, where, b, e, q, r, key, cn, why):
    a = ca.abstract(r)
    good = a["body"] == ANSWER.get(e["body"]) and ca.ok(a)
    if why:
        if good:
            bad.append(f"{where}: granted, expected {why}")
        elif not set(a["fail"]) & set(why):
            bad.append(f"{where}: failInfo {sorted(a['fail'])} {a['text'][:1]}, expected one of {why}")
    elif not good:
        bad.append(f"{where}: {a['body']} {sorted(a['fail'])} {a['text'][:1]} instead of a certificate")
    else:
        c = ca.certs_of(r)[0]
        pub = keyutils.load_public_key_from_spki(c["tbsCertificate"]["subjectPublicKeyInfo"])
        if pub != key.public_key():
            bad.append(f"{where}: certificate for another key")
    h, rh = q["header"], r["header"]
    if h["transactionID"].asOctets() != rh["transactionID"].asOctets():
        bad.append(f"{where}: other transactionID")
    if not rh["recipNonce"].isValue or h["senderNonce"].asOctets() != rh["recipNonce"].asOctets():
        bad.append(f"{where}: recipNonce is not the senderNonce")
    p = X.answer_protection(b.cl, r)
    want = {"mac": "shared secret", "badmac": "shared secret"}.get(e["prot"], "CA signature")
    if e["prot"] == "none":
        if p not in ("none", "CA signature"):
            bad.append(f"{where}: answer protected with {p}")
    elif p != want:
        bad.append(f"{where}: answer protected with {p}, not {want}")


def case(x):
    c, v = x["c"], x["v"]
    cl = client()
    b = Build(cl)
    es = c["es"]
    inner = [b.entry(e) for e in es]
    m = outer(b, c, es, inner)
    before = counts(cl)
    bad = []
    try:
        resp = ca.send(cl.h, m)
    except Exception as ex:  # noqa: BLE001
        return [["the CA raised " + repr(ex)[:200]], None]
    a, after = ca.abstract(resp), counts(cl)
    if v["whole"]:
        if a["body"] == "nested" or ca.ok(a):
            bad.append("executed, should be refused as a whole")
        elif not set(a["fail"]) & set(v["whole"]):
            bad.append(f"failInfo {sorted(a['fail'])}, expected one of {v['whole']}")
        if before != after:
            bad.append(f"refused, but (issued, unconfirmed, updated, revoked) {before} -> {after}")
    elif c["kind"] == "added":
        check_answer(bad, "answer", b, es[0], inner[0], resp, b.keys[0], b.names[0], v["own"][0])
    elif a["body"] != "nested":
        bad.append(f"{a['body']} {sorted(a['fail'])} instead of a nested answer")
    elif len(resp["body"]["nested"]) != len(es):
        bad.append(f"{len(resp['body']['nested'])} answers")
    else:
        for i, (e, q, why) in enumerate(zip(es, inner, v["own"])):
            check_answer(bad, f"answer {i}", b, e, q, resp["body"]["nested"][i], b.keys[i], b.names[i], why)
        h, rh = m["header"], resp["header"]
        if h["transactionID"].asOctets() != rh["transactionID"].asOctets():
            bad.append("other transactionID")
        if not rh["recipNonce"].isValue or h["senderNonce"].asOctets() != rh["recipNonce"].asOctets():
            bad.append("recipNonce is not the senderNonce")
        p = X.answer_protection(cl, resp)
        if p != "CA signature":
            bad.append(f"nested answer protected with {p}")
    if not v["whole"]:
        n = sum(1 for w in v["own"] if not w)
        u = sum(1 for e, w in zip(es, v["own"]) if not w and e["body"] == "kur")
        if after != (before[0] + n, before[1], before[2] + u, before[3]):
            bad.append(f"(issued, unconfirmed, updated, revoked) {before} -> {after}, expected {n} new, {u} updated")
    return [bad, {"body": a["body"], "fail": sorted(a["fail"]), "text": a["text"][:1]}] if bad else []


class Enrolment:
    """An enrolment that waits for its confirmation, and that confirmation."""

    def __init__(self, b, e):
        cl = b.cl
        self.h, self.other = Holder(cl), Holder(cl)
        key = keyutils.generate_key("ec")
        m = W.enrol_msg("cr", cl.fresh(), key, e["enr"] == "mac", False)
        m = W.mac(m, password=cl.password) if e["enr"] == "mac" else self.h.sign(m)
        if e["via"] == "added":
            m = cmputils.build_nested_pkimessage(other_messages=[ca.reparse(m)], for_added_protection=True, recipient="CN=CA")
            m = W.sign(m, *ca.ra())
        self.resp = ca.send(cl.h, m)
        assert ca.ok(ca.abstract(self.resp)), ca.abstract(self.resp)
        self.cert = ca.certs_of(self.resp)[0]
        macp, what = e["prot"] in ("mac", "badmac"), e["what"]
        kw = dict(for_mac=True, sender="CN=client") if macp else dict(exclude_fields="sender,senderKID")
        if what == "badRecip":
            kw["recip_nonce"] = os.urandom(16)
        elif what == "unknownTx":
            kw["transaction_id"] = os.urandom(16)
        elif what == "badHash":
            kw["cert_hash"] = os.urandom(64)
        elif what == "badId":
            kw["cert_req_id"] = 1
        m = cmputils.build_cert_conf_from_resp(self.resp, recipient="CN=CA", **kw)
        if what == "rejected":
            m["body"]["certConf"][0]["statusInfo"]["status"] = 2
        if e["prot"] == "none":
            X._sender(m, "CN=client")
        elif macp:
            m = W.mac(m, password=cl.password)
        else:
            m = (self.other if e["prot"] == "sig2" else self.h).sign(m)
        if e["prot"].startswith("bad"):
            v = bytearray(m["protection"].asOctets())
            v[-1] ^= 1
            ca.set_protection(m, bytes(v))
        self.msg = ca.reparse(m)
        if what == "twice":
            r = ca.send(cl.h, self.msg)
            assert ca.ok(ca.abstract(r)), ca.abstract(r)

    def confirmed(self, cl):
        n = int(self.cert["tbsCertificate"]["serialNumber"])
        return any(int(c["tbsCertificate"]["serialNumber"]) == n for c in cl.h.state.issued_certs)


def conf_case(x):
    c, v = x["c"], x["v"]
    cl = client()
    b = Build(cl)
    ens = [None if "request" in e else Enrolment(b, e) for e in c["es"]]
    inner = [en.msg if en else b.entry(dict(body="cr", prot="mac", who="good", need="new")) for en in ens]
    m = cmputils.build_nested_pkimessage(other_messages=inner, for_added_protection=c["kind"] == "added", recipient="CN=CA")
    m = W.sign(m, *ca.ra())
    before = counts(cl)
    try:
        resp = ca.send(cl.h, m)
    except Exception as ex:  # noqa: BLE001
        return [["the CA raised " + repr(ex)[:200]], None]
    a, after, bad = ca.abstract(resp), counts(cl), []
    rs = resp["body"]["nested"] if a["body"] == "nested" else [resp]
    if v["whole"]:
        if a["body"] == "nested" or ca.ok(a):
            bad.append("executed, should be refused as a whole")
        elif not set(a["fail"]) & set(v["whole"]):
            bad.append(f"failInfo {sorted(a['fail'])}, expected one of {v['whole']}")
        if before != after:
            bad.append(f"refused, but (issued, unconfirmed, updated, revoked) {before} -> {after}")
    elif len(rs) != len(ens) or (c["kind"] == "batch") != (a["body"] == "nested"):
        bad.append(f"{a['body']} {sorted(a['fail'])} {a['text'][:1]} with {len(rs)} answers")
    else:
        for i, (e, q, why) in enumerate(zip(c["es"], inner, v["own"])):
            ra = ca.abstract(rs[i])
            if bool(why) == (ra["body"] == "pkiconf"):
                bad.append(f"answer {i}: {ra['body']}, expected {why or 'pkiconf'}")
            elif why and not set(why) & set(ra["fail"]):
                bad.append(f"answer {i}: {sorted(ra['fail'])} {ra['text'][:1]}, expected one of {why}")
            if q["header"]["transactionID"].asOctets() != rs[i]["header"]["transactionID"].asOctets():
                bad.append(f"answer {i}: other transactionID")
    for i, en in enumerate(ens):
        want = (i + 1) in v["confirmed"] or c["es"][i].get("what") == "twice"
        if en and en.confirmed(cl) != want:
            bad.append(f"certificate {i} {'not ' if want else ''}confirmed")
    return [bad, {"body": a["body"], "fail": sorted(a["fail"]), "text": a["text"][:1]}] if bad else []


def main(tier, args):
    rep = Report("P09", tier)
    lst = T.cases(rep, "Nested", {}, ["OnlyRA", "AllOrNothing", "NoDeadSigner", "OneKey", "RaVerified", "NoUpdatedSigner"])
    client(), ca.ra()
    rep.add(cases_specified=len(lst))
    few = lambda x: len(x["c"]["es"]) < 2 or x["c"]["defect"] != "none" or x["c"]["signer"] != "ra"  # noqa: E731
    lst = T.sample(lst, few, 350 if tier == "quick" else 5000)
    T.run(rep, "nested", lst, case)
    lst = T.cases(rep, "NestedConf", {}, ["OwnerOnly", "AllOrNothing"])
    if tier == "quick":
        lst = T.sample(lst, lambda x: len(x["c"]["es"]) < 2, 120)
    T.run(rep, "nested-conf", lst, conf_case)
    return rep.finish()
