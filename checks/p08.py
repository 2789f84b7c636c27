"""P08: a challenge is answered once, in its transaction, by the holder of the key."""
import random

from cryptography.hazmat.primitives.asymmetric import ec

from harness import ca, exchange as X, replay, tlc, wenv
from harness import world as W
from harness.report import Report
from resources import certutils, cmputils, extra_issuing_logic, keyutils

from . import lifecycle as L, table as T

PW = "SiemensIT-Secret"
KINDS = {"ec": False, "x25519": False, "x448": False, "rsa": True, "ml-kem-512": True, "ml-kem-768": True, "ml-kem-1024": True}


def ask_msg(k, cn, body, prot, impl, tx=None, pvno=2, kem=False):
    popo = cmputils.prepare_popo_challenge_for_non_signing_key(use_encr_cert=False, use_key_enc=kem)
    kw = dict(for_mac=True, sender="CN=client") if prot == "mac" else dict(exclude_fields="sender,senderKID")
    if tx:
        kw["transaction_id"] = tx
    f = cmputils.build_ir_from_key if body == "ir" else cmputils.build_cr_from_key
    return f(k, popo=popo, common_name=cn, pvno=pvno, recipient="CN=CA", implicit_confirm=impl, **kw)


def answer_msg(resp, k, tx=None):
    """The client's answer; the key agreement certificate is the one of the key's kind."""
    kari = None
    for c in resp["extraCerts"][:2]:
        pub = certutils.load_public_key_from_cert(c)
        if type(pub) is type(k.public_key()):
            kari = c
    m = extra_issuing_logic.process_pkimessage_with_popdecc(resp, ee_key=k, kari_cert=kari)
    if tx:
        X._octets(m, "transactionID", tx, 4)
    return m


def set_numbers(m, nums):
    body = m["body"]["popdecr"]
    body.clear()
    for n in nums:
        body.append(n)
    return m


class ChallengeWorld:
    password = PW

    def __init__(self):
        self.h = ca.new_handler(pre_shared_secret=PW.encode())
        self.keys = {i: W.key(f"chal{i}") for i in (1, 2)}
        self.holder_key = W.key("chal-holder")
        self.holder = ca.certs_of(self._ok(self.enrol("CN=Holder", self.holder_key)))[0]
        self.tx = {1: b"\x01" * 16, 2: b"\x02" * 16}
        self.ch = []
        self.plain = {}

    def enrol(self, cn, k):
        return ca.send(self.h, W.mac(W.enrol_msg("cr", cn, k, True, True), password=PW))

    def _ok(self, r):
        assert ca.ok(ca.abstract(r)), ca.abstract(r)
        return r

    def protect(self, m, prot):
        return W.mac(m, password=PW) if prot == "mac" else W.sign(m, self.holder_key, self.holder)

    def _send(self, m):
        try:
            r = ca.send(self.h, m)
        except Exception as e:  # noqa: BLE001
            return None, {"ok": False, "fail": [], "body": "exception:" + type(e).__name__, "text": [str(e)[:200]]}
        a = ca.abstract(r)
        return r, {"ok": ca.ok(a), "fail": sorted(a["fail"]), "body": a["body"], "text": a["text"][:1]}

    def do(self, a):
        return getattr(self, "do_" + a["op"])(a)

    def do_ask(self, a):
        p = a["p"]
        m = ask_msg(self.keys[a["key"]], "CN=Challenged", p["body"], p["prot"], p["impl"], self.tx[a["tx"]])
        r, rep = self._send(self.protect(m, p["prot"]))
        if rep["ok"] and rep["body"] == "popdecc":
            self.ch.append(dict(resp=r, key=self.keys[a["key"]], p=p, tx=a["tx"]))
        elif rep["ok"]:
            rep["ok"] = False
        return rep

    def do_answer(self, a):
        c = self.ch[a["i"] - 1]
        m = answer_msg(c["resp"], c["key"], self.tx[a["tx"]])
        n = int(m["body"]["popdecr"][0])
        how = a["how"]
        if how == "wrong":
            set_numbers(m, [n ^ 1])
        elif how == "twice":
            set_numbers(m, [n, n])
        elif how == "none":
            set_numbers(m, [])
        m = self.protect(m, c["p"]["prot"])
        if how == "badProt":
            v = bytearray(m["protection"].asOctets())
            v[-1] ^= 1
            ca.set_protection(m, bytes(v))
        r, rep = self._send(m)
        if rep["ok"] and r is not None:
            want = "ip" if c["p"]["body"] == "ir" else "cp"
            if rep["body"] != want:
                rep["wrong"] = f"answered with {rep['body']}"
                return rep
            c["cert"], c["ip"] = ca.certs_of(r)[0], r
            pub = certutils.load_public_key_from_cert(c["cert"])
            if pub != c["key"].public_key():
                rep["wrong"] = "certificate for another key"
            f = X.answer_facts(self, m, r, None)
            bad = [x for x in ("tx", "recip", "nonce", "recipient") if not f[x]]
            if bad or f["prot"] != {"mac": "shared secret", "sig": "CA signature"}[c["p"]["prot"]]:
                rep["wrong"] = f"header {bad} or protection {f['prot']}"
            if W.header_implicit(r) != c["p"]["impl"]:
                rep["wrong"] = "implicitConfirm of the answer"
        return rep

    def do_confirm(self, a):
        c = self.ch[a["i"] - 1]
        macp = c["p"]["prot"] == "mac"
        kw = dict(for_mac=True, sender="CN=client") if macp else dict(exclude_fields="sender,senderKID")
        m = cmputils.build_cert_conf_from_resp(c["ip"], recipient="CN=CA", **kw)
        return self._send(self.protect(m, c["p"]["prot"]))[1]

    def do_plain(self, a):
        k = self.keys[a["key"]]
        r, rep = self._send(W.mac(W.enrol_msg("ir", "CN=Challenged", k, True, True), password=PW))
        if rep["ok"]:
            self.plain[a["key"]] = ca.certs_of(r)[0]
        return rep

    def _revoke(self, cert, reason, k=None, c=None):
        m = cmputils.build_cmp_revoke_request(cert=cert, reason=reason, recipient="CN=CA", exclude_fields="sender,senderKID")
        return self._send(W.sign(m, *((k, c) if k else ca.ra())))[1]

    def do_compromise(self, a):
        return self._revoke(self.plain[a["key"]], "keyCompromise")

    def do_revoke(self, a):
        return self._revoke(self.ch[a["i"] - 1]["cert"], "superseded")

    def do_revokeHolder(self, a):
        return self._revoke(self.holder, "superseded", self.holder_key, self.holder)

    def label(self, e):
        a = e["a"]
        return f"{a['op']}:{a.get('how', '')}:{'ok' if e['r']['ok'] else 'no'}"

    def compare(self, e, got):
        r, bad = e["r"], []
        if got["ok"] != r["ok"]:
            bad.append(f"{'accepted' if got['ok'] else 'refused'}: {got}")
        elif not r["ok"] and not set(r["fail"]) & set(got["fail"]):
            bad.append(f"refused with {got['fail']} {got['text']}, should be {r['fail']}")
        if got.get("wrong"):
            bad.append(got["wrong"])
        want = {"C": 0, "NC": 0}
        n = 0
        for i, c in enumerate(e["t"]["ch"]):
            if c["st"] == "open":
                continue
            n += 1
            cert = self.ch[i].get("cert") if i < len(self.ch) else None
            if cert is None:
                bad.append(f"challenge {i + 1} got no certificate")
                continue
            st = W.STATE_NAMES[self.h.state.certificate_db.get_cert_state(cert).name]
            if st != {"gone": "REV"}.get(c["st"], c["st"]):
                bad.append(f"certificate of challenge {i + 1} is {st}, should be {c['st']}")
        n += 1 + len(self.plain)
        s = self.h.state.certificate_db
        if len(s.issued_certs) + len(s.not_confirmed_certs) != n:
            bad.append(f"{len(s.issued_certs)}+{len(s.not_confirmed_certs)} certificates known, {n} issued")
        return bad


_C = []


def client():
    if not _C:
        w = ChallengeWorld()
        _C.append(w)
        w.names = X.Client(())
        w.pool = {}
    return _C[0]


def kind_case(x):
    """One challenge, answered with another key, then with the right one, then again."""
    c, w = x["c"], client()
    w.h.challenge_handler.challenge.clear()
    kem = c["popo"] == "encipher"
    bad = []
    if c["waiting"]:
        k = keyutils.generate_key("x25519")
        r, rep = w._send(w.protect(ask_msg(k, w.names.fresh(), "ir", "sig", False), "sig"))
        assert rep["body"] == "popdecc", rep
    n = w.pool[c["key"]] = w.pool.get(c["key"], 0) + 1
    k, other = (keyutils.generate_key(c["key"]) for _ in range(2)) if c["key"] != "rsa" else rsa_keys(w)
    cn = w.names.fresh()
    m = ask_msg(k, cn, c["body"], c["prot"], True, pvno=c["pvno"], kem=kem)
    reqs = m["body"][c["body"]]
    if c["id"]:
        reqs[0]["certReq"]["certReqId"] = c["id"]
    if c["entries"] == 2:
        m2 = ask_msg(other, w.names.fresh(), c["body"], c["prot"], True, pvno=c["pvno"], kem=kem)
        m2["body"][c["body"]][0]["certReq"]["certReqId"] = 1
        reqs.append(m2["body"][c["body"]][0])
    m = w.protect(m, c["prot"])
    if not c["protOk"]:
        v = bytearray(m["protection"].asOctets())
        v[-1] ^= 1
        ca.set_protection(m, bytes(v))
    def number():
        again = w._send(m)[0]
        return {"n": int(answer_msg(again, k)["body"]["popdecr"][0])}

    from . import p17
    before = {} if x["fail"] else p17.in_child(number)
    r, rep = w._send(m)
    if x["fail"]:
        if rep["ok"]:
            bad.append(f"got {rep['body']}, expected {x['fail']}")
        elif not set(rep["fail"]) & set(x["fail"]):
            bad.append(f"{rep['fail']} {rep['text']}, expected {x['fail']}")
        return [bad, rep]
    if rep["body"] != "popdecc":
        return [[f"no challenge: {rep}"], None]
    f = X.answer_facts(w, m, r, None)
    bad += [f"header: {y}" for y in ("tx", "recip", "nonce", "recipient") if not f[y]]
    if f["prot"] != {"mac": "shared secret", "sig": "CA signature"}[c["prot"]]:
        bad.append(f"challenge protected with {f['prot']}")
    e = r["body"]["popdecc"][0]
    if e["encryptedRand"].isValue != (c["pvno"] == 3) or len(r["body"]["popdecc"]) != 1:
        bad.append(f"wrong form of the challenge")
    right = answer_msg(r, k)
    if before.get("n") == int(right["body"]["popdecr"][0]):
        bad.append("whoever knows the request knows the number")
    try:
        wrong = int(answer_msg(r, other)["body"]["popdecr"][0])
    except Exception:  # noqa: BLE001 - another key decrypts nothing
        wrong = None
    if wrong == int(right["body"]["popdecr"][0]):
        bad.append("another key decrypts the challenge")
    want = "ip" if c["body"] == "ir" else "cp"
    r, rep = w._send(w.protect(right, c["prot"]))
    if not (rep["ok"] and rep["body"] == want):
        bad.append(f"the right answer got {rep}")
    else:
        cert = ca.certs_of(r)[0]
        if certutils.load_public_key_from_cert(cert) != k.public_key():
            bad.append("certificate for another key")
        if w.h.state.certificate_db.get_cert_state(cert).name != "CONFIRMED":
            bad.append("certificate not known as confirmed")
    r, rep = w._send(w.protect(right, c["prot"]))
    if rep["ok"]:
        bad.append("the same answer got another certificate")
    return [bad, rep]


_RSA = []


def rsa_keys(w):
    while len(_RSA) < 2:
        _RSA.append(keyutils.generate_key("rsa", length=2048))
    return _RSA


def edge_class(e, coarse=False):
    a, f = e["a"], e["f"]
    c = f["ch"][a["i"] - 1] if "i" in a else None
    k = a.get("key") or (c and c["key"])
    gates = (f["keyst"][str(k)] if isinstance(f["keyst"], dict) else f["keyst"][k - 1]) if k else None
    others = [x for j, x in enumerate(f["ch"]) if j + 1 != a.get("i")]
    t = a.get("tx")
    if coarse:
        return (a["op"], a.get("how"), (a.get("p") or {}).get("prot"), c and c["st"], c and "tx" in a and c["tx"] == t, gates,
                f["holder"], any(x["key"] == k and x["st"] != "open" for x in others), e["r"]["ok"])
    return (a["op"], a.get("how"), (a.get("p") or {}).get("body"), (a.get("p") or {}).get("prot"), c and c["st"],
            c and "tx" in a and c["tx"] == t, gates, f["holder"],
            any(x["key"] == k and x["st"] != "open" for x in others), any(x["key"] == k and x["st"] == "open" for x in others),
            any(x["tx"] == (t or (c or {}).get("tx")) and x["st"] != "open" for x in others), bool(others), e["r"]["ok"])


def go(rep, name, n, per, deadline, coarse):
    res = tlc.run("ChallengeResp", dict(N=n, Emit=True), view="View", invariants=["TypeOK", "OnePerKey", "NeverTwice"],
                  properties=["OnlyRight", "Unconfirmed", "LiveRequester"], action_constraints=["EmitEdge"])
    g = replay.Graph(res.edges, dict(ch=[], keyst=["free", "free"], holder="good"))
    items = [it for s in sorted(g.out) for it in g.out[s]]
    random.Random(wenv.SEED).shuffle(items)
    cnt, keep = {}, set()
    for e, f, t in items:
        cl = edge_class(e, coarse)
        if per is None or cnt.get(cl, 0) < per:
            cnt[cl] = cnt.get(cl, 0) + 1
            keep.add(id(e))
    rep.add(states=res.states, transitions=res.generated, graph_transitions=g.n_edges, classes=len(cnt))
    L.run(rep, name, g, ChallengeWorld, lambda e: id(e) in keep, deadline)


def main(tier, args):
    rep = Report("P08", tier)
    go(rep, "challenges", 2, 1 if tier == "quick" else 4, 800, tier == "quick")
    lst = T.cases(rep, "ChallengeKinds", dict(Agree=frozenset(k for k, v in KINDS.items() if not v),
                                              Encipher=frozenset(k for k, v in KINDS.items() if v)), ["OtherWaiting"])
    if tier == "quick":
        lst = T.sample(lst, lambda x: not x["fail"], 60)
    client(), rsa_keys(None)
    T.run(rep, "kinds", lst, kind_case)
    return rep.finish()
