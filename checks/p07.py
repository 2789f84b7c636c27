"""P07: KEM established shared secrets (spec/KemSession.tla)."""
import os
import random

from harness import ca, exchange as X, replay, tlc, wenv
from harness.report import Report
from harness import world as W
from resources import certbuildutils, cmputils, general_msg_utils, keyutils, protectionutils
from resources.suiteenums import ProtectedType
from resources.extra_issuing_logic import get_enc_cert_from_pkimessage

from . import lifecycle as L

PROPS = ["SingleUse", "StaysUsed", "OnlyGood", "Bound", "Authentic", "AuthenticConf", "OnlyOwner"]


class KemWorld:
    """One CA, clients with KEM certificates."""

    def __init__(self, n, good, bad, algs):
        self.n = n
        self.h = ca.new_handler()
        self.key, self.cert = {}, {}
        cac, cak = ca.ca_cert_and_key()
        for i, c in enumerate(sorted(good) + sorted(bad)):
            alg = algs[i % len(algs)]
            k = keyutils.generate_key(alg)
            cn = f"CN=Kem {c}"
            if c == "foreign":
                fk = keyutils.generate_key("ec")
                fca = certbuildutils.build_certificate(private_key=fk, subject="CN=Foreign", is_ca=True)[0]
                cert = certbuildutils.build_certificate(ca_cert=fca, ca_key=fk, private_key=k, subject=cn)[0]
            elif c == "namesake":                       # issuer name of the CA, another key
                cert = certbuildutils.build_certificate(ca_cert=cac, ca_key=keyutils.generate_key("ed25519"),
                                                        private_key=k, subject=cn)[0]
            elif c == "selfsigned":
                cert = certbuildutils.build_certificate(ca_key=cak, private_key=k, subject=cn)[0]
            else:
                cert = self._enrol(k, cn, c != "unconfirmed")
            self.key[c], self.cert[c] = k, cert
        self.tx = {s: os.urandom(16) for s in range(1, n + 1)}
        self.ss, self.resp, self.ses = {}, {}, {}
        self.m = 0

    def _enrol(self, k, cn, confirm):
        r = ca.send(self.h, W.mac(W.enrol_msg("ir", cn, k, True, True, pvno=3, sender=cn)))
        if ca.plain_certs(r):       # a signature key: proof by signature, confirmed implicitly
            return ca.certs_of(r)[0]
        cert = get_enc_cert_from_pkimessage(r, ee_private_key=k, exclude_rid_check=True, expected_recip_type="kemri")
        if confirm:
            h = r["header"]
            cc = cmputils.build_cert_conf(cert=cert, hash_alg="sha512", transaction_id=h["transactionID"].asOctets(),
                                          recip_nonce=h["senderNonce"].asOctets(), recip_kid=h["senderKID"].asOctets(),
                                          sender=cn, recipient="CN=CA", for_mac=True)
            a = ca.abstract(ca.send(self.h, W.mac(cc)))
            assert a["body"] == "pkiconf", a
        return cert

    def _send(self, m):
        try:
            resp = ca.send(self.h, m)
        except Exception as e:  # noqa: BLE001
            return None, {"body": "exception:" + type(e).__name__, "status": ["x"], "fail": frozenset(), "text": [str(e)[:200]]}
        return resp, ca.abstract(resp)

    def _reply(self, a):
        return {"ok": not a["body"].startswith("exc") and ca.ok(a), "fail": sorted(a["fail"]), "body": a["body"],
                "text": a["text"][:1]}

    def do(self, a):
        return getattr(self, "do_" + a["op"])(a)

    def do_establish(self, a):
        s, c = a["s"], a["c"]
        m = general_msg_utils.build_cmp_general_message(add_messages="kem_ct_info", sender=f"CN=Kem {c}",
                                                        recipient="CN=CA", transaction_id=self.tx[s])
        resp, ab = self._send(cmputils.patch_extra_certs(m, certs=[self.cert[c]]))
        rep = self._reply(ab)
        if rep["ok"] and s not in self.ss:
            self.ss[s] = general_msg_utils.validate_genp_kem_ct_info(resp, client_private_key=self.key[c])
            self.ses[s] = c
        return rep

    def secret(self, s, sec):
        if sec == "own":
            return self.ss.get(s) or b"\x05" * 32
        if sec == "other":
            return self.ss[1 if s != 1 else 2]
        return b"\x07" * 32

    def protect(self, m, s, sec, ex):
        if ex != "none":
            c = self.ses[s] if ex == "own" else min(x for x in ("A", "B") if x != self.ses[s])
            m = cmputils.patch_extra_certs(m, certs=[self.cert[c]])
        if sec == "password":
            return W.mac(m)
        return protectionutils.protect_pkimessage_kem_based_mac(m, shared_secret=self.secret(s, sec))

    def do_use(self, a):
        s, body = a["s"], a["body"]
        c = self.ses.get(s)
        name = f"CN=Kem {c or 'A'}"
        tx = dict(transaction_id=self.tx[s], sender=name, recipient="CN=CA")
        if body in ("ir", "cr", "p10cr"):
            self.m += 1
            m = W.enrol_msg(body, f"CN=New {os.getpid()}-{self.m}", keyutils.generate_key("ec"), True, a["impl"], **tx)
        elif body == "kur":
            m = W.enrol_msg(body, name, keyutils.generate_key("ec"), True, a["impl"], exclude_fields=None, **tx)
        elif body == "rr":
            m = cmputils.build_cmp_revoke_request(cert=self.cert[c], reason="superseded", for_mac=True,
                                                  exclude_fields=None, **tx)
        else:
            m = general_msg_utils.build_cmp_general_message(add_messages="current_crl", **tx)
            X._sender(m, name)
            X._octets(m, "senderKID", name.encode(), 2)
        before = len(self.h.state.certificate_db.issued_certs)
        resp, ab = self._send(self.protect(m, s, a["sec"], a["ex"]))
        rep = self._reply(ab)
        if rep["ok"] and not a["impl"]:
            self.resp[s] = resp
        rep["answer"] = self.answer(resp, s) if rep["ok"] else None
        rep["issued"] = len(self.h.state.certificate_db.issued_certs) - before
        return rep

    def answer(self, resp, s):
        """Is the answer protected with the secret of the session?"""
        if ProtectedType.get_protection_type(resp) != ProtectedType.KEM:
            return "not KEM based"
        try:
            protectionutils.verify_kem_based_mac_protection(resp, shared_secret=self.ss[s])
        except Exception as e:  # noqa: BLE001
            return "does not verify: " + repr(e)[:80]
        return "ok"

    def do_conf(self, a):
        s = a["s"]
        m = cmputils.build_cert_conf_from_resp(self.resp[s], sender=f"CN=Kem {self.ses[s]}", for_mac=True)
        resp, ab = self._send(self.protect(m, s, a["sec"], a["ex"]))
        rep = self._reply(ab)
        rep["ok"] = ab["body"] == "pkiconf"
        rep["issued"] = 0
        return rep

    def do_revoke(self, a):
        m = cmputils.build_cmp_revoke_request(cert=self.cert[a["c"]], reason="superseded",
                                              exclude_fields="sender,senderKID")
        _, ab = self._send(W.sign(m, *ca.ra()))
        return self._reply(ab)

    def label(self, e):
        a = e["a"]
        return f"{a['op']}:{a.get('body', a.get('c', ''))}:{'ok' if e['r']['ok'] else 'no'}"

    def compare(self, e, got):
        a, r, bad = e["a"], e["r"], []
        if got["ok"] != r["ok"]:
            bad.append(f"{'accepted' if got['ok'] else 'refused'}: {got}")
        elif not r["ok"] and (not got["fail"] or not set(got["fail"]) <= set(r["fail"])):
            bad.append(f"refused with {got['fail']}, should be one of {r['fail']}")
        if got["ok"] and got.get("answer") not in (None, "ok"):
            bad.append("the answer is " + got["answer"])
        if a["op"] == "use" and not r["ok"] and got["issued"] != 0:
            bad.append("a refused request had an effect")
        db = self.h.state.certificate_db
        for c, w in e["t"]["st"].items():
            st = W.STATE_NAMES[db.get_cert_state(self.cert[c]).name]
            if st != w:
                bad.append(f"certificate {c} is {st}, should be {w}")
        return bad


def edge_class(e):
    a, f = e["a"], e["f"]
    s = a.get("s")
    if s is None:
        return a["op"], a["c"], tuple(sorted(f["ses"]))
    c = f["ses"][s - 1]
    o = [f["ses"][i] for i in range(len(f["ses"])) if i != s - 1]
    return (a["op"], a.get("body"), a.get("sec"), a.get("ex"), a.get("impl"), a.get("c") if a["op"] == "establish" else None,
            f["st"].get(c), f["used"][s - 1], f["open"][s - 1], o == ["none"], tuple(sorted(f["st"].values())) if a.get("ex") == "other" else None)


def go(rep, name, n, bodies, secrets, extras, bad, algs, per, deadline):
    c = dict(S=n, Good=frozenset("AB"), Bad=frozenset(bad), Bodies=frozenset(bodies), Secrets=frozenset(secrets),
             Extras=frozenset(extras), Emit=True)
    res = tlc.run("KemSession", c, view="View", invariants=["TypeOK"], properties=PROPS, action_constraints=["EmitEdge"])
    init = dict(st=dict(A="C", B="C"), ses=["none"] * n, used=[False] * n, open=["no"] * n)
    g = replay.Graph(res.edges, init)
    items = [it for s in sorted(g.out) for it in g.out[s]]
    random.Random(wenv.SEED).shuffle(items)
    cnt, keep = {}, set()
    for e, f, t in items:
        cl = edge_class(e)
        if per is None or cnt.get(cl, 0) < per:
            cnt[cl] = cnt.get(cl, 0) + 1
            keep.add(id(e))
    rep.add(states=res.states, transitions=res.generated, graph_transitions=g.n_edges, classes=len(cnt))
    L.run(rep, name, g, lambda: KemWorld(n, "AB", bad, algs), lambda e: id(e) in keep, deadline)


def main(tier, args):
    rep = Report("P07", tier)
    bodies = {"ir", "cr", "p10cr", "kur", "rr", "genm"}
    bad = {"unconfirmed", "foreign", "selfsigned", "namesake"}
    if tier == "quick":
        go(rep, "sessions", 2, bodies, {"own", "other", "wrong"}, {"none", "own", "other"}, bad,
           ["ml-kem-512", "ml-kem-768"], 1, 500)
    else:
        go(rep, "sessions", 2, bodies, {"own", "other", "wrong", "password"}, {"none", "own", "other"}, bad,
           ["composite-kem", "frodokem-640-aes"], 12, 1500)
    return rep.finish()
