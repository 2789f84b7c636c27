"""P10: the indices of stateful hash-based signatures (spec/StatefulSig.tla)."""
import os
import random

from pyasn1_alt_modules import rfc9480

from harness import ca, exchange as X, replay, tlc, wenv
from harness import world as W
from harness.report import Report
from pq_logic.keys.stateful_sig_keys import HSSPrivateKey
from resources import certbuildutils, cmputils, keyutils

from . import lifecycle as L

PROPS = ["NoReuse", "Remembers", "Burnt", "RefusedInert"]
BODIES = {"ir", "cr", "p10cr", "cr-open", "certConf", "kur", "rr", "genm", "nested", "batch"}


class StatefulWorld:
    def __init__(self, n, alg):
        self.cl = X.Client(("sig-ec",))
        self.h = self.cl.h
        k = keyutils.generate_key(**alg)
        self.pub = k.public_key()
        self.raw = []                       # raw[i - 1]: the key that signs with index i
        for _ in range(n):
            self.raw.append(k.private_bytes_raw())
            k.sign(b"next")
        self.cert = {"A": self.cl.enrol(self.key(1), "CN=Holder A")}
        self.xkey = keyutils.generate_key(**alg)
        c, cak = ca.ca_cert_and_key()
        self.cert["X"] = certbuildutils.build_certificate(ca_cert=c, ca_key=cak, private_key=self.xkey,
                                                          subject="CN=Holder X")[0]
        self.open_resp = self.pend = None
        self.m = 0

    def key(self, i):
        return HSSPrivateKey.from_private_bytes(self.raw[i - 1])

    def _send(self, m):
        try:
            resp = ca.send(self.h, m)
        except Exception as e:  # noqa: BLE001
            return None, {"body": "exception:" + type(e).__name__, "status": ["x"], "fail": frozenset(), "text": [str(e)[:200]]}
        return resp, ca.abstract(resp)

    def _reply(self, resp, a):
        if a["body"] == "nested":           # a batch: the first message is the one looked at, the second always works
            inner = [ca.abstract(x) for x in resp["body"]["nested"]]
            if not ca.ok(inner[1]):
                return {"ok": None, "fail": [], "body": "the other message of the batch failed", "text": inner[1]["text"][:1]}
            a = inner[0]
        return {"ok": not a["body"].startswith("exc") and ca.ok(a), "fail": sorted(a["fail"]), "body": a["body"],
                "text": a["text"][:1]}

    def _counts(self):
        db = self.h.state.certificate_db
        return [len(db.issued_certs), len(db.not_confirmed_certs), len(db.revoked_certs)]

    def do(self, a):
        return getattr(self, "do_" + a["op"])(a)

    def do_sign(self, a):
        c, body = a["c"], a["body"]
        k = self.xkey if c == "X" else self.key(a["i"])
        cl, name = self.cl, f"CN=Holder {c}"
        inner = {"nested": "cr", "batch": "ir", "cr-open": "cr"}.get(body, body)
        if body == "certConf":
            m = cmputils.build_cert_conf_from_resp(self.open_resp, exclude_fields="sender,senderKID", recipient="CN=CA")
        elif inner in ("ir", "cr", "p10cr"):
            self.m += 1
            m = W.enrol_msg(inner, f"CN=New {os.getpid()}-{self.m}", keyutils.generate_key("ec"), False, body != "cr-open")
        elif inner == "kur":
            m = W.enrol_msg("kur", name, keyutils.generate_key("ec"), False, True)
        elif inner == "rr":
            m = cmputils.build_cmp_revoke_request(cert=self.cert[c], reason="superseded", recipient="CN=CA",
                                                  exclude_fields="sender,senderKID")
        else:
            m = cl.body("genm", "sig-ec")
        m = W.sign(m, k, self.cert[c])
        if a["sig"] != "good":
            s = bytearray(m["protection"].asOctets())
            if a["sig"] == "bad":
                s[-1] ^= 1
            else:
                s = s[:7]
            ca.set_protection(m, bytes(s))
        m = ca.reparse(m)
        if body == "nested":
            m = cmputils.build_nested_pkimessage(other_messages=[m], for_added_protection=True, recipient="CN=CA")
            m = W.sign(m, *ca.ra())
        elif body == "batch":
            other = ca.reparse(cl.message("cr", "sig-ec"))
            m = cmputils.build_nested_pkimessage(other_messages=[m, other], recipient="CN=CA")
            m = W.sign(m, *ca.ra())
        before = self._counts()
        resp, ab = self._send(m)
        rep = self._reply(resp, ab)
        rep["moved"] = before != self._counts()
        if body == "cr-open" and rep["ok"]:
            self.open_resp = resp
        return rep

    def do_enrol(self, a):
        k = self.key(a["i"])
        before = self._counts()
        resp, ab = self._send(W.mac(W.enrol_msg(a["body"], "CN=Holder B", k, True, a["impl"]), password=self.cl.password))
        rep = self._reply(resp, ab)
        rep["moved"] = before != self._counts()
        if rep["ok"]:
            self.cert["B"] = ca.certs_of(resp)[0]
            self.pend = resp
        return rep

    def do_confirm(self, a):
        m = cmputils.build_cert_conf_from_resp(self.pend, for_mac=True, sender="CN=client", recipient="CN=CA")
        resp, ab = self._send(W.mac(m, password=self.cl.password))
        rep = self._reply(resp, ab)
        rep["moved"] = True
        return rep

    def label(self, e):
        a = e["a"]
        return f"{a['op']}:{a.get('body', '')}:{'ok' if e['r']['ok'] else 'no'}"

    def compare(self, e, got):
        a, r, bad = e["a"], e["r"], []
        if got["ok"] != r["ok"]:
            bad.append(f"{'accepted' if got['ok'] else 'refused'}: {got}")
        elif not r["ok"]:
            if not set(r["fail"]) & set(got["fail"]):
                bad.append(f"refused with {got['fail']}, should be {r['fail']}")
            if got["moved"]:
                bad.append("a refused request had an effect")
        return bad


def edge_class(e):
    a, f = e["a"], e["f"]
    i, h = a.get("i"), f["hist"]
    return (a["op"], a.get("c"), a.get("body"), a.get("sig"), a.get("impl"), h[i - 1] if i and i <= len(h) else "fresh",
            a.get("c") == "A" and f["b"] == "good")


def go(rep, name, n, bodies, alg, per, deadline, track=False):
    c = dict(N=n, Bodies=frozenset(bodies), Track=track, Emit=True)
    res = tlc.run("StatefulSig", c, view="View", invariants=["TypeOK"], properties=PROPS, action_constraints=["EmitEdge"])
    init = dict(hist=["popo"], a="good", b="none", open=False)
    g = replay.Graph(res.edges, init)
    items = [it for s in sorted(g.out) for it in g.out[s]]
    random.Random(wenv.SEED).shuffle(items)
    cnt, keep = {}, set()
    for e, f, t in items:
        cl = edge_class(e)
        if per is None or cnt.get(cl, 0) < per:
            cnt[cl] = cnt.get(cl, 0) + 1
            keep.add(id(e))
    rep.add(states=res.states, transitions=res.generated, graph_transitions=g.n_edges, classes=len(cnt))
    L.run(rep, name, g, lambda: StatefulWorld(n, alg), lambda e: id(e) in keep, deadline)


def main(tier, args):
    rep = Report("P10", tier)
    go(rep, "reuse", 3, BODIES, dict(algorithm="hss_lms_sha256_m32_h5_lmots_sha256_n32_w4"), 1 if tier == "quick" else 3, 200, True)
    if tier == "quick":
        go(rep, "indices", 4, BODIES, dict(algorithm="hss_lms_sha256_m32_h5_lmots_sha256_n32_w4"), 1, 500)
    else:
        go(rep, "indices", 5, BODIES, dict(algorithm="hss"), 8, 1200)
        go(rep, "two-levels", 4, BODIES, dict(algorithm="hss", levels=2), 2, 600)
    return rep.finish()
