"""P05: a public key is certified at most once per subject, and never while it is compromised."""
import os
import random

from pyasn1.type import char, univ
from pyasn1_alt_modules import rfc4211, rfc9480

from harness import ca, replay, tlc, wenv
from harness.report import Report
from harness import world as W
from resources import cmputils, keyutils

from . import lifecycle as L

SUBJ = {"a": "CN=Verif Alice", "b": "CN=Verif Bob,O=B"}


def keys(names):
    W.key("T1"), W.key("T2")
    out = {"T1": W.key("T1"), "T2": W.key("T2")}
    if any(n not in out for n in names):
        q = W.key("Q1", "ml-dsa-44")
        out["Q1"] = q
        for h, t in (("H1", "T1"), ("H2", "T2")):
            if h in names:
                if h not in W._KEYS:
                    W._KEYS[h] = keyutils.generate_key("composite-sig", pq_key=q, trad_key=out[t])
                out[h] = W._KEYS[h]
    return out


class KeyWorld:
    def __init__(self, names):
        self.h = ca.new_handler()
        self.keys = keys(names)
        self.certs = []

    def _send(self, m):
        try:
            resp = ca.send(self.h, m)
            return resp, ca.abstract(resp)
        except Exception as e:  # noqa: BLE001
            return None, {"body": "exception:" + type(e).__name__, "status": ["x"], "fail": frozenset(), "text": [str(e)[:200]]}

    def request(self, kind, subject, key, impl):
        if kind in ("ir", "cr", "p10cr"):
            return W.enrol_msg(kind, subject, key, True, impl)
        # the request names somebody else; an RA's request in its regInfo names the subject
        entry = rfc4211.CertReqMsg()
        entry["certReq"] = cmputils.prepare_cert_request(key, f"CN=Nobody {len(self.certs)} {os.urandom(4).hex()}")
        entry["popo"] = cmputils.prepare_signature_popo(key, entry["certReq"])
        alt = rfc4211.AttributeTypeAndValue()
        alt["type"] = rfc4211.id_regInfo_certReq
        alt["value"] = cmputils.prepare_cert_request(key, subject)
        entry["regInfo"].append(alt)
        f = cmputils.build_ir_from_key if kind == "irAlt" else cmputils.build_cr_from_key
        return f(key, cert_req_msg=[entry], implicit_confirm=impl, for_mac=True, sender="CN=client", recipient="CN=CA")

    def do(self, a):
        if a["op"] == "request":
            m = W.mac(self.request(a["kind"], SUBJ[a["s"]], self.keys[a["k"]], a["impl"]))
            resp, ab = self._send(m)
            if resp is not None and ca.ok(ab):
                self.certs.append((ca.certs_of(resp)[0], a["s"]))
        elif a["op"] == "update":
            c, s = self.certs[a["i"] - 1]
            m = W.enrol_msg("kur", SUBJ[s], self.keys[a["k"]], False, a["impl"])
            m = W.sign(m, self.signer[a["i"] - 1], c)
            resp, ab = self._send(m)
            if resp is not None and ca.ok(ab):
                self.certs.append((ca.certs_of(resp)[0], s))
        else:
            c, _ = self.certs[a["i"] - 1]
            m = cmputils.build_cmp_revoke_request(cert=c, reason=a.get("why", "removeFromCRL"),
                                                  exclude_fields="sender,senderKID")
            resp, ab = self._send(W.sign(m, *ca.ra()))
        return {"ok": resp is not None and ca.ok(ab), "fail": sorted(ab["fail"]), "body": ab["body"],
                "text": ab["text"][:1]}

    @property
    def signer(self):
        out = []
        for c, _ in self.certs:
            pub = keyutils.load_public_key_from_spki(c["tbsCertificate"]["subjectPublicKeyInfo"])
            out.append(next((k for k in self.keys.values() if k.public_key() == pub), None))
        return out

    def label(self, e):
        a = e["a"]
        return f"{a['op']}:{a.get('k', '')}:{'ok' if e['r']['ok'] else 'no'}"

    def compare(self, e, got):
        bad = []
        if got["ok"] != e["r"]["ok"]:
            bad.append(f"expected {'acceptance' if e['r']['ok'] else 'refusal'}, got {got}")
        if not e["r"]["ok"] and got["body"].startswith("exc"):
            bad.append("the CA raised instead of answering")
        elif not e["r"]["ok"] and got["fail"] != ["badCertTemplate"]:
            bad.append(f"refused with {got['fail']} instead of badCertTemplate")
        if len(self.certs) != len(e["t"]):
            bad.append(f"{len(self.certs)} certificates issued, should be {len(e['t'])}")
        else:
            for (c, _), w in zip(self.certs, e["t"]):
                st = W.STATE_NAMES[self.h.state.certificate_db.get_cert_state(c).name]
                if st != w["st"]:
                    bad.append(f"certificate for {w['k']}/{w['s']} is {st}, should be {w['st']}")
        return bad


def rule_class(e):
    """Everything the rule looks at: the requested key and subject against every issued certificate."""
    a = e["a"]
    if a["op"] in ("revoke", "revive"):
        c = e["f"][a["i"] - 1]
        return a["op"], a.get("why"), c["st"], c["k"]
    s = a.get("s") or (e["f"][a["i"] - 1]["s"] if "i" in a else None)
    other = sorted((c["k"], c["s"] == s, c["st"], c["why"] in ("keyCompromise", "cACompromise", "aACompromise"))
                   for c in e["f"])
    return (a["op"], a.get("kind"), a.get("k"), a.get("impl") if e["r"]["ok"] else None, a.get("why"), e["r"]["ok"],
            str(other))


def go(rep, name, n, ks, kinds, per, deadline=600):
    c = dict(N=n, Keys=frozenset(ks), Subjects=frozenset(["a", "b"]), ReqKinds=frozenset(kinds))
    res = tlc.run("KeyReuse", dict(c, Emit=True), view="View", invariants=["NoReuse"],
                  properties=["NoCompromised", "NoSpuriousRefusal"], action_constraints=["EmitEdge"])
    g = replay.Graph(res.edges, [])
    rng = random.Random(wenv.SEED)
    items = [it for s in sorted(g.out) for it in g.out[s]]
    rng.shuffle(items)
    cnt, keep = {}, set()
    for e, f, t in items:
        cl = rule_class(e)
        if per is None or cnt.get(cl, 0) < per:
            cnt[cl] = cnt.get(cl, 0) + 1
            keep.add(id(e))
    rep.add(states=res.states, transitions=res.generated, graph_transitions=g.n_edges, classes=len(cnt))
    L.run(rep, name, g, lambda: KeyWorld(ks), lambda e: id(e) in keep, deadline)
    L.walks(rep, name, g, lambda: KeyWorld(ks), 32 if per else 400, 16)


def main(tier, args):
    rep = Report("P05", tier)
    if args and args[0] == "count":
        for a in ((2, {"T1", "T2"}, {"ir", "cr", "p10cr"}), (2, {"T1", "Q1", "H1", "H2"}, {"ir", "p10cr"}),
                  (3, {"T1", "T2"}, {"cr"})):
            c = dict(N=a[0], Keys=frozenset(a[1]), Subjects=frozenset(["a", "b"]), ReqKinds=frozenset(a[2]), Emit=True)
            res = tlc.run("KeyReuse", c, view="View", action_constraints=["EmitEdge"])
            print(a, res.states, len(res.edges), len({rule_class(e) for e in res.edges}))
        return 0
    if tier == "quick":
        go(rep, "trad", 2, {"T1", "T2"}, {"ir", "cr", "p10cr", "irAlt", "crAlt"}, 1)
        go(rep, "composite", 2, {"T1", "Q1", "H1", "H2"}, {"cr"}, 1)
    else:
        go(rep, "trad", 3, {"T1", "T2"}, {"cr"}, 4)
        go(rep, "trad-kinds", 2, {"T1", "T2"}, {"ir", "cr", "p10cr", "irAlt", "crAlt"}, None)
        go(rep, "composite", 2, {"T1", "Q1", "H1", "H2"}, {"ir", "cr"}, 2)
    return rep.finish()
