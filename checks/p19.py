"""P19: a registration token buys one certificate, and the controls of a request are honoured."""
import json
import random
import zlib

from pyasn1.codec.der import decoder, encoder
from pyasn1.type import univ
from pyasn1_alt_modules import rfc4211

from harness import ca, exchange as X, replay, tlc, wenv
from harness import world as W
from harness.report import Report
from resources import cmputils, keyutils

from . import lifecycle as L

_KEYS = []
NEAR = [lambda s: s[:-1], lambda s: s + "x", str.lower, str.upper, lambda s: s + " ", lambda s: " " + s, lambda s: s[0],
        lambda s: "", lambda s: s + "\0", lambda s: s[1:], lambda s: s[::-1]]


def near_of(r):
    """Which wrong values a request gets for the token and the authenticator."""
    h = zlib.crc32(json.dumps(r, sort_keys=True).encode())
    return h % len(NEAR), h // 16 % len(NEAR)


def spare(i):
    while len(_KEYS) <= i:
        _KEYS.append(keyutils.generate_key("ec"))
    return _KEYS[i]


class World:
    def __init__(self):
        self.c = X.Client(("sig-ec",))
        self.tx = None
        self.twin = self.c.fresh()
        self.c.enrol(spare(0), self.twin)

    def controls(self, r, k):
        C, out = cmputils, []
        tok, aut = "SuperSecretRegToken", "MaidenName"
        i, j = near_of(r)
        wrong_tok, wrong_aut = NEAR[i](tok), NEAR[j](aut)
        out += {"none": [], "right": [C.prepare_reg_token_controls(tok)], "wrong": [C.prepare_reg_token_controls(wrong_tok)],
                "twice": [C.prepare_reg_token_controls(tok), C.prepare_reg_token_controls("another")]}[r["token"]]
        out += {"none": [], "right": [C.prepare_authenticator_control(aut)], "wrong": [C.prepare_authenticator_control(wrong_aut)],
                "twice": [C.prepare_authenticator_control(aut), C.prepare_authenticator_control("another")]}[r["auth"]]
        if r["arch"] == "flag":
            out.append(C.prepare_pkiarchiveoptions_controls(use_archive_flag=True))
        elif r["arch"] != "none":
            out.append(C.prepare_pkiarchiveoptions_controls(private_key=k if r["arch"] == "right" else spare(1)))
        pub = C.prepare_pki_publication_information_control
        out += {"none": lambda: [], "please": lambda: [pub()], "dont": lambda: [pub("dontPublish")], "bad": lambda: [pub("badAction")],
                "dontButWhere": lambda: [pub("dontPublish", pub_method="x500", pub_location="https://example.com/repo")]}[r["pub"]]()
        own = self.c.cert["sig-ec"]
        if r["old"] == "right":
            out.append(C.prepare_old_cert_id_control(cert=own))
        elif r["old"] == "otherSerial":
            out.append(C.prepare_old_cert_id_control(serial_number=int(own["tbsCertificate"]["serialNumber"]) + 1,
                                                     issuer="CN=Root CA"))
        elif r["old"] == "otherIssuer":
            out.append(C.prepare_old_cert_id_control(serial_number=int(own["tbsCertificate"]["serialNumber"]), issuer="CN=Nobody"))
        return out

    def build(self, r):
        k, cn = keyutils.generate_key("ec"), self.c.fresh()
        if r["fault"] == "key":
            k, cn = spare(0), self.twin
        if r["body"] == "kur":
            cn = "CN=Holder sig-ec"
            if r["fault"] == "key":
                k = self.c.key["sig-ec"]
        macp = r["prot"] in X.MACS
        kw = dict(for_mac=True, sender="CN=client") if macp else dict(exclude_fields="sender,senderKID")
        if r["fault"] == "tx":
            kw["transaction_id"] = self.tx
        ctl = self.controls(r, k)
        if ctl:
            kw["controls"] = ctl
        if r["fault"] == "id":
            kw["cert_req_id"] = 1
        f = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key, "kur": cmputils.build_key_update_request}[r["body"]]
        m = f(k, common_name=cn, implicit_confirm=r["impl"], recipient="CN=CA", **kw)
        if r["fault"] == "popo":
            e, _ = decoder.decode(encoder.encode(m["body"][r["body"]][0]), rfc4211.CertReqMsg())
            s = bytearray(e["popo"]["signature"]["signature"].asOctets())
            s[-1] ^= 1
            e["popo"]["signature"]["signature"] = univ.BitString.fromOctetString(bytes(s))
            m["body"][r["body"]][0] = e
        m = self.c.protect(m, r["prot"])
        if r["fault"] == "prot":
            p = bytearray(m["protection"].asOctets())
            p[len(p) // 2] ^= 1
            ca.set_protection(m, bytes(p))
        return m

    def lists(self):
        d = self.c.h.state.certificate_db
        return tuple(map(len, (d.issued_certs, d.revoked_certs, d.updated_certs, d.not_confirmed_certs)))

    def do(self, a):
        r = a["r"]
        m = self.build(r)
        before = self.lists()
        try:
            resp = ca.send(self.c.h, m)
            ab = ca.abstract(resp)
        except Exception as e:  # noqa: BLE001
            ab = {"body": "exception", "status": ["x"], "fail": frozenset(), "text": [repr(e)[:200]]}
        got = ca.ok(ab)
        delta = tuple(y - z for y, z in zip(self.lists(), before))
        if got and r["body"] == "kur":
            self.c.holder("sig-ec")
        if got and not r["impl"] and self.tx is None:
            self.tx = ca.tx(resp)
        return {"ok": got, "fail": sorted(ab["fail"]), "body": ab["body"], "text": ab["text"][:1], "delta": delta}

    def label(self, e):
        r = e["a"]["r"]
        return f"{r['body']}:{'token ' if r['token'] == 'right' else ''}{r['fault']}:{'ok' if e['r']['ok'] else 'no'}"

    def compare(self, e, got):
        bad, r = [], e["a"]["r"]
        if got["ok"] != e["r"]["ok"]:
            bad.append(f"expected {'a certificate' if e['r']['ok'] else 'refusal'}, got {got}")
        elif not got["ok"] and (got["body"] == "exception" or not got["fail"] or not set(got["fail"]) <= set(e["r"]["why"])):
            bad.append(f"refused with {got['fail']} ({got['text']}) instead of {e['r']['why']}")
        want = (0, 0, 0, 0)
        if e["r"]["ok"]:
            want = (1, 0, 1, 0) if r["body"] == "kur" else (1, 0, 0, 0) if r["impl"] else (0, 0, 0, 1)
        if got["delta"] != want:
            bad.append(f"issued/revoked/updated/unconfirmed certificates changed by {got['delta']}, should be {want}")
        return bad


def main(tier, args):
    rep = Report("P19", tier)
    quick = tier == "quick"
    prots = {"password_based_mac", "sig-ec"} | (set() if quick else {"pbmac1"})
    res = tlc.run("Controls", dict(Prots=frozenset(prots), Emit=True), view="View", invariants=["Once"],
                  properties=["Honoured", "NoEffect"], action_constraints=["EmitEdge"])
    g = replay.Graph(res.edges, [False, False])
    rng = random.Random(wenv.SEED)
    items = [it for s in sorted(g.out) for it in g.out[s]]
    rng.shuffle(items)
    keep, cnt = set(), {}
    for e, f, t in items:
        r = e["a"]["r"]
        ones = sum((r["token"] in ("wrong", "twice"), r["auth"] not in ("none", "right"), r["arch"] == "wrong",
                    r["pub"] in ("bad", "dontButWhere"), r["fault"] != "-"))
        if "wrong" in (r["token"], r["auth"]) and ones == 1 and r["impl"]:
            cl = (r["token"], r["auth"], near_of(r)[r["auth"] == "wrong"])            # every kind of wrong value decides alone
        elif ones == 1:
            cl = (r["body"], r["token"], r["auth"], r["arch"], r["pub"], r["old"], r["fault"], f[0])
        else:
            cl = (r["body"], r["token"], e["r"]["ok"], r["fault"], str(f))
        cl += (r["auth"], r["arch"] == "wrong", r["pub"]) if r["token"] == "right" and r["fault"] == "-" else ()
        cnt[cl] = cnt.get(cl, 0) + 1
        if cnt[cl] <= (1 if quick else 12):
            keep.add(id(e))
    rep.add(states=res.states, transitions=res.generated, graph_transitions=g.n_edges, classes=len(cnt))
    L.run(rep, "controls", g, World, lambda e: id(e) in keep, 600)
    return rep.finish()
