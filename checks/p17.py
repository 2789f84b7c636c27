"""P17: requests that arrive at the same time are served as if one after another."""
import itertools
import json
import os
import random
import time

from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization

from harness import ca, exchange as X, popo as Q, replay, sched, wenv, world as W  # noqa: F401
from harness.report import Report
from mock_ca import ca_handler
from pq_logic.keys.stateful_sig_keys import HSSPrivateKey
from resources import cmputils, general_msg_utils, keyutils

from . import p07, p08, table as T

FREE = ["enrolG", "enrolS"]
TOKENS = [["enrolF1", "enrolF2", "enrolF3"], ["enrolT1", "enrolT2", "enrolT3"], ["kem1", "kem2"], ["pop1", "pop2"], ["idx1", "idx2"]]
ON_W = ["confW1", "confW2", "rejW", "ocspW"]
ON_U = ["confU1", "confU2"]
ON_C = ["kurC1", "kurC2", "kurCopen", "rrC1", "rrC2", "rrRA", "irC", "crC", "genmC", "multiC", "crl", "ocspC"]
REQS = FREE + sum(TOKENS, []) + ON_W + ON_U + ON_C
HSS = dict(algorithm="hss_lms_sha256_m32_h5_lmots_sha256_n32_w4")


def related(a, b):
    return any(a in g and b in g for g in TOKENS + [ON_W, ON_U, ON_C])


class Site:
    """One CA with the clients' material of the specification's first state, and the requests."""

    def __init__(self):
        cl = self.cl = p07.KemWorld.__new__(p07.KemWorld)
        self.h = cl.h = ca.new_handler()
        ca_handler.handler, ca_handler.state = self.h, self.h.state
        cl.n = 1
        cl.m = 0
        cl.key, cl.cert, cl.ss, cl.resp, cl.ses = {}, {}, {}, {}, {}
        cl.tx = {1: os.urandom(16)}
        # the secret S
        k = keyutils.generate_key("ml-kem-768")
        cl.key["A"], cl.cert["A"] = k, cl._enrol(k, "CN=Kem A", True)
        assert cl.do_establish(dict(s=1, c="A"))["ok"]
        self.key, self.cert = {}, {}
        for n in ("C", "S", "P"):
            self.key[n] = keyutils.generate_key("ec")
            self.cert[n] = self.granted(W.mac(W.enrol_msg("cr", f"CN=Holder {n}", self.key[n], True, True)))
        self.resp = {}
        self.key["W"], self.key["U"] = keyutils.generate_key("ec"), keyutils.generate_key("ec")
        self.cert["W"] = self.granted(W.mac(W.enrol_msg("ir", "CN=Holder W", self.key["W"], True, False)), "W")
        self.cert["U"] = self.granted(W.sign(W.enrol_msg("kur", "CN=Holder P", self.key["U"], False, False), self.key["P"],
                                             self.cert["P"]), "U")
        # the stateful key, of which the first index is used
        hk = keyutils.generate_key(**HSS)
        raw = hk.private_bytes_raw()
        hk.sign(b"next")
        self.hss = [HSSPrivateKey.from_private_bytes(raw), hk.private_bytes_raw()]
        self.cert["H"] = self.granted(W.mac(W.enrol_msg("cr", "CN=Holder H", self.hss[0], True, True)))
        # the challenge
        ck = self.chk = keyutils.generate_key("x25519")
        r = ca.send(self.h, W.mac(p08.ask_msg(ck, "CN=Challenged", "ir", "mac", True)))
        assert ca.abstract(r)["body"] == "popdecc", ca.abstract(r)
        self.chal = r
        self.msgs = {n: self.build(n) for n in REQS}
        self.before = self.counts()

    def granted(self, m, keep=None):
        r = ca.send(self.h, m)
        assert ca.ok(ca.abstract(r)), ca.abstract(r)
        if keep:
            self.resp[keep] = r
        return ca.certs_of(r)[0]

    def fresh(self, body="ir", impl=True, k=None, cn=None, **kw):
        self.cl.m += 1
        return W.enrol_msg(body, cn or f"CN=Fresh {self.cl.m}", k or keyutils.generate_key("ec"), True, impl, **kw)

    def as_c(self, m, who="C"):
        return W.sign(m, self.key[who], self.cert[who])

    def build(self, n):
        sig = dict(exclude_fields="sender,senderKID", recipient="CN=CA")
        if n.startswith("enrolF"):
            self.key.setdefault("F", keyutils.generate_key("ec"))
            return W.mac(self.fresh(("ir", "cr", "p10cr")[int(n[-1]) - 1], k=self.key["F"], cn="CN=Same"))
        if n.startswith("enrolT"):
            return W.mac(self.fresh(("ir", "cr", "p10cr")[int(n[-1]) - 1], impl=False, transaction_id=b"\x0b" * 16))
        if n == "enrolG":
            return W.mac(self.fresh())
        if n == "enrolS":
            return self.as_c(W.enrol_msg("ir", "CN=By S", keyutils.generate_key("ec"), False, True), "S")
        if n in ("irC", "crC"):
            return self.as_c(W.enrol_msg(n[:2], "CN=By C", keyutils.generate_key("ec"), False, True))
        if n == "multiC":
            ks = [keyutils.generate_key("ec") for _ in range(2)]
            from pyasn1_alt_modules import rfc4211
            ms = []
            for i, k in enumerate(ks):
                cr = cmputils.prepare_cert_request(k, f"CN=Part {i}", cert_req_id=i)
                x = rfc4211.CertReqMsg()
                x["certReq"], x["popo"] = cr, cmputils.prepare_signature_popo(k, cr)
                ms.append(x)
            return self.as_c(cmputils.build_cr_from_key(ks[0], cert_req_msg=ms, implicit_confirm=True, **sig))
        if n in ("kem1", "kem2"):
            m = self.fresh("ir" if n == "kem1" else "cr", transaction_id=self.cl.tx[1], sender="CN=Kem A")
            return self.cl.protect(m, 1, "own", "none")
        if n in ("pop1", "pop2"):
            return W.mac(p08.answer_msg(self.chal, self.chk))
        if n in ("idx1", "idx2"):
            m = W.enrol_msg("ir" if n == "idx1" else "cr", f"CN=By H {n}", keyutils.generate_key("ec"), False, True)
            return W.sign(m, HSSPrivateKey.from_private_bytes(self.hss[1]), self.cert["H"])
        if n in ("confW1", "confW2", "rejW"):
            m = cmputils.build_cert_conf_from_resp(self.resp["W"], for_mac=True, sender="CN=client", recipient="CN=CA")
            if n == "rejW":
                m["body"]["certConf"][0]["statusInfo"]["status"] = 2
            return W.mac(m)
        if n in ("confU1", "confU2"):
            return self.as_c(cmputils.build_cert_conf_from_resp(self.resp["U"], **sig), "P")
        if n.startswith("kurC"):
            return self.as_c(W.enrol_msg("kur", "CN=Holder C", keyutils.generate_key("ec"), False, n != "kurCopen"))
        if n.startswith("rr"):
            m = cmputils.build_cmp_revoke_request(cert=self.cert["C"], reason="superseded", **sig)
            return W.sign(m, *ca.ra()) if n == "rrRA" else self.as_c(m)
        if n == "genmC":
            return self.as_c(general_msg_utils.build_cmp_general_message(add_messages="current_crl", **sig))
        if n.startswith("ocsp"):
            cac = x509.load_der_x509_certificate(ca.der(ca.ca_cert_and_key()[0]))
            c = x509.load_der_x509_certificate(ca.der(self.cert[n[-1]]))
            return x509.ocsp.OCSPRequestBuilder().add_certificate(c, cac, hashes.SHA256()).build().public_bytes(
                serialization.Encoding.DER)
        assert n == "crl"
        return None

    # ------------------------------------------------------------------ one request over HTTP
    def poster(self, n):
        """The function that sends the request and abstracts the answer."""
        m = self.msgs[n]
        data = m if m is None or isinstance(m, bytes) else ca.der(m)

        def post():
            c = ca_handler.app.test_client()
            if n == "crl":
                r = c.get("/crl")
                return {"raw": r.data, "http": r.status_code}
            r = c.post("/ocsp" if n.startswith("ocsp") else "/issuing", data=data)
            return {"raw": r.data, "http": r.status_code}
        return post

    def answer(self, n, res):
        """{ok, v} of the specification, and what else is wrong with the answer."""
        if "raw" not in res:
            return {"ok": False, "v": res["v"]}, [res["v"]], {}
        if res["http"] != 200:
            return {"ok": False, "v": "HTTP"}, [f"HTTP {res['http']}: {res['raw'][:200]!r}"], {}
        if n == "crl":
            crl = x509.load_der_x509_crl(res["raw"])
            v = {k: crl.get_revoked_certificate_by_serial_number(self.serial(k)) is not None for k in ("C", "P", "W")}
            return {"ok": True, "v": v}, [], {}
        if n.startswith("ocsp"):
            r = x509.ocsp.load_der_ocsp_response(res["raw"])
            ok = r.response_status == x509.ocsp.OCSPResponseStatus.SUCCESSFUL
            v = r.certificate_status.name.lower() if ok else "none"
            return {"ok": True, "v": "none" if v == "unknown" else v}, [], {}
        resp = cmputils.parse_pkimessage(res["raw"])
        a = ca.abstract(resp)
        bad = []
        for f, g in (("transactionID", "transactionID"), ("recipNonce", "senderNonce")):
            q = self.msgs[n]["header"][g]
            if not resp["header"][f].isValue or resp["header"][f].asOctets() != q.asOctets():
                bad.append(f"{f} of the answer is not the request's")
        certs = [int(c["tbsCertificate"]["serialNumber"]) for c in ca.plain_certs(resp)] if ca.ok(a) else []
        return {"ok": ca.ok(a), "v": "-"}, bad, {"body": a["body"], "fail": sorted(a["fail"]), "text": a["text"][:1], "certs": certs,
                                                 "nonce": resp["header"]["senderNonce"].asOctets().hex()}

    def serial(self, n):
        return int(self.cert[n]["tbsCertificate"]["serialNumber"])

    def counts(self):
        db = self.h.state.certificate_db
        return dict(iss=len(db.issued_certs), nc=len(db.not_confirmed_certs), rev=len(db.revoked_certs), upd=len(db.updated_certs))

    def state(self):
        """The part of the specification's state that shows."""
        names = dict(W.STATE_NAMES)
        out = {n.lower(): names.get(self.h.state.certificate_db.get_cert_state(self.cert[n]).name, "?") for n in ("C", "W", "U", "P")}
        now = self.counts()
        out.update({k: now[k] - self.before[k] for k in now})
        return out


_S = []


def site():
    if not _S:
        _S.append(Site())
    return _S[0]


def in_child(fn):
    """fn() in a forked process, so that the site stays as it is."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(fn(), default=repr).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException as e:  # noqa: BLE001
            os.write(w, json.dumps({"error": repr(e)[:500]}).encode())
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else {"error": "the process died"}


def alone(n):
    s = site()
    got = in_child(lambda: {"points": sched.points_of(s.poster(n))[0]})
    if "error" in got:
        raise RuntimeError(got["error"])
    return got["points"]


def play(msgs, stops):
    s = site()
    cs = sched.run([s.poster(n) for n in msgs], stops)
    ans, bad, info = [], [], []
    for n, c in zip(msgs, cs):
        a, b, i = s.answer(n, c.result)
        i["at"] = c.where
        ans.append(a)
        bad += [f"{n}: {x}" for x in b]
        info.append(i)
    serials = [x for i in info for x in i.get("certs", [])]
    if len(set(serials)) != len(serials):
        bad.append("two certificates with the same serial number")
    nonces = [i["nonce"] for i in info if "nonce" in i]
    if len(set(nonces)) != len(nonces):
        bad.append("the same senderNonce in two answers")
    return {"ans": ans, "bad": bad, "info": info, "state": s.state()}


def shown(world):
    st = {k: v for k, v in world.items() if k != "tok"}
    if st["w"] == "REJ":
        st["w"] = "NC"
    return st


def case(x):
    """All schedules chosen for one sequence of requests."""
    msgs, allowed, plan = x["msgs"], x["allowed"], x["plan"]
    rng = random.Random(f"{wenv.SEED}{msgs}")
    n = [alone(m) for m in msgs]
    if plan["all"]:
        pts = [[i] for i in range(1, n[0] + 1)]
    else:
        # wherever one request at a time is served, the threads meet before and after that
        edge = [i for i in list(range(1, 19)) + list(range(n[0] - 9, n[0] + 1)) if 1 <= i <= n[0]]
        pick = set(rng.sample(edge, min(plan["edge"], len(edge)))) | set(rng.sample(range(1, n[0] + 1), min(plan["n"], n[0])))
        pts = [[i] for i in sorted(pick)]
    scheds = [[p] + [[]] * (len(msgs) - 1) for p in pts]
    for _ in range(plan["double"]):
        scheds.append([sorted(rng.sample(range(1, k + 1), 2)) if i < len(msgs) - 1 else [] for i, k in enumerate(n)])
    bad, info, ran = [], None, 0
    for s in scheds:
        if time.monotonic() > x["deadline"]:
            break
        ran += 1
        got = in_child(lambda s=s: play(msgs, s))
        if "error" in got:
            raise RuntimeError(got["error"])
        why = list(got["bad"])
        o = [dict(ans=got["ans"], world=got["state"])]
        if replay.canon(o[0]) not in allowed:
            why.append("no order of the requests answers " + json.dumps(got["ans"]) + " and ends with " + json.dumps(got["state"]))
        if why and len(bad) < 4:
            bad += [w + f"  [schedule {s}, stopped at {got['info'][0].get('at')}]" for w in why]
            info = got["info"]
    x["ran"] = ran
    return {"bad": bad, "info": info, "ran": ran, "points": n}


def main(tier, args):
    rep = Report("P17", tier)
    from harness import tlc
    t0 = time.monotonic()
    allowed = {}
    invs = ["Serial", "TokenOnce", "ConfirmOnce", "ReplacedOrRevokedOnce"]
    kinds = [2] if tier == "quick" else [2, 3]
    for k in kinds:
        reqs = REQS if k == 2 else ["enrolF1", "enrolF2", "enrolF3", "enrolT1", "enrolT2", "enrolT3", "confW1", "confW2", "rejW", "kurC1", "rrC1",
                                    "crC", "crl", "enrolS", "rrRA", "kurCopen"]
        lst = T.cases(rep, "Concurrent", dict(Reqs=frozenset(reqs), Clients=k, Locked=True), invs, properties=["Everyone"])
        for x in lst:
            allowed.setdefault(tuple(x["msg"]), set()).add(replay.canon(dict(ans=x["ans"], world=shown(x["world"]))))
    # the specification must be able to tell: without the critical section it is not serial
    try:
        tlc.run("Concurrent", dict(Reqs=frozenset({"confW1", "confW2"}), Clients=2, Locked=False, Emit=False), invariants=["Serial"])
        rep.errors.append("Concurrent.tla without the lock is serial: the property says nothing")
    except tlc.SpecViolation:
        pass
    site()
    pairs = sorted(m for m in allowed if len(m) == 2)
    rel = [m for m in pairs if related(*m)]
    rest = [m for m in pairs if not related(*m)]
    rng = random.Random(wenv.SEED)
    rng.shuffle(rest)
    end = t0 + (500 if tier == "quick" else 3000)
    items = []
    if tier == "quick":
        once = [m for m in rel if not set(m) & set(ON_C)]
        items += [(m, dict(all=False, n=10, edge=14, double=1)) for m in once]
        items += [(m, dict(all=False, n=3, edge=3, double=1)) for m in rel if m not in once]
        items += [(m, dict(all=False, n=1, edge=1, double=1)) for m in rest[:40]]
    else:
        items += [(m, dict(all=True, n=0, double=20)) for m in rel]
        items += [(m, dict(all=False, n=12, edge=12, double=4)) for m in rest]
        tri = sorted(m for m in allowed if len(m) == 3 and any(related(a, b) for a, b in itertools.combinations(m, 2)))
        rng.shuffle(tri)
        items += [(m, dict(all=False, n=6, edge=6, double=6)) for m in tri[:400]]
    work = [dict(msgs=list(m), allowed=sorted(allowed[m] if len(m) > 2 else allowed[m] | swapped(allowed, m)), plan=p, deadline=end)
            for m, p in items]
    for w in work:
        w["allowed"] = set(w["allowed"])
    res = replay.pmap(case, work)
    ran = 0
    for w, r in zip(work, res):
        name = "+".join(w["msgs"])
        if "__error__" in r:
            rep.errors.append(name + "\n" + r["__error__"])
            continue
        if "__hung__" in r:
            rep.violation("together:" + name, {"requests": w["msgs"], "why": [r["__hung__"]]})
            continue
        ran += r.get("ran", 0)
        if r.get("bad"):
            rep.violation("together:" + name, {"requests": w["msgs"], "why": r["bad"], "got": r["info"]})
    rep.add(traces_validated_against_impl=ran, sequences=len(work))
    for w in work[:2]:
        rep.sample({"requests": w["msgs"]})
    return rep.finish()


def swapped(allowed, m):
    """What the specification allows does not depend on which client is named first."""
    out = set()
    for o in allowed.get((m[1], m[0]), ()):
        d = json.loads(o)
        d["ans"].reverse()
        out.add(replay.canon(d))
    return out
