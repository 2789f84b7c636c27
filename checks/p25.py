"""P25: another form of a hybrid certificate is the same certificate."""
import warnings

from pyasn1.codec.der import decoder, encoder
from pyasn1_alt_modules import rfc9480

from harness.report import Report
from pq_logic import pq_verify_logic
from pq_logic.hybrid_sig import chameleon_logic, sun_lamps_hybrid_scheme_00 as sun
from pq_logic.keys.composite_sig import CompositeSigPrivateKey
from resources import ca_ra_utils, certbuildutils, certutils, convertutils, keyutils, utils  # noqa: F401

from . import table as T

CA_KEYS = ["rsa", "ec", "ed25519", "ml-dsa-44"]
KEYS = ["ec", "ml-dsa-44"]
_K = {}


def stuff():
    if _K:
        return _K
    warnings.simplefilter("ignore")
    g = keyutils.generate_key
    for n in CA_KEYS:
        k = g(n)
        c, _ = certbuildutils.build_certificate(private_key=k, common_name="CN=CA " + n, hash_alg="sha256")
        _K["ca:" + n] = k, c
    _K["base"] = g("rsa", length=2048)
    _K["ec"], _K["ml-dsa-44"], _K["alt"] = g("ec", curve="secp256r1"), g("ml-dsa-44"), g("ml-dsa-44")
    return _K


def extensions(x, which):
    """The extensions a request asks for."""
    out = []
    for n in ("ku", "eku", "san"):
        how = x[n]
        if how == "none" or (how == "base" and which == "delta"):
            continue
        other = how == "other" and which == "delta"
        crit = how == "critical" and which == "delta"
        kw = {"ku": dict(key_usage="digitalSignature,keyAgreement" if other else "digitalSignature"),
              "eku": dict(eku="cmcRA" if other else "cmcCA"),
              "san": dict(SubjectAltName="other.example" if other else "host.example")}[n]
        out.extend(certbuildutils.prepare_extensions(**kw, critical=crit))
    return out or None


def paired(x):
    ca_key, ca_cert = _K["ca:" + x["ca"]]
    csr = chameleon_logic.build_paired_csr(base_private_key=_K["base"], delta_private_key=_K[x["delta"]], base_common_name="CN=Base",
                                           base_extensions=extensions(x, "base"), delta_extensions=extensions(x, "delta"),
                                           delta_common_name="CN=Delta" if x["subject"] == "other" else None, hash_alg=x["hash"])
    cert, delta = chameleon_logic.build_chameleon_cert_from_paired_csr(csr=csr, ca_key=ca_key, ca_cert=ca_cert, include_ski=x["ski"],
                                                                       hash_alg=x["hash"])
    cert = decoder.decode(encoder.encode(cert), rfc9480.CMPCertificate())[0]
    before = encoder.encode(cert)
    got = chameleon_logic.build_delta_cert_from_paired_cert(cert)
    bad = []
    if encoder.encode(got) != encoder.encode(delta):
        bad.append("the derived certificate is not the issued one")
    if encoder.encode(cert) != before:
        bad.append("deriving changed the paired certificate")
    for n, y in (("paired", cert), ("delta", delta)):
        try:
            certutils.verify_cert_signature(cert=y, issuer_pub_key=ca_key.public_key())
        except Exception as err:  # noqa: BLE001
            bad.append(f"the signature of the {n} certificate: {err!r}"[:200])
    if encoder.encode(chameleon_logic.get_chameleon_delta_public_key(cert)) != encoder.encode(delta["tbsCertificate"]["subjectPublicKeyInfo"]):
        bad.append("the key in the descriptor is another")
    want = {str(e["extnID"]): (bool(e["critical"]), e["extnValue"].asOctets()) for e in extensions(x, "delta") or []}
    have = {str(e["extnID"]): (bool(e["critical"]), e["extnValue"].asOctets()) for e in delta["tbsCertificate"]["extensions"]}
    for o, v in want.items():
        if have.get(o) != v:
            bad.append(f"extension {o} of the delta request: {have.get(o)}, asked for {v}"[:200])
    return [bad, None] if bad else []


def sunny(x, walk):
    key = "sun:%s:%s:%s" % (x["ca"], x["delta"], x["hash"])
    ca_key, ca_cert = _K["ca:" + x["ca"]]
    if key not in _K:
        comp = CompositeSigPrivateKey(pq_key=_K["ml-dsa-44"], trad_key=_K["base"])
        csr = certbuildutils.build_csr(signing_key=comp, common_name="CN=Sun", exclude_signature=True)
        csr["certificationRequestInfo"]["attributes"].extend(sun.prepare_sun_hybrid_csr_attributes(
            pub_key_hash_alg=x["hash"], pub_key_location="http://x/key", sig_hash_alg=x["hash"], sig_value_location="http://x/sig"))
        csr = certbuildutils.sign_csr(csr=csr, signing_key=comp, hash_alg="sha256")
        four, one = sun.sun_csr_to_cert(csr, issuer_private_key=ca_key, alt_private_key=_K["alt"], ca_cert=ca_cert, hash_alg=x["hash"])
        again = lambda c: decoder.decode(encoder.encode(c), rfc9480.CMPCertificate())[0]  # noqa: E731
        _K[key] = again(four), again(one)
    four, one = _K[key]
    known = {"http://x/key": encoder.encode(convertutils.subject_public_key_info_from_pubkey(_K["ml-dsa-44"].public_key())),
             "http://x/sig": sun.extract_sun_hybrid_alt_sig(one)}
    utils.fetch_value_from_location = lambda location, timeout=20: known.get(str(location))
    bad = []
    it = one
    for f in walk:
        before = encoder.encode(it)
        out = sun.convert_sun_hybrid_cert_to_target_form(it, f)
        if encoder.encode(it) != before:
            bad.append("the conversion changed its input")
        if sun.get_sun_hybrid_form(out).lower().replace(" ", "") != f.lower():
            bad.append(f"{sun.get_sun_hybrid_form(out)} came out, asked for {f}")
        it = out
    last = walk[-1]
    if encoder.encode(it) != encoder.encode(sun.convert_sun_hybrid_cert_to_target_form(four, last)):
        bad.append(f"{last} over {walk} is not {last} made at once")
    if last == "Form4" and encoder.encode(it) != encoder.encode(four) or last == "Form1" and encoder.encode(it) != encoder.encode(one):
        bad.append("the issued form did not come back")
    try:
        pq_verify_logic.verify_sun_hybrid_cert(it, ca_cert, alt_issuer_key=_K["alt"].public_key())
    except Exception as err:  # noqa: BLE001
        bad.append(f"the certificate in {last} is refused: {err!r}"[:300])
    if sun.get_sun_hybrid_alt_pub_key(it["tbsCertificate"]["extensions"]) != _K["ml-dsa-44"].public_key():
        bad.append("the alternative key is another")
    return [bad, None] if bad else []


def case(e):
    warnings.simplefilter("ignore")
    return paired(e["c"]) if e["kind"] == "paired" else sunny(e["c"], e["walk"])


def label(e):
    return e["kind"] + ":" + ":".join(str(v) for k, v in sorted(e["c"].items())) + ":" + "-".join(e["walk"])


def main(tier, args):
    rep = Report("P25", tier)
    thorough = tier == "thorough"
    lst = T.cases(rep, "TwoForms", dict(CaKeys=frozenset(CA_KEYS), Keys=frozenset(KEYS), Depth=3 if thorough else 2), ["Lossless", "Forgets"])
    stuff()
    if not thorough:
        lst = T.sample(lst, lambda e: e["kind"] == "sun" and e["c"]["hash"] == "sha256" and len(e["walk"]) < 2, 400)
    T.run(rep, "forms", lst, case, key=label)
    return rep.finish()
