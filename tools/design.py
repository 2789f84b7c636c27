"""Writes DESIGN.md from the texts here, design_*.md, properties.jsonl and the planted bugs."""
import json, os
S={}
S["P01"]="""`Lifecycle.tla` (shared with P02–P04): the states of up to 3 (4) certificates, open transactions, pending updates, the clock's
step over the update time-out. Action properties `LegalTransitions` (the permitted steps of a
certificate), `RefusalIsStutter`, `ConfirmedByConf`, `RejectedStaysNC`, `ClosedForever`. Every transition of
the graph that changes state, and classes of the refused ones, is executed."""
S["P02"]="""`Lifecycle.tla` with the certConf alphabet: 25 kinds of confirmation (nonces, hash, hashAlg, ids, number of entries, status,
protector) in every state. `ConfirmedByConf`, `ClosedForever`, `OpenMeansNC`; comparison of body, status, failInfo and states."""
S["P03"]="""`Lifecycle.tla` with every body signed by every certificate in every state, before and after the time-out of an update. `NoDeadCredential`, `OnlyHolderOrRA`."""
S["P04"]="""`Lifecycle.tla`, operator `Published` (invariants `CrlSound`, `PublishedSound`): after every replayed transition CRL (route and genm), OCSP and the lists of the CA are
compared with what the history requires; CRL numbers are compared along the path."""
S["P05"]="""`KeyReuse.tla`: keys as sets of components (traditional, composite overlapping), two subjects, revocation reasons, revivals.
`NoReuse`, `NoCompromised`, and `NoSpuriousRefusal` (nothing else is refused for this reason).
Besides the transitions, long random walks through the graph are replayed: what the code remembers beyond the model's state shows up there."""
S["P06"]="""`Damage.tla` with `where = sender`: parts x kinds of damage, the damaged request is *authentic*, followed by the intact one.
`RefusalHasNoEffect`, `NothingTwice`. The model's books (issued, unconfirmed, revoked, updated) say what may change; a refused request must leave no trace."""
S["P07"]="""`KemSession.tla`: sessions bound to certificates, used at most once, dead with their certificate. `SingleUse`,
`StaysUsed`, `Bound`, `OnlyOwner`, `Authentic`, `AuthenticConf`."""
S["P08"]="""`ChallengeResp.tla` (histories of two challenges) and `ChallengeKinds.tla` (which key gets which form; confidentiality of the
number: it must not be readable from the answer without the key, nor computable from the request). `OnePerKey`, `NeverTwice`, `OnlyRight`, `Unconfirmed`, `LiveRequester`."""
S["P09"]="""`Nested.tla` (outer signers, identifiers, inner messages that would be refused alone) and `NestedConf.tla`
(confirmations inside). `OnlyRA`, `AllOrNothing`, `NoDeadSigner`, `OneKey`, `RaVerified`, `OwnerOnly`."""
S["P10"]="""`StatefulSig.tla`: indices used per key; the graph runs on the real HSS/LMS implementation.
`NoReuse`, `Remembers`, `Burnt`, `RefusedInert`."""
S["P11"]="""`Exchange.tla`, operator `ExpectResp`: for every body, protection and defect, the answer's header and protection, verified
with the shared secret or the CA's certificate directly."""
S["P12"]="""`Popo.tla`: kinds of key x kinds of proof x protections x bodies; encrypted certificates are decrypted with the right and a wrong key."""
S["P13"]="""`Damage.tla` with `where = wire`: bytes are changed after the protection; changes that do not change the meaning (decoding to the
same message) are recognised by decoding and excluded."""
S["P14"]="""`IssueCert.tla`: combinations of up to 2 (3) deviations from a plain request over 9 routes; certificates are compared field by field
and verified with the `cryptography` package."""
S["P15"]="""`MultiReq.tla`: entries (id, key, subject, proof); `AllOrNothing`, `OneCertificatePerEntry`, `NoKeyTwice`."""
S["P16"]="""`Exchange.tla`, operator `ExpectReq`: every set of at most two of 29 defects; `Monotone` (a second defect never turns a
refusal into an acceptance), `OnlyAuthentic`, `MacNeverForUpdateOrRevocation`."""
S["P17"]="""`Concurrent.tla`: threads decide and act; with the critical section every outcome is one of a sequential order (`Serial`), without it TLC
finds the anomalies (checked on every run, so the property is not vacuous). `harness/sched.py` stops real server threads at calls,
lines and returns of Mock CA functions; where a lock forbids a schedule, it simply does not happen."""
S["P18"]="""`Kga.tla`: request, receipt (by the requester or a stranger), confirmation, use; `known` are the parties that know the key. The real
client code decrypts with the requester's and with a stranger's secret."""
S["P19"]="""`Controls.tla`: the token's life over requests with any combination of controls and faults (`Once`, `Honoured`, `NoEffect`)."""
S["P20"]="""`DeliveredKey.tla`: a client's stages; a case is a genuine delivery (taken from the real CA) with up to 2 defects put in and everything
around re-encrypted, re-signed and re-protected, so that exactly the defect decides. Reasons of all single defects were read once."""
S["P21"]="""`Trust.tla`: chains with defects at positions; RFC 5280 rules. Known finding: for post-quantum signers only names and signatures are
checked (see below)."""
S["P22"]="""`Verdict.tla`: validators look at an answer in some order (`Complete`: every defect is some validator's). Real answers of the
CA get the defects, everything around is made and protected again, and the bytes are compared after each look."""
S["P23"]="""`SavedKey.tla`: write, damage, read; reading gives the written key or nothing. Each case writes a key with the suite, damages the
DER or the file, reads it with the suite, and compares by equality, by public bytes and by use (sign and verify, encapsulate and decapsulate)."""
S["P24"]="""`Hybrid.tla`: an owner's credential, an attacker who may know one of the keys, changes the content, copies, makes, breaks or drops
proofs and may substitute what the credential refers to. Invariant: accepted iff both proofs are the owner's over this content and the
reference is right. Each case is made with the keys themselves (not with the builders under test where they would not build it) and given
to the suite's verifier."""
S["P25"]="""`TwoForms.tla`: paired requests with shared and differing fields, and walks over the four Sun-Hybrid forms. The real builders issue,
derive and convert; octets are compared and signatures verified with independent code."""
CAUGHT={ # seed: (check, note)
"S01a":"caught from the start","S02a":"caught from the start","S03a":"caught from the start","S04a":"caught from the start",
"S05a":"caught from the start","S06a":"missed first; `Damage.tla` got the defect *earlier* (the identifier of an earlier transaction)",
"S07a":"caught from the start","S08c":"found while planting: the check now asks two copies of the CA for the challenge to one request",
"S09a":"caught from the start","S10a":"missed first; the *Track* graph of `StatefulSig.tla` (indices spent by every kind of message) was added",
"S11b":"caught from the start","S12a":"missed first; cut off, grown and empty MACs and signatures were added to `Popo.tla`",
"S13a":"missed first; freeText and recipKID of the header became parts of `Damage.tla`",
"S14a":"missed first; criticality became part of `IssueCert.tla`",
"S15a":"caught from the start","S16a":"caught from the start",
"S17a":"missed first; the scheduler now stops at lines, too, and always tries the points before and after the critical section",
"S18a":"caught from the start","S19a":"missed first; near-miss values now decide alone","S20a":"caught from the start",
"S21a":"caught from the start","S23a":"missed first; `SavedKey.tla` got keys made of two halves","S24a":"missed first; `Hybrid.tla` got the cut-off classical half",
 "S22a":"missed first; `Verdict.tla` got answers from another day"}
V="/verif"
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
out=open(V+"/tools/design_head.md").read()
out+="## Properties\n\nThe statements are in properties.jsonl. What is specified, and how it meets the code:\n\n"
for p in sorted(props,key=lambda p:p["id"]):
    t=S.get(p["id"],"(see checks/%s.py)"%p["id"].lower())
    q=p.get("quantifier",{})
    out+=f"### {p['id']} {p['title']}\n\n{t}\n"
    b=q.get("text")
    if b: out+=f"\n*Quantified over:* {b}.\n"
    out+="\n"
out+=open(V+"/tools/design_findings.md").read()
out+="\n## Planted bugs and the checks that catch them\n\n| bug | property | what it breaks | needs | result |\n|---|---|---|---|---|\n"
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{d}/meta.json"))
    out+=f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {CAUGHT.get(d,'caught by its check')} |\n"
out+=open(V+"/tools/design_tail.md").read()
open(V+"/DESIGN.md","w").write(out)
