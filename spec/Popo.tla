-------------------------------- MODULE Popo --------------------------------
(***************************************************************************)
(* Which proofs of possession make the Mock CA issue a certificate, and in *)
(* which form it is delivered (RFC 4211, section 4; RFC 9810, 5.2.8).      *)
(*                                                                         *)
(* The world is described abstractly: a proof is a signature, a MAC, an    *)
(* encrypted key, an assertion of an RA or a wish to be asked.  Each is    *)
(* made with some key over some request.  Expect says what the CA may do.  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS SignKeys, KemKeys, AgreeKeys, Emit

Keys == SignKeys \cup KemKeys \cup AgreeKeys     \* ec is both a signature and an agreement key
Bodies == {"ir", "cr", "kur", "p10cr"}
Prots == {"mac", "sig", "ra"}

(* kind of proof, the key it was made with, what it was made over *)
Proof == [
  sigOk             |-> [m |-> "signature",  by |-> "own",   over |-> "this"],
  sigOtherKey       |-> [m |-> "signature",  by |-> "other", over |-> "this"],
  sigOtherSubject   |-> [m |-> "signature",  by |-> "own",   over |-> "other"],
  sigOtherKeyInReq  |-> [m |-> "signature",  by |-> "other", over |-> "other"],
  sigOtherId        |-> [m |-> "signature",  by |-> "own",   over |-> "other"],
  sigFlip           |-> [m |-> "signature",  by |-> "own",   over |-> "damaged"],
  sigEmpty          |-> [m |-> "signature",  by |-> "own",   over |-> "damaged"],
  sigCut            |-> [m |-> "signature",  by |-> "own",   over |-> "damaged"],
  sigGrown          |-> [m |-> "signature",  by |-> "own",   over |-> "damaged"],
  sigOtherAlg       |-> [m |-> "signature",  by |-> "wrong kind", over |-> "this"],
  raVerified        |-> [m |-> "ra",         by |-> "-",     over |-> "this"],
  none              |-> [m |-> "none",       by |-> "-",     over |-> "-"],
  encrCert          |-> [m |-> "encrypt",    by |-> "-",     over |-> "-"],
  agreeEncrCert     |-> [m |-> "agree-encrypt", by |-> "-",  over |-> "-"],
  agreeMac          |-> [m |-> "agree-mac",  by |-> "own",   over |-> "this"],
  agreeMacOtherKey  |-> [m |-> "agree-mac",  by |-> "other", over |-> "this"],
  agreeMacFlip      |-> [m |-> "agree-mac",  by |-> "own",   over |-> "damaged"],
  agreeMacCut       |-> [m |-> "agree-mac",  by |-> "own",   over |-> "damaged"],
  agreeMacEmpty     |-> [m |-> "agree-mac",  by |-> "own",   over |-> "damaged"],
  agreeMacGrown     |-> [m |-> "agree-mac",  by |-> "own",   over |-> "damaged"],
  agreeMacOtherSubject |-> [m |-> "agree-mac", by |-> "own", over |-> "other"],
  encKey            |-> [m |-> "enc-key",    by |-> "own",   over |-> "this"],
  encKeyOther       |-> [m |-> "enc-key",    by |-> "other", over |-> "this"],
  encKeyOtherName   |-> [m |-> "enc-key",    by |-> "own",   over |-> "other"],
  encKeyGarbage     |-> [m |-> "enc-key",    by |-> "own",   over |-> "damaged"] ]
Proofs == DOMAIN Proof

(* Which proofs can be written down for a key, and in which body.           *)
Expressible(c) ==
    LET p == Proof[c.proof] IN
    /\ p.m = "signature" /\ c.proof # "sigOtherAlg" => c.key \in SignKeys
    /\ p.m = "agree-mac" => c.key \in AgreeKeys
    /\ c.body = "p10cr" => p.m = "signature" /\ c.proof # "sigOtherId" /\ c.key \in SignKeys
    /\ c.prot = "ra" => c.body = "ir"
    /\ c.prot = "mac" => c.body \notin {"kur"}

Genuine(p) == p.by = "own" /\ p.over = "this"

(* Which proofs of a key the CA supports at all in a body: it may refuse    *)
(* the others, and must refuse those that prove nothing.                    *)
Supported(c) ==
    LET m == Proof[c.proof].m IN
    CASE m = "signature"     -> c.key \in SignKeys
      [] m = "ra"            -> c.body # "kur" /\ c.prot = "ra"
      [] m = "encrypt"       -> c.body \in {"ir", "cr"} /\ c.key \in KemKeys
      [] m = "agree-encrypt" -> c.body \in {"ir", "cr"} /\ c.key \in AgreeKeys
      [] m = "agree-mac"     -> c.body \in {"ir", "cr"} /\ c.key \in AgreeKeys
      [] m = "enc-key"       -> c.body \in {"ir", "cr"} /\ c.key \in KemKeys \cup AgreeKeys
      [] OTHER -> FALSE

(* Proofs that prove something without a secret of the requester at hand:   *)
(* the RA vouches, or the certificate is of no use without the private key. *)
Deferred(c) == Proof[c.proof].m \in {"encrypt", "agree-encrypt"}
Vouched(c) == Proof[c.proof].m = "ra" /\ c.prot = "ra"

Expect(c) ==
    IF (Genuine(Proof[c.proof]) \/ Vouched(c)) /\ Supported(c) THEN [out |-> "issued", form |-> "plain", fail |-> {}]
    ELSE IF Deferred(c) /\ Supported(c) THEN [out |-> "issued", form |-> "encrypted", fail |-> {}]
    ELSE [out |-> "refused", form |-> "-",
          fail |-> CASE Proof[c.proof].m = "signature" /\ c.key \in SignKeys /\ c.proof \notin {"sigEmpty", "sigCut", "sigGrown", "sigOtherAlg"} -> {"badPOP"}
                     [] Proof[c.proof].m = "agree-mac" /\ c.body = "ir" -> {"badPOP"}
                     [] c.proof = "none" -> {"badPOP"}
                     [] OTHER -> {}]

Cases == {c \in [body : Bodies, prot : Prots, key : Keys, proof : Proofs] : Expressible(c)}

VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

(* The heart of the matter: whoever cannot prove possession gets nothing he *)
(* could use.                                                               *)
NoProofNoCertificate ==
    Expect(case).out = "issued" =>
        \/ Genuine(Proof[case.proof])
        \/ Vouched(case)
        \/ Expect(case).form = "encrypted"
EncryptedOnlyWhenDeferred == Expect(case).form = "encrypted" => Deferred(case)
EmitCase == Emit => PrintT("@C" \o ToJson([c |-> case, e |-> Expect(case)]))
=============================================================================
