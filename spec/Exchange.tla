------------------------------ MODULE Exchange -----------------------------
(***************************************************************************)
(* One request/response exchange: which header and protection defects the  *)
(* Mock CA refuses a request for, with which failInfo, and what the header *)
(* and protection of its answer have to be (RFC 9483, section 3).          *)
(*                                                                         *)
(* A case is a body, a protection, and a set of at most two compatible     *)
(* defects.  Every defect may only turn up a refusal, never an acceptance; *)
(* with several defects any of the fitting failInfos may be named.         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Bodies, Prots, MaxDefects, Emit

Macs == {"password_based_mac", "pbmac1", "hmac", "kmac", "aes-gmac"}

(* Defects by the part of the message they change: two of one part exclude  *)
(* each other.                                                              *)
Part == [pvno1 |-> "pvno", pvno3 |-> "pvno", pvno4 |-> "pvno",
         noTx |-> "tx", emptyTx |-> "tx", shortTx |-> "tx", longTx |-> "tx",
         noNonce |-> "nonce", emptyNonce |-> "nonce", shortNonce |-> "nonce", longNonce |-> "nonce",
         recipNonce |-> "recipNonce",
         noTime |-> "time", oldOk |-> "time", tooOld |-> "time", future |-> "time", farFuture |-> "time",
         otherSender |-> "sender", notDirName |-> "sender", noKID |-> "kid", otherKID |-> "kid",
         implicitBad |-> "generalInfo", otherRecipient |-> "recipient",
         flip |-> "prot", noProt |-> "prot", noAlg |-> "prot", unprotected |-> "prot", otherKey |-> "prot",
         noExtra |-> "extra"]
Defects == DOMAIN Part

(* Defects that are none: the request stays acceptable. *)
Harmless == {"pvno3", "oldOk", "otherRecipient"}

Fail(d, body, prot) ==
    CASE d \in {"pvno1", "pvno4"}                              -> {"unsupportedVersion"}
      [] d = "noTx"                                            -> {"badDataFormat"}
      [] d \in {"emptyTx", "shortTx", "longTx"}                -> {"badRequest"}
      [] d \in {"noNonce", "emptyNonce", "shortNonce", "longNonce"} -> {"badSenderNonce"}
      [] d = "recipNonce"                                      -> {"badRecipientNonce"}
      [] d \in {"noTime", "tooOld", "future", "farFuture"}     -> {"badTime"}
      [] d = "implicitBad"                                     -> {"badRequest"}
      [] d \in {"otherSender", "notDirName", "noKID", "otherKID"} -> {"badMessageCheck"}
      [] d \in {"flip", "noProt", "noAlg", "otherKey"}         -> {"badMessageCheck"}
      [] d = "unprotected"  -> IF body = "genm" THEN {} ELSE {"badMessageCheck"}
      [] d = "noExtra"      -> IF prot \in Macs THEN {} ELSE {"badMessageCheck"}
      [] OTHER -> {}

(* A key update, a revocation and a cross certification must be signed.     *)
NeedsSignature == {"kur", "rr", "ccr"}
Base(body, prot) == IF body \in NeedsSignature /\ prot \in Macs THEN {"wrongIntegrity"} ELSE {}

(* Without protection neither sender nor senderKID are judged.              *)
Fails(c) ==
    LET ds == IF c.body = "genm" /\ "unprotected" \in c.defects
              THEN c.defects \ {"otherSender", "notDirName", "noKID", "otherKID", "noExtra"}
              ELSE c.defects
    IN UNION {Fail(d, c.body, c.prot) : d \in ds}
       \cup Base(c.body, c.prot)

ExpectReq(c) == IF Fails(c) = {} THEN [ok |-> TRUE, fail |-> {}] ELSE [ok |-> FALSE, fail |-> Fails(c)]

(* The answer.  It is protected with the shared secret if the request names *)
(* a MAC algorithm, otherwise with the CA's signature.                      *)
ExpectResp(c) ==
    [ tx     |-> IF c.defects \cap {"noTx", "emptyTx"} # {} THEN "any" ELSE "echoed",
      recip  |-> IF c.defects \cap {"noNonce", "emptyNonce"} # {} THEN "any" ELSE "senderNonce of the request",
      nonce  |-> IF "recipNonce" \in c.defects THEN "16 bytes" ELSE "fresh, 16 bytes",
      time   |-> "present",
      prot   |-> IF c.prot \in Macs /\ c.defects \cap {"noAlg", "unprotected"} = {} THEN "shared secret" ELSE "CA signature",
      regular |-> ExpectReq(c).ok ]     \* then pvno is echoed and the requester is the recipient

Cases == {[body |-> b, prot |-> p, defects |-> ds] :
            b \in Bodies, p \in Prots,
            ds \in {{}} \cup {{d} : d \in Defects}
                   \cup (IF MaxDefects < 2 THEN {} ELSE
                         {{d, e} : d \in Defects, e \in Defects} \ {{d} : d \in Defects})}
Compatible(ds) == \A d, e \in ds : d # e => Part[d] # Part[e]
AllCases == {c \in Cases : Compatible(c.defects)}

----------------------------------------------------------------------------
VARIABLE case
Init == case \in AllCases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

(* Adding a defect never turns a refusal into an acceptance.                *)
Monotone ==
    \A d \in Defects :
        LET c2 == [case EXCEPT !.defects = @ \cup {d}] IN
        Compatible(c2.defects) /\ ~(d = "unprotected" /\ case.body = "genm") =>
            (~ExpectReq(case).ok => ~ExpectReq(c2).ok)
(* Nothing unauthenticated is accepted but a general message.               *)
OnlyAuthentic ==
    ExpectReq(case).ok /\ case.body # "genm" =>
        case.defects \cap {"flip", "noProt", "noAlg", "unprotected", "otherKey", "otherSender", "otherKID", "noKID"} = {}
(* Every refusal has a failInfo, every failInfo belongs to a refusal.       *)
FailInfoIffRefused == ExpectReq(case).ok <=> Fails(case) = {}
MacNeverForUpdateOrRevocation ==
    case.body \in NeedsSignature /\ case.prot \in Macs => ~ExpectReq(case).ok

EmitCase == Emit => PrintT("@C" \o ToJson([c |-> case, req |-> ExpectReq(case), resp |-> ExpectResp(case)]))
=============================================================================
