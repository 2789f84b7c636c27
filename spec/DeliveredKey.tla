---------------------------- MODULE DeliveredKey ---------------------------
(***************************************************************************)
(* What a client checks before it takes a private key somebody sent it     *)
(* (RFC 9483, 4.1.6): the message, the recipient structure, the encrypted  *)
(* content, the signed content, the signer, and the key itself.  A case    *)
(* is a genuine delivery with up to N defects; the client goes through     *)
(* the stages and stops at the first one that has a defect.                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, FiniteSetsExt, Sequences, TLC, Json

CONSTANTS N, Deliveries, Kinds, Emit

Stages == <<"message", "recipient", "content", "signed data", "signer", "key">>

Defects(s) ==
    CASE s = "message"     -> {"pvno2", "otherPassword", "flippedMessage", "notEnveloped"}
      [] s = "recipient"   -> {"twoRecipients", "riVersion", "ridOther", "sameSalt", "flippedWrap"}
      [] s = "content"     -> {"idData", "noIv", "flippedContent", "cut"}
      [] s = "signed data" -> {"sdVersion", "twoDigests", "otherDigestAlg", "contentType", "trailing", "twoSigners", "siVersion",
                               "sidIssuer", "badSig", "otherDigest", "noDigest", "noType"}
      [] s = "signer"      -> {"notSigner", "noEku", "otherEku", "untrusted", "pqForged", "caSigns", "strayCert", "noCerts"}
      [] s = "key"         -> {"otherKey", "otherPriv", "mismatch", "twoKeys", "keyV1", "garbage"}

(* which deliveries a defect makes sense for *)
Fits(d, v) ==
    CASE d \in {"otherPassword", "flippedMessage", "sameSalt"} -> v = "pwri"
      [] d = "ridOther" -> v \in {"ktri", "kari"}
      [] OTHER -> TRUE

All == UNION {Defects(Stages[i]) : i \in 1..Len(Stages)}
Signers == Defects("signer")
(* two defects in the same place exclude each other *)
Compatible(ds) ==
    /\ Cardinality(ds \cap Signers) <= 1
    /\ Cardinality(ds \cap Defects("key")) <= 1
    /\ "notEnveloped" \in ds => Cardinality(ds) = 1
    /\ "cut" \in ds => ds \cap {"flippedContent"} = {}
    /\ Cardinality(ds \cap {"otherDigest", "noDigest"}) <= 1
    /\ Cardinality(ds \cap {"otherPassword", "flippedMessage"}) <= 1

VARIABLES c, stage, state
vars == <<c, stage, state>>

Init ==
    /\ c \in {[by |-> v, kga |-> k, kind |-> y, defects |-> ds] : v \in Deliveries, k \in {"ec", "pq", "pqHash"}, y \in Kinds,
              ds \in UNION {kSubset(n, All) : n \in 0..N}}
    /\ (c.kind # "ec" => c.kga = "ec" /\ c.by = "pwri" /\ c.defects \subseteq Defects("key"))
    /\ (c.kga # "ec" => c.defects \cap (Signers \ {"notSigner"}) = {})
    /\ Compatible(c.defects) /\ \A d \in c.defects : Fits(d, c.by)
    /\ stage = 1 /\ state = "checking"

Check ==
    /\ state = "checking"
    /\ IF c.defects \cap Defects(Stages[stage]) # {}
       THEN state' = "refused" /\ UNCHANGED stage
       ELSE IF stage = Len(Stages) THEN state' = "taken" /\ UNCHANGED stage
       ELSE stage' = stage + 1 /\ UNCHANGED state
    /\ UNCHANGED c

Spec == Init /\ [][Check]_vars

----------------------------------------------------------------------------
OnlyGenuine == state = "taken" => c.defects = {}
Genuine     == state = "refused" => c.defects # {}
(* in particular: the key is signed by a trusted authority and is the certificate's *)
Signed      == state = "taken" => c.defects \cap Signers = {} /\ {"badSig", "otherKey", "otherPriv"} \cap c.defects = {}

EmitCase ==
    (Emit /\ state # "checking") =>
        PrintT("@C" \o ToJson([c |-> c, take |-> (state = "taken"), at |-> Stages[stage]]))
=============================================================================
