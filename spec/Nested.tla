------------------------------- MODULE Nested ------------------------------
(***************************************************************************)
(* Nested messages (RFC 9483, 5.2.2): a trusted RA wraps one request       *)
(* ("added protection") or several ones (a batch).                         *)
(*                                                                         *)
(*  - The outer message counts only with the signature of a trusted RA and *)
(*    consistent identifiers.                                              *)
(*  - What an inner message may not do alone it may not do inside either   *)
(*    (revoked signers, compromised keys, wrong protections ...); only the *)
(*    protection itself may be missing, unless the body needs a signer.    *)
(*  - A batch with a message that should not be there at all is refused as *)
(*    a whole, before any of its messages has an effect; otherwise every   *)
(*    message gets its own answer, in order, the later ones seeing what    *)
(*    the former ones did.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Emit

Bodies == {"ir", "cr", "p10cr", "kur", "genm", "rr"}
Prots  == {"none", "mac", "sig", "badmac", "badsig"}
Whos   == {"good", "revoked", "updated", "unconfirmed", "foreign", "ra"}
Needs  == {"new", "badpopo", "compromised", "usedkey", "first", "raVerified"}

(* Not everything combines: who matters for signatures, the request itself *)
(* is only varied for good protections.                                    *)
Entries == { e \in [body : Bodies, prot : Prots, who : Whos, need : Needs] :
               /\ e.who # "good" => e.prot = "sig" /\ e.need \in (IF e.who = "ra" THEN {"new", "badpopo", "raVerified"} ELSE {"new"})
               /\ e.who = "ra" => e.body \in {"ir", "p10cr"}
               /\ e.need # "new" => e.prot \in {"none", "mac", "sig"} /\ e.body \in {"ir", "cr", "p10cr", "kur"}
               /\ e.need = "raVerified" => e.body \in {"ir", "cr", "kur"}
               /\ e.need = "first" => e.body \in {"ir", "cr", "p10cr"} }

Plain == { e \in Entries : e.need # "first" }
Good == [body |-> "cr", prot |-> "sig", who |-> "good", need |-> "new"]
GoodMac == [Good EXCEPT !.body = "ir", !.prot = "mac"]

Signers == {"ra", "holder", "foreign", "mac", "none"}
AddedDefects == {"flip", "txDiffers", "nonceDiffers", "recipOuter", "recipInner", "noTx", "noNonce", "shortTx", "shortNonce"}
BatchDefects == {"flip", "dupTx", "dupNonce", "txAsOuter", "nonceAsOuter", "recipOuter", "noTx", "noNonce",
                 "shortTx", "shortNonce", "shortInnerTx", "shortInnerNonce"}

VARIABLES case
vars == <<case>>

-----------------------------------------------------------------------------
(* Why a message must not be in a nested one (in the state before it).     *)
Whole(e) ==
    (IF e.body \in {"genm", "rr"} THEN {"badRequest"} ELSE {})
    \cup (IF e.body \in {"kur", "rr"} /\ e.prot = "none" THEN {"badMessageCheck"} ELSE {})
    \cup (IF e.body \in {"kur", "rr"} /\ e.prot \in {"mac", "badmac"} THEN {"wrongIntegrity"} ELSE {})
    \cup (IF e.prot \in {"badmac", "badsig"} THEN {"badMessageCheck"} ELSE {})
    \cup (CASE e.who = "foreign" -> {"signerNotTrusted"}
            [] e.who \in {"revoked", "updated"} -> {"certRevoked"}
            [] e.who = "unconfirmed" -> {"notAuthorized"}
            [] OTHER -> {})
    \cup (IF e.need = "compromised" THEN {"badCertTemplate"} ELSE {})

(* Why a message is refused by itself; upd: the certificate of the holder  *)
(* was updated by a message before, key: the key of the first message was  *)
(* certified.                                                              *)
Own(e, upd, key) ==
    (CASE e.need = "badpopo" -> {"badPOP"}
       [] e.need = "usedkey" -> {"badCertTemplate"}
       [] e.need = "first" -> IF key THEN {"badCertTemplate"} ELSE {}
       [] e.need = "raVerified" -> IF e.who = "ra" THEN {} ELSE {"badPOP", "notAuthorized"}    \* RFC 4211, 4: only an RA may say so
       [] OTHER -> {})
    \cup (IF upd /\ e.prot = "sig" /\ e.who = "good" THEN {"certRevoked"} ELSE {})

OuterFail(signer, defect) ==
    (CASE signer = "ra" -> {}
       [] signer = "none" -> {"badMessageCheck"}
       [] signer = "mac" -> {"wrongIntegrity"}
       [] OTHER -> {"notAuthorized", "signerNotTrusted"})
    \cup (CASE defect = "none" -> {}
            [] defect = "flip" -> {"badMessageCheck"}
            [] defect \in {"nonceDiffers", "dupNonce", "nonceAsOuter", "noNonce", "shortNonce", "shortInnerNonce"} -> {"badSenderNonce"}
            [] defect \in {"recipOuter", "recipInner"} -> {"badRecipientNonce"}
            [] defect = "noTx" -> {"badDataFormat", "badRequest"}
            [] OTHER -> {"badRequest", "badDataFormat"})

(* The verdict: whole # {}: refused as a whole; otherwise own[i] says why  *)
(* message i is refused ({}: a certificate is issued).                     *)
RECURSIVE Process(_, _, _, _)
Process(es, upd, key, n) ==
    IF es = <<>> THEN <<>>
    ELSE LET e == Head(es)
             why == Own(e, upd, key)
         IN <<why>> \o Process(Tail(es), upd \/ (why = {} /\ e.body = "kur"),
                               key \/ (why = {} /\ n = 1), n + 1)

Verdict(c) ==
    LET whole == OuterFail(c.signer, c.defect) \cup UNION { Whole(c.es[i]) : i \in 1..Len(c.es) }
                 \cup (IF c.es = <<>> THEN {"badRequest"} ELSE {})
    IN [whole |-> whole,
        own |-> IF whole # {} THEN <<>> ELSE Process(c.es, FALSE, c.es[1].need = "usedkey", 1),
        \* the one failInfo that has nothing to do with the others
        prior |-> IF c.signer = "ra" /\ c.defect = "none" THEN {} ELSE OuterFail(c.signer, c.defect)]

-----------------------------------------------------------------------------
None == [kind |-> "none"]
Init == case = None

Added(es, signer, defect) == [kind |-> "added", es |-> es, signer |-> signer, defect |-> defect]
Batch(es, signer, defect) == [kind |-> "batch", es |-> es, signer |-> signer, defect |-> defect]

Next == /\ case = None
        /\ \/ \E e \in Plain : case' = Added(<<e>>, "ra", "none")
           \/ \E s \in Signers, d \in AddedDefects \cup {"none"} : case' = Added(<<Good>>, s, d)
           \/ \E s \in Signers \ {"ra"} : case' = Added(<<GoodMac>>, s, "none")
           \/ \E s \in Signers, d \in BatchDefects \cup {"none"} : case' = Batch(<<GoodMac, Good>>, s, d)
           \/ \E e \in Plain : case' = Batch(<<e, GoodMac>>, "ra", "none")
           \/ \E e \in Entries : case' = Batch(<<GoodMac, e>>, "ra", "none")
           \/ \E e, f \in Entries : e.need # "first" /\ case' = Batch(<<e, f>>, "ra", "none")
           \/ \E e, f \in Entries : f.body \in {"ir", "cr", "p10cr"} /\ e.who = "good" /\ e.need \in {"new", "badpopo"} /\
                                     f.who \in {"good", "revoked"} /\ f.prot # "badmac" /\
                                     case' = Batch(<<e, f, GoodMac>>, "ra", "none")

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Issued(v) == Cardinality({ i \in DOMAIN v.own : v.own[i] = {} })

(* Only a trusted RA gets anything done. *)
OnlyRA == case.kind # "none" /\ case.signer # "ra" => Issued(Verdict(case)) = 0
(* All or nothing: a message that should not be there stops the whole batch. *)
AllOrNothing == case.kind = "batch" /\ (\E i \in DOMAIN case.es : Whole(case.es[i]) # {}) => Issued(Verdict(case)) = 0
(* Credentials that are no good alone are no good inside. *)
NoDeadSigner == case.kind # "none" =>
                    \A i \in DOMAIN Verdict(case).own : case.es[i].who \in {"good", "ra"}
(* An unproven key is certified only on the word of the RA itself. *)
RaVerified == case.kind # "none" => \A i \in DOMAIN Verdict(case).own :
                  case.es[i].need = "raVerified" /\ Verdict(case).own[i] = {} => case.es[i].who = "ra" /\ case.es[i].prot = "sig"
(* One key, one certificate, also within a batch. *)
OneKey == case.kind # "none" => \A i \in DOMAIN Verdict(case).own :
              case.es[i].need = "first" /\ Verdict(case).own[1] = {} => Verdict(case).own[i] # {}
(* Nothing signed after its signer was updated. *)
NoUpdatedSigner == case.kind # "none" => \A i, j \in DOMAIN Verdict(case).own :
    i < j /\ case.es[i].body = "kur" /\ case.es[j].prot = "sig" /\ case.es[j].who = "good" /\ Verdict(case).own[i] = {} => Verdict(case).own[j] # {}
-----------------------------------------------------------------------------
EmitCase == ~Emit \/ case = None \/ PrintT("@C" \o ToJson([c |-> case, v |-> Verdict(case)]))
=============================================================================
