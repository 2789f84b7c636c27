------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* One place of a request is damaged, either on the way (after it was      *)
(* protected) or by its sender (who protects the damaged request).         *)
(*                                                                         *)
(* The CA is modelled by what it may do to its books: `books` counts the   *)
(* certificates that are issued, unconfirmed, revoked and updated.  The    *)
(* intact request follows a damaged one that was refused, so that a trace  *)
(* the refusal left behind shows.                                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS OtherProts,      \* further protections: only a few parts of a cr are damaged with these
          Emit

Bodies == {"ir", "cr", "p10cr", "kur", "rr", "genm", "certConf"}
MainProts == {"mac", "sig"}
Prots == MainProts \cup OtherProts
HeaderParts == {"pvno", "sender", "recipient", "messageTime", "protectionAlg", "senderKID", "recipKID", "transactionID",
                "senderNonce", "recipNonce", "freeText", "generalInfo"}
BodyParts == {"body1", "body2", "body3"}                      \* outer, middle, inner structure
Unprotected == {"signer", "chain"}
Parts == HeaderParts \cup BodyParts \cup {"protection"} \cup Unprotected
Ops == {"flip", "remove", "repeat", "empty", "swap", "null", "retag", "truncate", "grow", "extreme", "stranger", "splice",
        "earlier"}
    \* stranger: another part of the message; splice: the same part of another message of the same sender;
    \* earlier: that other message was sent and granted before
When == {"on the way", "by the sender"}

Cases == {c \in [body: Bodies, prot: Prots, part: Parts, op: Ops, when: When] :
    /\ c.prot = "mac" => c.body \notin {"kur", "rr"} /\ c.part \notin Unprotected
    /\ c.body = "genm" => c.part # "generalInfo"
    /\ c.op = "earlier" => c.body \notin {"kur", "rr"}
    /\ c.part = "recipNonce" => c.body = "certConf"
    /\ c.prot \notin MainProts =>
          c.body = "cr" /\ c.when = "on the way" /\ c.part \in {"transactionID", "sender", "protectionAlg", "body2", "body3", "protection"}
    /\ c.when = "by the sender" => c.part \in HeaderParts \cup BodyParts}

(* what an accepted request of a kind does to the books, as a set of possibilities *)
Zero == [issued |-> 0, unconfirmed |-> 0, revoked |-> 0, updated |-> 0]
Effects(body) ==
    CASE body \in {"ir", "cr", "p10cr"} -> {[Zero EXCEPT !.issued = 1], [Zero EXCEPT !.unconfirmed = 1]}
      [] body = "kur"      -> {[Zero EXCEPT !.issued = 1, !.updated = 1],
                              [issued |-> -1, unconfirmed |-> 1, revoked |-> 0, updated |-> 1]}   \* the old one is in between
      [] body = "rr"       -> {[Zero EXCEPT !.revoked = 1]}
      [] body = "genm"     -> {Zero}
      [] body = "certConf" -> {[Zero EXCEPT !.unconfirmed = -1, !.issued = 1], [Zero EXCEPT !.unconfirmed = -1]}

VARIABLES case, phase, books, verdict
vars == <<case, phase, books, verdict>>

Init == /\ case \in Cases /\ phase = "fresh" /\ books = Zero /\ verdict = "none"

Covered(c) == c.part \notin Unprotected       \* by the protection

(* The CA gets the damaged request and always answers. *)
Damaged ==
    /\ phase = "fresh"
    /\ \/ verdict' = "refused" /\ books' = books
       \/ /\ ~(case.when = "on the way" /\ Covered(case))
          /\ verdict' = "accepted" /\ \E e \in Effects(case.body) : books' = e
    /\ phase' = "answered" /\ UNCHANGED case

(* The intact request afterwards: nothing is left of the refused one. *)
Intact ==
    /\ phase = "answered" /\ verdict = "refused"
    /\ verdict' = "accepted" /\ \E e \in Effects(case.body) : books' = e
    /\ phase' = "done" /\ UNCHANGED case

Next == Damaged \/ Intact
Spec == Init /\ [][Next]_vars

RefusalHasNoEffect == verdict = "refused" => books = Zero
DamageOnTheWayIsFound == phase = "answered" /\ case.when = "on the way" /\ Covered(case) => verdict = "refused"
NothingTwice == \A k \in {"issued", "unconfirmed", "revoked", "updated"} : books[k] <= 1

MayAccept == ~(case.when = "on the way" /\ Covered(case))
EmitCase == ~Emit \/ phase # "fresh" \/
    PrintT("@C" \o ToJson([case EXCEPT !.op = @] @@ [mayAccept |-> MayAccept, effects |-> Effects(case.body)]))
=============================================================================
