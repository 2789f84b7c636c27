--------------------------- MODULE ChallengeResp ----------------------------
(***************************************************************************)
(* Proving possession of a key by answering a challenge (RFC 4210,         *)
(* 5.2.8.3): the CA sends a number encrypted for the key, and issues the   *)
(* certificate for the answer with this number.                            *)
(*                                                                         *)
(*  - A challenge belongs to one transaction and is answered once.         *)
(*  - The certificate issued for it is like every other: it starts         *)
(*    unconfirmed unless implicit confirmation was asked for, its key is   *)
(*    taken from then on, and what happened between request and answer     *)
(*    (key certified or compromised, requester revoked) counts.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* number of challenges
          Emit

Txs  == {1, 2}
Keys == {1, 2}                          \* all for the same subject
\* how a certificate is asked for
Profiles == { [body |-> "ir", prot |-> "mac", impl |-> FALSE],
              [body |-> "ir", prot |-> "sig", impl |-> TRUE],
              [body |-> "cr", prot |-> "sig", impl |-> FALSE] }

VARIABLES ch,       \* the challenges: [tx, key, p, st], st: "open", "NC" (issued, unconfirmed), "C" (confirmed), "void"
          keyst,    \* of every key: "free", "C" (certified by another way), "compromised"
          holder,   \* the certificate that signs: "good" or "revoked"
          act, rep

core == <<ch, keyst, holder>>
vars == <<ch, keyst, holder, act, rep>>
View == core

Ids == 1..Len(ch)
Init == /\ ch = <<>> /\ keyst = [k \in Keys |-> "free"] /\ holder = "good"
        /\ act = [op |-> "init"] /\ rep = [ok |-> TRUE, fail |-> {}]

Certified(k) == keyst[k] = "C" \/ \E i \in Ids : ch[i].key = k /\ ch[i].st \in {"NC", "C", "gone"}
TxUsed(t) == \E i \in Ids : ch[i].tx = t /\ ch[i].st \in {"NC", "C", "gone"}

Accept == rep' = [ok |-> TRUE, fail |-> {}]
Refuse(f) == rep' = [ok |-> FALSE, fail |-> f]

(* Why a certificate for the key may not be issued for this profile.       *)
Gates(k, p) ==
    (IF Certified(k) \/ keyst[k] = "compromised" THEN {"badCertTemplate"} ELSE {})
    \cup (IF p.prot = "sig" /\ holder = "revoked" THEN {"certRevoked"} ELSE {})

Ask(t, k, p) ==
    /\ Len(ch) < N
    /\ ~TxUsed(t)       \* a transactionID in use is the subject of Lifecycle.tla
    /\ act' = [op |-> "ask", tx |-> t, key |-> k, p |-> p]
    /\ UNCHANGED <<keyst, holder>>
    /\ IF Gates(k, p) # {} THEN Refuse(Gates(k, p)) /\ UNCHANGED ch
       ELSE Accept /\ ch' = Append(ch, [tx |-> t, key |-> k, p |-> p, st |-> "open"])

(* The answer to challenge i, in transaction t.                            *)
Hows == {"right", "wrong", "twice", "badProt", "none"}
Answer(i, t, how) ==
    /\ act' = [op |-> "answer", i |-> i, tx |-> t, how |-> how, p |-> ch[i].p]
    /\ UNCHANGED <<keyst, holder>>
    /\ LET f == (IF how = "badProt" THEN {"badMessageCheck"} ELSE {})
                \cup (IF how \in {"wrong", "twice", "none"} THEN {"badRequest"} ELSE {})
                \cup (IF ch[i].st # "open" \/ ch[i].tx # t THEN {"badRequest"} ELSE {})
                \cup (IF TxUsed(ch[i].tx) THEN {"transactionIdInUse"} ELSE {})
                \cup Gates(ch[i].key, ch[i].p)
       IN IF f # {} THEN Refuse(f) /\ UNCHANGED ch
          ELSE Accept /\ ch' = [ch EXCEPT ![i].st = IF ch[i].p.impl THEN "C" ELSE "NC"]

(* The certificate of challenge i is confirmed. *)
Confirm(i) ==
    /\ ch[i].st = "NC"
    /\ ch[i].p.prot = "sig" => holder = "good"
    /\ act' = [op |-> "confirm", i |-> i]
    /\ Accept
    /\ ch' = [ch EXCEPT ![i].st = "C"]
    /\ UNCHANGED <<keyst, holder>>

(* The key is certified without a challenge, and given away. *)
Plain(k) ==
    /\ keyst[k] = "free"
    /\ act' = [op |-> "plain", key |-> k]
    /\ UNCHANGED <<ch, holder>>
    /\ IF Certified(k) THEN Refuse({"badCertTemplate"}) /\ UNCHANGED keyst
       ELSE Accept /\ keyst' = [keyst EXCEPT ![k] = "C"]

Compromise(k) ==
    /\ keyst[k] = "C"
    /\ act' = [op |-> "compromise", key |-> k]
    /\ Accept
    /\ keyst' = [keyst EXCEPT ![k] = "compromised"]
    /\ UNCHANGED <<ch, holder>>

(* The certificate of challenge i is revoked (by the RA). *)
Revoke(i) ==
    /\ ch[i].st = "C"
    /\ act' = [op |-> "revoke", i |-> i]
    /\ Accept
    /\ ch' = [ch EXCEPT ![i].st = "gone"]
    /\ UNCHANGED <<keyst, holder>>

RevokeHolder ==
    /\ holder = "good"
    /\ act' = [op |-> "revokeHolder"]
    /\ Accept
    /\ holder' = "revoked"
    /\ UNCHANGED <<ch, keyst>>

Next == \/ \E t \in Txs, k \in Keys, p \in Profiles : Ask(t, k, p)
        \/ \E i \in Ids, t \in Txs, h \in Hows : Answer(i, t, h)
        \/ \E i \in Ids : Confirm(i) \/ Revoke(i)
        \/ \E k \in Keys : Plain(k) \/ Compromise(k)
        \/ RevokeHolder
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Issued(i) == ch[i].st \in {"NC", "C", "gone"}
TypeOK == \A i \in Ids : ch[i].st \in {"open", "NC", "C", "gone"}
(* One certificate for a key, one for a transaction. *)
OnePerKey == \A i, j \in Ids : i # j /\ Issued(i) /\ Issued(j) => ch[i].key # ch[j].key /\ ch[i].tx # ch[j].tx
NeverTwice == \A i \in Ids : Issued(i) => keyst[ch[i].key] # "C"
(* Issued only for the right number in the right transaction. *)
OnlyRight == [][\A i \in Ids : ch[i].st = "open" /\ ch'[i].st # "open" =>
                  act'.op = "answer" /\ act'.i = i /\ act'.how = "right" /\ act'.tx = ch[i].tx]_vars
(* Unconfirmed, unless implicit confirmation was asked for. *)
Unconfirmed == [][\A i \in Ids : ch[i].st = "open" /\ ch'[i].st = "C" => ch[i].p.impl]_vars
(* Nothing for a requester whose certificate is revoked. *)
LiveRequester == [][\A i \in Ids : ch[i].st = "open" /\ ch'[i].st # "open" /\ ch[i].p.prot = "sig" => holder = "good"]_vars

EmitEdge == Emit => PrintT("@E" \o ToJson([f |-> [ch |-> ch, keyst |-> keyst, holder |-> holder], a |-> act', r |-> rep',
                                            t |-> [ch |-> ch', keyst |-> keyst', holder |-> holder']]))
=============================================================================
