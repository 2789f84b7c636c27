------------------------------ MODULE MultiReq ------------------------------
(***************************************************************************)
(* Messages that carry several certificate requests.  An entry is an id, a *)
(* key, a subject and whether its proof of possession is right.            *)
(*                                                                         *)
(* A message is granted as a whole or refused as a whole: Expect gives the *)
(* failures that may be reported (any of them; which one is found first is *)
(* not fixed) or the set of certificates, by id, that must be issued.      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS MaxLen, Ids, Emit

Bodies == {"ir", "cr"}
Entry == [id: Ids \cup {-1}, key: 1..2, subj: 1..2, popo: BOOLEAN]

(* Longer messages vary one thing at a time, else there would be millions. *)
Perms == {<<0,1,2>>, <<2,1,0>>, <<1,2,0>>, <<0,2,1>>, <<0,1,1>>, <<0,0,0>>, <<1,2,3>>, <<0,1,3>>, <<-1,0,1>>, <<0,-1,1>>}
Long == [ids: Perms, dup: {"none", "13", "23"}, sdup: BOOLEAN, bad: 0..3]
LongEntries(l) ==
    [i \in 1..3 |-> [id |-> l.ids[i],
        key  |-> IF l.dup = "13" /\ i = 3 THEN 1 ELSE IF l.dup = "23" /\ i = 3 THEN 2 ELSE i,
        subj |-> IF l.sdup THEN 1 ELSE i,
        popo |-> i # l.bad]]

Messages == UNION {[1..n -> Entry] : n \in 1..(IF MaxLen < 2 THEN MaxLen ELSE 2)}
            \cup (IF MaxLen >= 3 THEN {LongEntries(l) : l \in Long} ELSE {})

VARIABLES body, msg
vars == <<body, msg>>

IdsGood(m) == {m[i].id : i \in DOMAIN m} = 0..(Len(m) - 1)
Twice(m)   == \E i, j \in DOMAIN m : i # j /\ m[i].key = m[j].key /\ m[i].subj = m[j].subj
AllProven(m) == \A i \in DOMAIN m : m[i].popo

Expect ==
    LET f == (IF ~IdsGood(msg) THEN {"badRequest"} ELSE {})
             \cup (IF Twice(msg) THEN {"badCertTemplate"} ELSE {})
             \cup (IF ~AllProven(msg) THEN {"badPOP"} ELSE {})
             \cup (IF body = "ir" /\ Len(msg) > 1 THEN {"badRequest"} ELSE {})     \* lightweight profile
    IN [fail |-> f, issued |-> IF f = {} THEN {msg[i] : i \in DOMAIN msg} ELSE {}]

Init == body \in Bodies /\ msg \in Messages
Next == UNCHANGED vars

Spec == Init /\ [][Next]_vars

(* What a message must never achieve. *)
AllOrNothing == Expect.fail # {} => Expect.issued = {}
OneCertificatePerEntry == Expect.fail = {} => Cardinality(Expect.issued) = Len(msg)
NoKeyTwice == \A a, b \in Expect.issued : a.key = b.key /\ a.subj = b.subj => a = b

EmitCase == ~Emit \/ PrintT("@C" \o ToJson([body |-> body, msg |-> msg, fail |-> Expect.fail, n |-> Cardinality(Expect.issued)]))
=============================================================================
