--------------------------- MODULE ChallengeKinds ---------------------------
(***************************************************************************)
(* Which key gets which challenge: key agreement or key encipherment, in   *)
(* the form of version 2 (challenge) or 3 (encryptedRand), whatever other  *)
(* challenges are waiting for their answers.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Emit, Agree, Encipher     \* the kinds of keys

VARIABLES case
None == [key |-> "none"]

Expect(c) ==
    (IF c.pvno = 3 /\ c.prot = "mac" THEN {"badRequest"} ELSE {})
    \cup (IF (c.key \in Agree) # (c.popo = "agree") THEN {"badCertTemplate"} ELSE {})
    \cup (IF c.entries # 1 THEN {"badRequest"} ELSE {})
    \cup (IF c.id # 0 THEN {"badRequest"} ELSE {})
    \cup (IF ~c.protOk THEN {"badMessageCheck"} ELSE {})

Init == case = None
Next == /\ case = None
        /\ \E k \in Agree \cup Encipher, v \in {2, 3}, p \in {"mac", "sig"}, o \in {"agree", "encipher"},
              b \in {"ir", "cr"}, n \in {0, 1}, e \in {1, 2}, i \in {0, 1}, g \in BOOLEAN :
              /\ e = 2 => i = 0 /\ b = "cr"
              /\ (i = 1 \/ e = 2 \/ ~g) => n = 0 /\ v = 2
              /\ case' = [key |-> k, pvno |-> v, prot |-> p, popo |-> o, body |-> b, waiting |-> n, entries |-> e, id |-> i, protOk |-> g]
vars == <<case>>
Spec == Init /\ [][Next]_vars

(* A challenge in the encrypted form is never MAC protected, and waiting challenges change nothing. *)
OtherWaiting == case # None => Expect(case) = Expect([case EXCEPT !.waiting = 1 - @])
EmitCase == ~Emit \/ case = None \/ PrintT("@C" \o ToJson([c |-> case, fail |-> Expect(case)]))
=============================================================================
