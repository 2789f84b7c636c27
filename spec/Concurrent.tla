----------------------------- MODULE Concurrent ----------------------------
(***************************************************************************)
(* Requests that reach the CA at the same time.                            *)
(*                                                                         *)
(* Every client sends one request; the CA serves each in a thread of its   *)
(* own.  A thread first decides (it reads the state of the CA) and then    *)
(* acts (it changes the state and answers).  With Locked the two steps are *)
(* one critical section, and whatever the schedule is, the answers and the *)
(* final state are those of some order of the requests one after another.  *)
(* Without it they are not: TLC shows a schedule in which one key is       *)
(* certified twice, one confirmation is granted twice, and so on.          *)
(*                                                                         *)
(* The world before: certificate C is confirmed; the certificate of        *)
(* transaction W waits for its confirmation; P was updated and its         *)
(* successor U waits; a shared secret S was agreed; a challenge H is open. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Reqs,      \* the requests explored
          Clients,   \* number of clients: 2 or 3
          Locked,
          Emit

VARIABLES world, msg, pc, ans, lock
vars == <<world, msg, pc, ans, lock>>

Threads == 1..Clients
World0 == [c |-> "C", w |-> "NC", u |-> "NC", p |-> "UBNC", tok |-> {}, iss |-> 0, nc |-> 0, rev |-> 0, upd |-> 0]

(* A token can be used once: a key to be certified, a transactionID, the   *)
(* shared secret, the answer to the challenge, an index of a stateful key. *)
Token == [ enrolF1 |-> "F", enrolF2 |-> "F", enrolF3 |-> "F", enrolT1 |-> "T", enrolT2 |-> "T", enrolT3 |-> "T",
           kem1 |-> "S", kem2 |-> "S", pop1 |-> "H", pop2 |-> "H", idx1 |-> "I", idx2 |-> "I" ]

None == [iss |-> 0, nc |-> 0, rev |-> 0, upd |-> 0]

(* The answer to request m in world w, and what the request does then.     *)
Reads == {"crl", "ocspC", "ocspW"}
Ok(m, w) ==
    CASE m \in DOMAIN Token                           -> Token[m] \notin w.tok
      [] m \in {"enrolG", "enrolS"}                   -> TRUE
      [] m \in {"confW1", "confW2", "rejW"}           -> w.w = "NC"
      [] m \in {"confU1", "confU2"}                   -> w.u = "NC"
      [] m \in {"kurC1", "kurC2", "kurCopen", "rrC1", "rrC2", "irC", "crC", "genmC", "multiC"} -> w.c = "C"
      [] m = "rrRA"                                   -> w.c = "C"
      [] m \in Reads                                  -> TRUE

Value(m, w) ==
    CASE m = "crl"   -> [C |-> w.c # "C", P |-> w.p \in {"UBNC", "UPD"}, W |-> FALSE]
      [] m = "ocspC" -> IF w.c = "C" THEN "good" ELSE "revoked"
      [] m = "ocspW" -> IF w.w = "C" THEN "good" ELSE "none"
      [] OTHER       -> "-"

Decide(m, w) == [ok |-> Ok(m, w), v |-> Value(m, w)]

Add(w, i, n, r, u) == [w EXCEPT !.iss = @ + i, !.nc = @ + n, !.rev = @ + r, !.upd = @ + u]
Act(m, w) ==
    CASE m \in {"enrolT1", "enrolT2", "enrolT3"} -> [Add(w, 0, 1, 0, 0) EXCEPT !.tok = @ \cup {Token[m]}]
      [] m \in DOMAIN Token            -> [Add(w, 1, 0, 0, 0) EXCEPT !.tok = @ \cup {Token[m]}]
      [] m \in {"enrolG", "enrolS", "irC", "crC"} -> Add(w, 1, 0, 0, 0)
      [] m = "multiC"                  -> Add(w, 2, 0, 0, 0)
      [] m \in {"confW1", "confW2"}    -> [Add(w, 1, -1, 0, 0) EXCEPT !.w = "C"]
      [] m = "rejW"                    -> [w EXCEPT !.w = "REJ"]
      [] m \in {"confU1", "confU2"}    -> [Add(w, 2, -1, 0, 0) EXCEPT !.u = "C", !.p = "UPD"]
      [] m \in {"kurC1", "kurC2"}      -> [Add(w, 1, 0, 0, 1) EXCEPT !.c = "UPD"]
      [] m = "kurCopen"                -> [Add(w, -1, 1, 0, 1) EXCEPT !.c = "UBNC"]
      [] m \in {"rrC1", "rrC2", "rrRA"} -> [Add(w, 0, 0, 1, 0) EXCEPT !.c = "REV"]
      [] OTHER                         -> w

Apply(m, w) == IF Decide(m, w).ok THEN Act(m, w) ELSE w

Init == /\ msg \in [Threads -> Reqs]
        /\ \A i, j \in Threads : i # j => msg[i] # msg[j]
        /\ world = World0
        /\ pc = [i \in Threads |-> "ready"]
        /\ ans = [i \in Threads |-> [ok |-> FALSE, v |-> "-"]]
        /\ lock = 0

Enter(i) == /\ pc[i] = "ready" /\ (Locked => lock = 0)
            /\ lock' = i
            /\ pc' = [pc EXCEPT ![i] = "in"]
            /\ ans' = [ans EXCEPT ![i] = Decide(msg[i], world)]
            /\ UNCHANGED <<world, msg>>
Leave(i) == /\ pc[i] = "in"
            /\ lock' = 0
            /\ pc' = [pc EXCEPT ![i] = "done"]
            /\ world' = IF ans[i].ok THEN Act(msg[i], world) ELSE world
            /\ UNCHANGED <<msg, ans>>
Done == (\A i \in Threads : pc[i] = "done") /\ UNCHANGED vars
Next == (\E i \in Threads : Enter(i) \/ Leave(i)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Over == \A i \in Threads : pc[i] = "done"
Orders == {o \in [Threads -> Threads] : \A i, j \in Threads : i # j => o[i] # o[j]}

RECURSIVE Run(_, _, _)
Run(o, k, w) == IF k > Clients THEN [w |-> w, a |-> <<>>]
                ELSE LET r == Run(o, k + 1, Apply(msg[o[k]], w))
                     IN [w |-> r.w, a |-> <<Decide(msg[o[k]], w)>> \o r.a]

(* The answers and the end are those of one of the orders.                 *)
Serial == Over => \E o \in Orders :
            LET r == Run(o, 1, World0) IN /\ r.w = world
                                          /\ \A k \in Threads : r.a[k] = ans[o[k]]

Wins(S) == Cardinality({i \in Threads : pc[i] = "done" /\ msg[i] \in S /\ ans[i].ok})
TokenOnce   == \A t \in {Token[m] : m \in DOMAIN Token} : Wins({m \in DOMAIN Token : Token[m] = t}) <= 1
ConfirmOnce == Wins({"confW1", "confW2", "rejW"}) <= 1 /\ Wins({"confU1", "confU2"}) <= 1
ReplacedOrRevokedOnce == Wins({"kurC1", "kurC2", "kurCopen", "rrC1", "rrC2", "rrRA"}) <= 1
Everyone == <>Over

EmitCase == (Emit /\ Over) => PrintT("@C" \o ToJson([msg |-> msg, ans |-> ans, world |-> world]))
=============================================================================
