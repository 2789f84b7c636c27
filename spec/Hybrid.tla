------------------------------ MODULE Hybrid ------------------------------
(***************************************************************************)
(* A hybrid credential carries two proofs over one content: a classical    *)
(* one and a post-quantum one.  The owner made both.  An attacker may have *)
(* learnt one of the two keys; he changes the content, makes the proofs he *)
(* can make, copies, breaks or leaves out the others, and may replace what *)
(* the credential refers to (a key kept elsewhere, another certificate).   *)
(* The verifier accepts exactly if the owner's two keys made the two       *)
(* proofs over this content, and the post-quantum key is the one the       *)
(* credential binds.                                                       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Schemes,
          Nested,      \* the classical proof is over the post-quantum one, too
          Linked,      \* the post-quantum key is named by something outside the classical proof
          NoDrop,      \* the post-quantum proof cannot be left out of the syntax
          Joined,      \* both proofs are in one value, of which either can be cut off
          Emit

Halves == {"classical", "pq"}
Proof == {"owner", "copied", "attacker", "broken", "missing"}

VARIABLES scheme, knows, content, proof, link, verdict
vars == <<scheme, knows, content, proof, link, verdict>>

Init ==
    /\ scheme \in Schemes
    /\ knows \in SUBSET Halves
    /\ content = "owners" /\ link = "right" /\ verdict = "open"
    /\ proof = [h \in Halves |-> "owner"]

(* Can the half be a proof of the owner's key over what there is now? *)
Makes(h, cont, pq) ==
    \/ h \in knows
    \/ cont = "owners" /\ (h = "classical" /\ scheme \in Nested => pq = "owner")

Attack ==
    /\ verdict = "open" /\ content = "owners" /\ proof = [h \in Halves |-> "owner"]
    /\ content' \in {"owners", "changed"}
    /\ link' \in IF scheme \in Linked THEN {"right", "substituted"} ELSE {"right"}
    /\ \E pq, cl \in Proof :
         /\ pq = "owner" => Makes("pq", content', pq)
         /\ cl = "owner" => Makes("classical", content', pq)
         /\ pq = "copied" => content' = "changed"
         /\ cl = "copied" => content' = "changed" \/ (scheme \in Nested /\ pq # "owner")
         /\ pq = "missing" => scheme \notin NoDrop
         /\ cl = "missing" => scheme \in Joined /\ pq # "missing"
         /\ proof' = [h \in Halves |-> IF h = "pq" THEN pq ELSE cl]
    /\ verdict' = "presented"
    /\ UNCHANGED <<scheme, knows>>

Present == verdict = "open" /\ verdict' = "presented" /\ UNCHANGED <<scheme, knows, content, proof, link>>

Verify ==
    /\ verdict = "presented"
    /\ verdict' = IF proof = [h \in Halves |-> "owner"] /\ link = "right" THEN "accepted" ELSE "refused"
    /\ UNCHANGED <<scheme, knows, content, proof, link>>

Done == verdict \in {"accepted", "refused"} /\ UNCHANGED vars
Next == Attack \/ Present \/ Verify \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* One key is not enough. *)
BothKeys == verdict = "accepted" /\ content = "changed" => knows = Halves
NoDowngrade == verdict = "accepted" => proof["pq"] = "owner" /\ proof["classical"] = "owner"
Bound == verdict = "accepted" => link = "right"
Complete == verdict = "refused" => (\E h \in Halves : proof[h] # "owner") \/ link # "right"

EmitCase == (Emit /\ verdict \in {"accepted", "refused"}) =>
    PrintT("@C" \o ToJson([scheme |-> scheme, content |-> content, pq |-> proof["pq"], classical |-> proof["classical"],
                           link |-> link, verdict |-> verdict]))
=============================================================================
