----------------------------- MODULE TwoForms -----------------------------
(***************************************************************************)
(* One certificate kept in another form.  A paired certificate carries a   *)
(* second one as the differences between the two: what is derived from it  *)
(* is the second certificate, as it was issued.  A Sun-Hybrid certificate  *)
(* has four forms (the alternative key and the alternative signature, each *)
(* by value or by hash): walking between the forms loses nothing.          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS CaKeys, Keys, Emit, Depth

Exts == {"ku", "eku", "san"}
Forms == {"Form1", "Form2", "Form3", "Form4"}

VARIABLES kind, c, walk
vars == <<kind, c, walk>>

(* what the two requests ask for *)
Has == {"none", "base", "same", "other", "critical"}   \* nobody; the base only; both: same value, another value, another criticality
Pairs == {x \in [ca : CaKeys, delta : Keys, ku : Has, eku : Has, san : Has, ski : BOOLEAN, subject : {"same", "other"}, hash : {"sha256", "sha512"}] :
            Cardinality({e \in Exts : x[e] # "none"}) <= 2}

Init == \/ kind = "paired" /\ c \in Pairs /\ walk = <<>>
        \/ kind = "sun" /\ c \in [ca : CaKeys, delta : {k \in Keys : k # "ec"}, hash : {"sha256", "sha512"}] /\ walk \in {<<f>> : f \in Forms}

Convert ==
    /\ kind = "sun" /\ Len(walk) < Depth
    /\ \E f \in Forms : walk' = Append(walk, f)
    /\ UNCHANGED <<kind, c>>
Next == Convert \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The descriptor lists what differs: what the derived certificate has is  *)
(* the listed extension, or the base's.                                    *)
Listed(x) == {e \in Exts : x[e] \in {"other", "critical"}}
Derived(x, e) == IF e \in Listed(x) THEN x[e] ELSE IF x[e] = "same" THEN "same" ELSE "none"
Lossless == kind = "paired" => \A e \in Exts : Derived(c, e) = IF c[e] = "base" THEN "none" ELSE c[e]
(* The form depends on the last step only. *)
Forgets == kind = "sun" => walk[Len(walk)] \in Forms

EmitCase == Emit => PrintT("@C" \o ToJson([kind |-> kind, c |-> c, walk |-> walk]))
=============================================================================
