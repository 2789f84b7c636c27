----------------------------- MODULE SavedKey -----------------------------
(***************************************************************************)
(* Keys are written, kept, and read again; what is kept may be damaged, or *)
(* the password forgotten.  Reading gives the key that was written, or     *)
(* nothing: never another key, and never a key that does not fit the       *)
(* public key or the algorithm kept with it.                               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Kinds,
          SeedOnly,     \* one way to write the private key
          WithPublic,   \* never written without the public key
          Expanded,     \* a seed and what it expands to can be written together
          Emit

Forms == {"seed", "raw", "seed_and_raw"}
Boxes == {"file", "fileProtected", "der", "derPublic", "spki"}
Damages(b) ==
    CASE b = "file" -> {"none"}
      [] b = "fileProtected" -> {"none", "wrongPassword", "noPassword", "caseOfPassword"}
      [] b = "der" -> {"none", "short", "long", "empty", "version2", "otherAlgorithm", "mixed", "mixedSeed"}
      [] b = "derPublic" -> {"none", "short", "long", "empty", "version2", "otherAlgorithm", "publicShort", "publicLong",
                             "publicOther", "version0", "mixed", "mixedSeed"}
      [] b = "spki" -> {"none", "publicShort", "publicLong", "publicEmpty", "otherAlgorithm", "tail"}

VARIABLES c, kept, result
vars == <<c, kept, result>>

Cases == {x \in [kind : Kinds, form : Forms, box : Boxes, damage : UNION {Damages(b) : b \in Boxes}] :
            /\ x.damage \in Damages(x.box)
            /\ (x.kind \in SeedOnly \/ x.box = "spki") => x.form = "seed"
            /\ x.kind \in WithPublic => x.box # "der"
            /\ x.damage \in {"mixed", "mixedSeed"} => x.kind \in Expanded /\ x.form = "seed_and_raw"}

Init == c \in Cases /\ kept = "nothing" /\ result = "open"
Write == kept = "nothing" /\ kept' = "key" /\ UNCHANGED <<c, result>>
Damage ==
    /\ kept = "key"
    /\ kept' = IF c.damage = "none" THEN "intact" ELSE "damaged"
    /\ UNCHANGED <<c, result>>
Read ==
    /\ kept \in {"intact", "damaged"} /\ result = "open"
    /\ result' = IF kept = "intact" THEN "same" ELSE "refused"
    /\ UNCHANGED <<c, kept>>
Done == result # "open" /\ UNCHANGED vars
Next == Write \/ Damage \/ Read \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Faithful == result = "same" => c.damage = "none"
Kept == result = "refused" => c.damage # "none"

EmitCase == (Emit /\ result # "open") => PrintT("@C" \o ToJson([c |-> c, result |-> result]))
=============================================================================
