------------------------------- MODULE Trust -------------------------------
(***************************************************************************)
(* Which signers of requests are trusted.  A signer's certificate is at    *)
(* position 0 of a chain, positions 1..depth are intermediate CAs, and     *)
(* position depth+1 is the root, the Mock CA's own certificate.  A chain   *)
(* may have defects, each of which is a kind and a position.               *)
(*                                                                         *)
(* The rule is RFC 5280, 6.1: every certificate is signed by the next and  *)
(* valid now, every issuer is a CA that may sign certificates, path length *)
(* constraints hold and the end of the chain is a trust anchor; and the    *)
(* signer may sign messages.  It does not depend on the algorithm of the   *)
(* signer's key, on the order in which the certificates are sent, or on    *)
(* unrelated certificates among them.                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Algs, MaxDepth, MaxDefects, Emit

(* rr asks for the revocation of somebody else's certificate. *)
Bodies == {"ir", "p10cr", "genm", "rr"}
Orders == {"normal", "reversed", "junk"}

LeafKinds  == {"badSig", "expired", "future", "kuOther", "noKU"}
InterKinds == {"badSig", "expired", "future", "notCA", "noBC", "noCertSign", "noKU", "pathlen0", "missing"}
RootKinds  == {"missing", "impostor", "foreign"}

Defects(d) == (LeafKinds \X {0}) \cup (InterKinds \X (1..d)) \cup (RootKinds \X {d + 1})

(* Kinds that cannot be combined at one position. *)
Compatible(D) == \A x, y \in D : x = y \/ x[2] # y[2] \/
    /\ x[1] # "missing" /\ y[1] # "missing"
    /\ ~({x[1], y[1]} \subseteq {"expired", "future"})
    /\ ~({x[1], y[1]} \subseteq {"kuOther", "noKU", "noCertSign"})
    /\ ~({x[1], y[1]} \subseteq {"notCA", "noBC", "pathlen0"})
    /\ ~({x[1], y[1]} \subseteq RootKinds)

VARIABLES body, alg, depth, defects, order
vars == <<body, alg, depth, defects, order>>

(* pathlen0 allows no CA below it: it matters from position 2 on. *)
Harmless(x) == x[1] = "noKU" \/ (x[1] = "pathlen0" /\ x[2] = 1)
Fatal(D) == {x \in D : ~Harmless(x)}

Trusted(D) == Fatal(D) = {}
Fail(D) == IF Trusted(D) THEN {}
           ELSE IF \A x \in Fatal(D) : x[1] = "kuOther" THEN {"notAuthorized"}
           ELSE {"signerNotTrusted", "badMessageCheck"} \cup (IF \E x \in D : x[1] = "kuOther" THEN {"notAuthorized"} ELSE {})

Granted == Trusted(defects) /\ body # "rr"
Refusal == IF body = "rr" THEN Fail(defects) \cup {"notAuthorized"} ELSE Fail(defects)

Init == /\ body \in Bodies /\ alg \in Algs /\ depth \in 0..MaxDepth /\ order \in Orders
        /\ defects \in {D \in ({{}} \cup {{x, y} : x, y \in Defects(depth)}) : Cardinality(D) <= MaxDefects /\ Compatible(D)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

ADefectNeverHelps == \A x \in defects : Trusted(defects) => Trusted(defects \ {x})
OnlyTheRootIsTrusted == Trusted(defects) => \A x \in defects : x[2] # depth + 1

EmitCase == ~Emit \/ PrintT("@C" \o ToJson([body |-> body, alg |-> alg, depth |-> depth, defects |-> defects, order |-> order,
                                            trusted |-> Granted, fail |-> Refusal]))
=============================================================================
