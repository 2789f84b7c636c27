----------------------------- MODULE NestedConf -----------------------------
(***************************************************************************)
(* Certificate confirmations inside nested messages.                       *)
(*                                                                         *)
(* Every entry confirms the certificate of its own, earlier enrolment.     *)
(* A batch consists of confirmations only; one with a wrong protection     *)
(* stops it as a whole, everything else is answered entry by entry.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Emit

Enrolled == {"mac", "sig"}                                    \* the protection of the enrolment
Via      == {"plain", "added"}                                \* how the enrolment arrived
Prots    == {"none", "mac", "sig", "sig2", "badmac", "badsig"} \* sig2: by another holder
Whats    == {"good", "badHash", "badId", "badRecip", "rejected", "twice", "unknownTx"}

Entries == { e \in [enr : Enrolled, via : Via, prot : Prots, what : Whats] :
               /\ e.what # "good" => e.prot = e.enr
               /\ e.via = "added" => e.what = "good" }
Good == [enr |-> "mac", via |-> "plain", prot |-> "mac", what |-> "good"]
GoodSig == [Good EXCEPT !.enr = "sig", !.prot = "sig"]

Request == [request |-> TRUE]      \* a certificate request among the confirmations

VARIABLES case
vars == <<case>>

Bad(e) == e # Request /\ e.prot \in {"badmac", "badsig"}

Own(e) ==
    IF e.prot = "none" THEN {"badMessageCheck"}
    ELSE IF (e.prot = "mac") # (e.enr = "mac") THEN {"wrongIntegrity"}
    ELSE IF e.prot = "sig2" THEN {"wrongAuthority"}
    ELSE CASE e.what = "badHash" -> {"badCertId", "badMessageCheck"}
           [] e.what = "badId" -> {"badRequest", "badCertId"}
           [] e.what = "badRecip" -> {"badRecipientNonce"}
           [] e.what = "twice" -> {"certConfirmed"}
           [] e.what = "unknownTx" -> {"badRequest", "badCertId"}
           [] OTHER -> {}

Verdict(c) ==
    LET whole == (IF \E i \in DOMAIN c.es : Bad(c.es[i]) THEN {"badMessageCheck"} ELSE {})
                 \cup (IF c.kind = "batch" /\ (\E i \in DOMAIN c.es : c.es[i] = Request) THEN {"badRequest"} ELSE {})
    IN [whole |-> whole,
        own |-> IF whole # {} THEN <<>> ELSE [i \in DOMAIN c.es |-> Own(c.es[i])],
        confirmed |-> IF whole # {} THEN {} ELSE { i \in DOMAIN c.es : Own(c.es[i]) = {} /\ c.es[i].what # "rejected" }]

None == [kind |-> "none"]
Init == case = None
Next == /\ case = None
        /\ \/ \E e \in Entries : case' = [kind |-> "added", es |-> <<e>>]
           \/ \E e \in Entries, g \in {Good, GoodSig} :
                 case' \in {[kind |-> "batch", es |-> <<e, g>>], [kind |-> "batch", es |-> <<g, e>>]}
           \/ case' \in {[kind |-> "batch", es |-> <<Request, Good>>], [kind |-> "batch", es |-> <<Good, Request>>]}
           \/ \E e, f \in { x \in Entries : x.via = "plain" } : case' = [kind |-> "batch", es |-> <<e, Good, f>>]
Spec == Init /\ [][Next]_vars

(* A certificate is confirmed by its own requester's protected message only. *)
OwnerOnly == case.kind # "none" => \A i \in Verdict(case).confirmed : case.es[i].prot = case.es[i].enr
AllOrNothing == case.kind # "none" /\ (\E i \in DOMAIN case.es : Bad(case.es[i])) => Verdict(case).confirmed = {}

EmitCase == ~Emit \/ case = None \/ PrintT("@C" \o ToJson([c |-> case, v |-> Verdict(case)]))
=============================================================================
