----------------------------- MODULE KeyReuse ------------------------------
(***************************************************************************)
(* Which public keys the Mock CA certifies again.  A composite key         *)
(* overlaps with its components and with every composite sharing one.      *)
(* `certs` is the sequence of issued certificates; a trusted RA revokes    *)
(* and revives them.  irAlt and crAlt are requests for a stranger, which   *)
(* an RA changed to the subject (regInfo, RFC 4211, 7.2).                  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS N, Keys, Subjects, ReqKinds, Emit

VARIABLES certs, act, rep
vars == <<certs, act, rep>>
View == certs

(* H1 = T1 + Q1, H2 = T2 + Q1 *)
Parts(k) == CASE k = "H1" -> {"T1", "Q1"}
              [] k = "H2" -> {"T2", "Q1"}
              [] OTHER    -> {k}
Overlap(a, b) == Parts(a) \cap Parts(b) # {}

Compromise == {"keyCompromise", "cACompromise", "aACompromise"}
Harmless   == {"superseded", "affiliationChanged"}

Init == /\ certs = <<>>
        /\ act = [op |-> "init"]
        /\ rep = [ok |-> TRUE]

Ids == 1..Len(certs)
Live(i) == TRUE      \* every certificate ever issued keeps its key reserved for its subject
InUse(k, s) == \E i \in Ids : certs[i].s = s /\ Overlap(k, certs[i].k)
Compromised(k) ==
    \E i \in Ids : certs[i].st = "REV" /\ certs[i].why \in Compromise /\ Overlap(k, certs[i].k)

Request(kind, k, s, impl) ==
    /\ Len(certs) < N
    /\ act' = [op |-> "request", kind |-> kind, k |-> k, s |-> s, impl |-> impl]
    /\ IF InUse(k, s) \/ Compromised(k)
       THEN rep' = [ok |-> FALSE] /\ UNCHANGED certs
       ELSE /\ rep' = [ok |-> TRUE]
            /\ certs' = Append(certs, [k |-> k, s |-> s, st |-> IF impl THEN "C" ELSE "NC", why |-> "-"])

(* The holder of certificate i updates it with key k; only traditional keys sign here. *)
Update(i, k, impl) ==
    /\ Len(certs) < N
    /\ certs[i].st \in {"C", "RVD"} /\ certs[i].k \in {"T1", "T2"}
    /\ act' = [op |-> "update", i |-> i, k |-> k, impl |-> impl]
    /\ IF InUse(k, certs[i].s) \/ Compromised(k)
       THEN rep' = [ok |-> FALSE] /\ UNCHANGED certs
       ELSE /\ rep' = [ok |-> TRUE]
            /\ certs' = Append([certs EXCEPT ![i].st = IF impl THEN "UPD" ELSE "UBNC"],
                               [k |-> k, s |-> certs[i].s, st |-> IF impl THEN "C" ELSE "NC", why |-> "-"])

Revoke(i, why) ==
    /\ certs[i].st \in {"C", "RVD"}
    /\ act' = [op |-> "revoke", i |-> i, why |-> why]
    /\ rep' = [ok |-> TRUE]
    /\ certs' = [certs EXCEPT ![i].st = "REV", ![i].why = why]

Revive(i) ==
    /\ certs[i].st = "REV"
    /\ act' = [op |-> "revive", i |-> i]
    /\ rep' = [ok |-> TRUE]
    /\ certs' = [certs EXCEPT ![i].st = "RVD", ![i].why = "-"]

Next ==
    \/ \E kd \in ReqKinds, k \in Keys, s \in Subjects, i \in BOOLEAN : Request(kd, k, s, i)
    \/ \E i \in Ids, k \in Keys, b \in BOOLEAN : Update(i, k, b)
    \/ \E i \in Ids, w \in Compromise \cup Harmless : Revoke(i, w)
    \/ \E i \in Ids : Revive(i)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* No key is ever certified twice for one subject ... *)
NoReuse == \A i, j \in Ids : i # j /\ certs[i].s = certs[j].s => ~Overlap(certs[i].k, certs[j].k)
(* ... and none while it counts as compromised. *)
NoCompromised ==
    [][Len(certs') > Len(certs) => ~Compromised(certs'[Len(certs')].k)]_vars
(* The rule refuses nothing else. *)
NoSpuriousRefusal ==
    [][~rep'.ok => \/ act'.op = "request" /\ (InUse(act'.k, act'.s) \/ Compromised(act'.k))
                   \/ act'.op = "update" /\ (InUse(act'.k, certs[act'.i].s) \/ Compromised(act'.k))]_vars

EmitEdge == Emit => PrintT("@E" \o ToJson([f |-> certs, a |-> act', r |-> rep', t |-> certs']))
=============================================================================
