----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The certificate life cycle of the Mock CA: enrolment (ir, cr, p10cr,    *)
(* kur), certificate confirmation, revocation, revival, the update time-   *)
(* out, and what a credential in each state may still be used for.         *)
(*                                                                         *)
(* One action is one request/response exchange with the CA: the CA is a    *)
(* sequential server, so the return of `process_normal_request` is the     *)
(* linearization point.  `act` and `rep` are observation variables (the    *)
(* last request and its answer); the VIEW of every configuration hides     *)
(* them, and EmitEdge prints every transition for the replay into the      *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS
    N,            \* number of certificates that may be issued
    Kinds,        \* enrolment bodies explored, subset of {"ir","cr","p10cr","kur"}
    ConfVariants, \* certConf variants explored, subset of AllVariants
    RevOps,       \* subset of {"revoke","revive"}
    Probes,       \* further bodies sent by a holder: subset of {"genm","reuse"}
    Emit          \* TRUE: print the transitions

Slots == 1..N
MAC   == 0                        \* a request protected with the shared secret
RA    == 9                        \* a trusted registration authority (only revokes and revives)
Protectors == {MAC} \cup Slots

VARIABLES
    st,    \* certificate state per slot
    tx,    \* state of the enrolment transaction of the slot: none, open, closed
    par,   \* protector of the enrolment request
    kind,  \* body of the enrolment request
    old,   \* TRUE: the update time-out of the (UBNC) certificate has passed
    act, rep

core == <<st, tx, par, kind, old>>
vars == <<st, tx, par, kind, old, act, rep>>
View == core

Status == {"none", "NC", "C", "REV", "RVD", "UPD", "UBNC"}

TypeOK ==
    /\ st \in [Slots -> Status]
    /\ tx \in [Slots -> {"none", "open", "closed"}]
    /\ par \in [Slots -> Protectors]
    /\ kind \in [Slots -> {"none", "new", "ir", "cr", "p10cr", "kur"}]
    /\ old \in [Slots -> BOOLEAN]

Init ==
    /\ st = [s \in Slots |-> "none"]
    /\ tx = [s \in Slots |-> "none"]
    /\ par = [s \in Slots |-> MAC]
    /\ kind = [s \in Slots |-> "none"]
    /\ old = [s \in Slots |-> FALSE]
    /\ act = [op |-> "init"]
    /\ rep = [ok |-> TRUE, fail |-> {}]

Accept     == [ok |-> TRUE,  fail |-> {}]
Deny(f)    == [ok |-> FALSE, fail |-> f]

----------------------------------------------------------------------------
(* What the holder of the certificate in slot p may still authenticate.    *)
(* The empty set means the request passes the gate.                        *)
Gate(p, body) ==
    IF p \in {MAC, RA} THEN {}
    ELSE CASE st[p] = "REV" /\ body # "rr"  -> {"certRevoked"}
           [] st[p] = "UPD" /\ body # "rr"  -> {"certRevoked"}
           [] st[p] = "UBNC" /\ body = "rr" -> {"badRequest"}
           [] st[p] = "UBNC" /\ body = "kur"      /\ ~old[p] -> {"badRequest"}
           [] st[p] = "UBNC" /\ body = "certConf" /\ old[p]  -> {"badRequest"}
           [] st[p] = "UBNC" /\ body \in {"new", "ir", "cr", "p10cr"} -> {"badRequest", "certRevoked"}
           [] st[p] = "UBNC" /\ body = "genm"     /\ ~old[p] -> {"certRevoked"}
           [] st[p] = "NC" /\ body # "certConf" -> {"notAuthorized"}
           [] OTHER -> {}

(* The certificates the CA considers issued, and those it lists as revoked. *)
IssuedStates  == {"C", "REV", "RVD", "UPD"}
CrlStates     == {"REV", "UPD", "UBNC"}
Issued  == {s \in Slots : st[s] \in IssuedStates}
OnCRL   == {s \in Slots : st[s] \in CrlStates}

----------------------------------------------------------------------------
Free == {s \in Slots : st[s] = "none"}
Next1 == CHOOSE s \in Free : \A u \in Free : s <= u

Same == UNCHANGED core

(* Enrolment of a fresh key: the next free slot.                            *)
Enrol(k, p, impl) ==
    /\ Free # {}
    /\ p # MAC => st[p] # "none"
    /\ LET s == Next1
           g == IF k = "kur" /\ p = MAC THEN {"wrongIntegrity"} ELSE Gate(p, k)
       IN /\ act' = [op |-> "enrol", k |-> k, p |-> p, impl |-> impl, s |-> s]
          /\ IF g # {}
             THEN rep' = Deny(g) /\ Same
             ELSE /\ rep' = Accept
                  /\ st' = [u \in Slots |->
                        IF u = s THEN (IF impl THEN "C" ELSE "NC")
                        ELSE IF k = "kur" /\ u = p THEN (IF impl THEN "UPD" ELSE "UBNC")
                        ELSE st[u]]
                  /\ tx' = [tx EXCEPT ![s] = IF impl THEN "closed" ELSE "open"]
                  /\ par' = [par EXCEPT ![s] = p]
                  /\ kind' = [kind EXCEPT ![s] = k]
                  /\ old' = [u \in Slots |-> IF k = "kur" /\ u = p THEN FALSE ELSE old[u]]

(* A new request (fresh key, MAC protected) that reuses the transactionID   *)
(* of the enrolment of slot s.                                              *)
Reuse(s) ==
    /\ "reuse" \in Probes
    /\ st[s] # "none"
    /\ act' = [op |-> "reuse", s |-> s]
    /\ rep' = Deny({"transactionIdInUse"})
    /\ Same

(* The certConf variants.  A variant is what the message changes compared   *)
(* with the certConf the client has to send for transaction s.              *)
GoodVariants   == {"ok", "okHashAlg"}    \* okHashAlg: pvno 3, sha256 named in hashAlg
RejectVariants == {"reject", "rejectBadHash"}
FailOf == [ badHash       |-> {"badCertId"},      \* certHash of nothing
            otherHash     |-> {"badCertId"},      \* certHash of another issued certificate
            badReqId      |-> {"badRequest"},
            noEntry       |-> {"badRequest"},
            twoEntries    |-> {"badRequest"},
            badStatus     |-> {"badRequest"},     \* neither accepted nor rejection
            acceptedFail  |-> {"badRequest"},     \* accepted, but with a failInfo
            emptyHash     |-> {"badCertId"},
            truncHash     |-> {"badCertId"},      \* the first half of the right hash
            wrongHashAlg  |-> {"badCertId"},      \* hashAlg names another algorithm
            hashAlgV2     |-> {"badCertId"},      \* hashAlg needs pvno 3
            badRecip      |-> {"badRecipientNonce"},
            missRecip     |-> {"badRecipientNonce"},
            oldSender     |-> {"badSenderNonce"}, \* the nonce of the request again
            missSender    |-> {"badSenderNonce"},
            shortSender   |-> {"badSenderNonce"},
            unknownTx     |-> {"badRequest"},
            missTx        |-> {"badRequest"},
            otherMacAlg   |-> {"badMessageCheck"},
            badProt       |-> {"badMessageCheck"}, \* protection does not verify
            noProt        |-> {"badMessageCheck"} ]
AllVariants == GoodVariants \cup RejectVariants \cup DOMAIN FailOf

ConfDeny(s, p, v) ==
    CASE v = "noProt"               -> FailOf[v]       \* no certificate comes with it
      [] Gate(p, "certConf") # {}   -> Gate(p, "certConf")
      [] v = "badProt"              -> FailOf[v]
      [] v = "unknownTx"            -> FailOf[v]
      [] v = "missTx"               -> FailOf[v]
      [] tx[s] = "closed"           -> {"certConfirmed"}
      [] v \in {"badRecip", "missRecip", "oldSender", "missSender", "shortSender"} -> FailOf[v]
      [] (p = MAC) # (par[s] = MAC) -> {"wrongIntegrity"}
      [] p # par[s]                 -> {"wrongAuthority"}
      [] v \in DOMAIN FailOf        -> FailOf[v]
      [] OTHER                      -> {}

Confirm(s, p, v) ==
    /\ tx[s] # "none"
    /\ p # MAC => st[p] # "none"
    /\ v = "otherMacAlg" => p = MAC /\ par[s] = MAC
    /\ v = "otherHash" => \E u \in Slots : u # s /\ st[u] # "none"
    /\ act' = [op |-> "conf", s |-> s, p |-> p, v |-> v]
    /\ LET g == ConfDeny(s, p, v) IN
       IF g # {}
       THEN rep' = Deny(g) /\ Same
       ELSE /\ rep' = Accept
            /\ tx' = [tx EXCEPT ![s] = "closed"]
            /\ IF v \in RejectVariants
               THEN UNCHANGED st
               ELSE st' = [u \in Slots |->
                        IF u = s THEN "C"
                        ELSE IF kind[s] = "kur" /\ u = par[s] THEN "UPD"
                        ELSE st[u]]
            /\ UNCHANGED <<par, kind, old>>

(* Only the holder of a certificate and a trusted RA may have it revoked or *)
(* revived (RFC 9483, 4.2 and 5.3.2).                                       *)
MayRevoke(p, t) == p \in {t, RA}
SignerState(p) == IF p = RA THEN "C" ELSE st[p]

(* rr of the certificate in slot t, signed by the holder of slot p.         *)
Revoke(p, t) ==
    /\ "revoke" \in RevOps
    /\ SignerState(p) # "none" /\ st[t] # "none"
    /\ act' = [op |-> "revoke", p |-> p, t |-> t]
    /\ LET g == CASE Gate(p, "rr") # {}          -> Gate(p, "rr")
                  [] t \in Issued /\ ~MayRevoke(p, t)     -> {"notAuthorized"}
                  [] SignerState(p) \in {"REV", "UPD"}    -> {"certRevoked"}
                  [] t \notin Issued             -> {"badCertId"}
                  [] st[t] = "REV"               -> {"certRevoked"}
                  [] st[t] = "UPD"               -> {"badMessageCheck"}
                  [] OTHER                       -> {}
       IN IF g # {}
          THEN rep' = Deny(g) /\ Same
          ELSE /\ rep' = Accept
               /\ st' = [st EXCEPT ![t] = "REV"]
               /\ UNCHANGED <<tx, par, kind, old>>

Revive(p, t) ==
    /\ "revive" \in RevOps
    /\ SignerState(p) # "none" /\ st[t] # "none"
    /\ act' = [op |-> "revive", p |-> p, t |-> t]
    /\ LET g == CASE Gate(p, "rr") # {}              -> Gate(p, "rr")
                  [] t \in Issued /\ ~MayRevoke(p, t) -> {"notAuthorized"}
                  [] SignerState(p) = "UPD"                   -> {"certRevoked"}
                  [] SignerState(p) = "REV" /\ t # p          -> {"badCertId"}
                  [] st[t] # "REV"                   -> {"badCertId"}
                  [] OTHER                           -> {}
       IN IF g # {}
          THEN rep' = Deny(g) /\ Same
          ELSE /\ rep' = Accept
               /\ st' = [st EXCEPT ![t] = "RVD"]
               /\ UNCHANGED <<tx, par, kind, old>>

(* A signed general message: only the gate matters.                         *)
Genm(p) ==
    /\ "genm" \in Probes
    /\ p # MAC /\ st[p] # "none"
    /\ act' = [op |-> "genm", p |-> p]
    /\ rep' = IF Gate(p, "genm") # {} THEN Deny(Gate(p, "genm")) ELSE Accept
    /\ Same

(* More than the update time-out passes.                                    *)
Tick ==
    /\ \E s \in Slots : st[s] = "UBNC" /\ ~old[s]
    /\ act' = [op |-> "tick"]
    /\ rep' = Accept
    /\ old' = [s \in Slots |-> old[s] \/ st[s] = "UBNC"]
    /\ UNCHANGED <<st, tx, par, kind>>

Next ==
    \/ \E k \in Kinds, p \in Protectors, i \in BOOLEAN : Enrol(k, p, i)
    \/ \E s \in Slots : Reuse(s)
    \/ \E s \in Slots, p \in Protectors, v \in ConfVariants : Confirm(s, p, v)
    \/ \E p \in Slots \cup {RA}, t \in Slots : Revoke(p, t) \/ Revive(p, t)
    \/ \E p \in Slots : Genm(p)
    \/ Tick

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the design                                                 *)

LegalStep(a, b) ==
    \/ a = b
    \/ a = "none" /\ b \in {"NC", "C"}
    \/ a = "NC"   /\ b = "C"
    \/ a \in {"C", "RVD"} /\ b \in {"REV", "UPD", "UBNC"}
    \/ a = "REV"  /\ b = "RVD"
    \/ a = "UBNC" /\ b = "UPD"

\* P01: every certificate only ever makes legal steps
LegalTransitions == [][\A s \in Slots : LegalStep(st[s], st'[s])]_vars
\* P01/P06: a refused request changes nothing
RefusalIsStutter == [][~rep'.ok => UNCHANGED core]_vars
\* P02: an open transaction is exactly an unconfirmed certificate; it becomes
\* confirmed only by a certConf (or by implicit confirmation), only once
OpenMeansNC == \A s \in Slots : tx[s] = "open" => st[s] = "NC"
ConfirmedByConf ==
    [][\A s \in Slots : st[s] = "NC" /\ st'[s] = "C" =>
          /\ act'.op = "conf" /\ act'.s = s /\ act'.v \in GoodVariants
          /\ act'.p = par[s] /\ tx[s] = "open"]_vars
ClosedForever == [][\A s \in Slots : tx[s] = "closed" => tx'[s] = "closed"]_vars
\* a certificate whose transaction was closed by a rejection is never confirmed
RejectedStaysNC ==
    [][\A s \in Slots : tx[s] = "closed" /\ st[s] = "NC" => st'[s] = "NC"]_vars
\* P03: no accepted request was authenticated by a revoked, updated or
\* unconfirmed certificate (a revoked one may only ask for its own revival)
NoDeadCredential ==
    [][rep'.ok /\ act'.op \in {"enrol", "genm", "revoke", "revive"} /\ act'.p \notin {MAC, RA} =>
          \/ st[act'.p] \in {"C", "RVD"}
          \/ st[act'.p] = "UBNC" /\ old[act'.p] /\ act'.op \in {"enrol", "genm"}
          \/ st[act'.p] = "REV" /\ act'.op = "revive" /\ act'.t = act'.p]_vars
\* P21: nobody else can have a certificate revoked or revived
OnlyHolderOrRA ==
    [][\A s \in Slots : st'[s] # st[s] /\ st'[s] \in {"REV", "RVD"} =>
          act'.op \in {"revoke", "revive"} /\ act'.t = s /\ act'.p \in {s, RA}]_vars
\* P01: an updated certificate has exactly the successor that replaced it
UpdHasHeir ==
    \A s \in Slots : st[s] = "UPD" =>
        \E u \in Slots : kind[u] = "kur" /\ par[u] = s /\ st[u] \notin {"none", "NC"}
\* P04: nothing unconfirmed is ever listed, and the CRL never lists a usable certificate
CrlSound == OnCRL \cap {s \in Slots : st[s] \in {"C", "RVD", "NC", "none"}} = {}

----------------------------------------------------------------------------
(* What the replay has to distinguish: the protector and the body of an     *)
(* enrolment only matter while its transaction is open.                     *)
Pend == [s \in Slots |-> IF tx[s] = "open" THEN <<par[s], kind[s] = "kur">> ELSE <<0, FALSE>>]
EView == <<st, tx, Pend, old>>
StateRec  == [st |-> st, tx |-> tx, pend |-> Pend, old |-> old]
(* What the revocation services publish about every slot.                   *)
Published == [crl  |-> [s \in Slots |-> st[s] \in CrlStates],
              ocsp |-> [s \in Slots |-> CASE st[s] \in CrlStates     -> "revoked"
                                          [] st[s] \in {"C", "RVD"}  -> "good"
                                          [] OTHER                    -> "none"],
              lists |-> [issued  |-> [s \in Slots |-> st[s] \in IssuedStates],
                         revoked |-> [s \in Slots |-> st[s] = "REV"],
                         updated |-> [s \in Slots |-> st[s] \in {"UPD", "UBNC"}]]]
\* P04: a certificate is published as revoked exactly while it may not be used, and the
\* certificates OCSP calls good are issued and not on the CRL
PublishedSound ==
    \A s \in Slots :
        /\ Published.crl[s] <=> Published.ocsp[s] = "revoked"
        /\ Published.ocsp[s] = "good" => Published.lists.issued[s] /\ ~Published.crl[s]
        /\ st[s] \in {"REV", "UPD"} => Published.crl[s]
        /\ Published.lists.revoked[s] => ~Published.lists.updated[s]

EmitEdge == Emit => PrintT("@E" \o ToJson([f |-> StateRec, a |-> act', r |-> rep', t |-> StateRec', pub |-> Published']))
=============================================================================
