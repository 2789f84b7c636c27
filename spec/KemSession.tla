----------------------------- MODULE KemSession ----------------------------
(***************************************************************************)
(* KEM based MAC protection (RFC 9810, 5.1.3.4).  A client sends a genm    *)
(* with its KEM certificate, the CA encapsulates a shared secret to it;    *)
(* the secret protects one request of the same transaction (and, after an  *)
(* explicit enrolment, its confirmation).                                  *)
(*                                                                         *)
(* A session (one per transaction) is bound to the certificate it was      *)
(* established with; the secret is good for one request the CA performed   *)
(* or looked at in earnest, and never after its certificate died.          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS S,        \* number of transactions
          Good,     \* KEM certificates the CA issued and the client confirmed
          Bad,      \* subset of {"unconfirmed", "foreign", "selfsigned"}
          Bodies,   \* subset of {"ir","cr","p10cr","kur","rr","genm"}
          Secrets,  \* subset of {"own","other","wrong","password"}
          Extras,   \* subset of {"none","own","other"}
          Emit

Sess == 1..S

VARIABLES st,      \* state of the certificate: C, REV, UPD, UBNC
          ses,     \* certificate of the session, or "none"
          used,    \* the secret was used
          open,    \* "no": nothing to confirm, "new"/"kur": an unconfirmed certificate

          act, rep

core == <<st, ses, used, open>>
vars == <<st, ses, used, open, act, rep>>
View == core

Init == /\ st = [c \in Good |-> "C"]
        /\ ses = [s \in Sess |-> "none"]
        /\ used = [s \in Sess |-> FALSE]
        /\ open = [s \in Sess |-> "no"]
        /\ act = [op |-> "init"]
        /\ rep = [ok |-> TRUE, fail |-> {}]

TypeOK == /\ st \in [Good -> {"C", "REV", "UPD", "UBNC"}]
          /\ ses \in [Sess -> Good \cup {"none"}]
          /\ used \in [Sess -> BOOLEAN]
          /\ open \in [Sess -> {"no", "new", "kur"}]

Same == UNCHANGED core

(* Why the certificate c may not authenticate a request with this body.    *)
Gate(c, body) ==
    IF c = "none" THEN {}
    ELSE CASE st[c] \in {"REV", "UPD"}            -> {"certRevoked"}
           [] st[c] = "UBNC" /\ body = "certConf" -> {}
           [] st[c] = "UBNC"                      -> {"badRequest", "certRevoked"}
           [] OTHER                               -> {}

Establish(s, c) ==
    /\ ses[s] = "none" \/ (used[s] /\ c = ses[s])     \* asking again must not bring the old secret back
    /\ act' = [op |-> "establish", s |-> s, c |-> c]
    /\ LET why == IF c \in Good THEN Gate(c, "genm")
                  ELSE IF c = "unconfirmed" THEN {"notAuthorized"} ELSE {"signerNotTrusted"}
       IN IF why # {} THEN rep' = [ok |-> FALSE, fail |-> why] /\ Same
          ELSE /\ rep' = [ok |-> TRUE, fail |-> {}]
               /\ ses' = [ses EXCEPT ![s] = c]
               /\ UNCHANGED <<st, used, open>>

Other(s) == CHOOSE x \in Sess : x # s
(* The certificate a request carries. *)
Carried(s, ex) ==
    CASE ex = "none" \/ ses[s] = "none" -> "none"
      [] ex = "own"                     -> ses[s]
      [] ex = "other"                   -> CHOOSE c \in Good : c # ses[s]

(* Everything that speaks against the authenticity of a message of session s *)
Doubts(s, body, sec, ex) ==
    (IF ses[s] = "none" \/ sec # "own" \/ (used[s] /\ body # "certConf") \/ Carried(s, ex) \notin {"none", ses[s]}
     THEN {"badMessageCheck"} ELSE {})
    \cup Gate(ses[s], body) \cup Gate(Carried(s, ex), body)

NeedsCert == {"kur", "rr"}

Use(s, body, sec, ex, impl) ==
    /\ impl = FALSE => body \in {"ir", "kur"}
    /\ ses[s] = "none" => ex = "none"
    /\ body \in NeedsCert => ses[s] # "none"
    /\ sec = "other" => S > 1 /\ ses[Other(s)] # "none"
    /\ body # "certConf" /\ sec # "password"     \* a password is another, valid, protection
    /\ act' = [op |-> "use", s |-> s, body |-> body, sec |-> sec, ex |-> ex, impl |-> impl]
    /\ LET d == Doubts(s, body, sec, ex)
       IN CASE d # {} -> rep' = [ok |-> FALSE, fail |-> d \cup (IF sec = "password" THEN {"badMessageCheck", "wrongIntegrity"} ELSE {})] /\ Same
            [] d = {} /\ body \in NeedsCert /\ ex = "none" ->
                    /\ rep' = [ok |-> FALSE, fail |-> {"badRequest"}]
                    /\ used' = [used EXCEPT ![s] = TRUE]
                    /\ UNCHANGED <<st, ses, open>>
            [] OTHER ->
                    /\ rep' = [ok |-> TRUE, fail |-> {}]
                    /\ used' = [used EXCEPT ![s] = body # "genm"]
                    /\ open' = [open EXCEPT ![s] = IF impl THEN "no" ELSE IF body = "kur" THEN "kur" ELSE "new"]
                    /\ st' = [st EXCEPT ![ses[s]] = CASE body = "rr" -> "REV"
                                                      [] body = "kur" -> IF impl THEN "UPD" ELSE "UBNC"
                                                      [] OTHER -> @]
                    /\ UNCHANGED ses

Confirm(s, sec, ex) ==
    /\ open[s] # "no"
    /\ sec = "other" => S > 1 /\ ses[Other(s)] # "none"
    /\ act' = [op |-> "conf", s |-> s, sec |-> sec, ex |-> ex]
    /\ LET d == Doubts(s, "certConf", sec, ex)
       IN IF d # {} THEN rep' = [ok |-> FALSE, fail |-> d \cup {"badMessageCheck", "wrongIntegrity"}] /\ Same
          ELSE /\ rep' = [ok |-> TRUE, fail |-> {}]
               /\ open' = [open EXCEPT ![s] = "no"]
               /\ st' = [st EXCEPT ![ses[s]] = IF open[s] = "kur" THEN "UPD" ELSE @]
               /\ UNCHANGED <<ses, used>>

(* A trusted RA revokes the certificate of a session. *)
Revoke(c) ==
    /\ st[c] = "C"
    /\ act' = [op |-> "revoke", c |-> c]
    /\ rep' = [ok |-> TRUE, fail |-> {}]
    /\ st' = [st EXCEPT ![c] = "REV"]
    /\ UNCHANGED <<ses, used, open>>

Next ==
    \/ \E s \in Sess, c \in Good \cup Bad : Establish(s, c)
    \/ \E s \in Sess, b \in Bodies, sec \in Secrets, ex \in Extras, i \in BOOLEAN : Use(s, b, sec, ex, i)
    \/ \E s \in Sess, sec \in Secrets, ex \in Extras : Confirm(s, sec, ex)
    \/ \E c \in Good : Revoke(c)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* One secret, one request. *)
SingleUse == [][\A s \in Sess : used[s] /\ act'.op = "use" /\ act'.s = s => ~rep'.ok]_vars
StaysUsed == [][\A s \in Sess : used[s] => used'[s]]_vars
(* Only confirmed certificates of the CA get a session ... *)
OnlyGood == [][act'.op = "establish" /\ rep'.ok => act'.c \in Good /\ st[act'.c] = "C"]_vars
(* ... the session never changes hands ... *)
Bound == [][\A s \in Sess : ses[s] # "none" => ses'[s] = ses[s]]_vars
(* ... and nothing is accepted with another secret, for another certificate, or after its death. *)
Authentic == [][rep'.ok /\ act'.op = "use" =>
                    /\ act'.sec = "own" /\ act'.ex # "other" /\ ses[act'.s] # "none"
                    /\ st[ses[act'.s]] = "C"]_vars
AuthenticConf == [][rep'.ok /\ act'.op = "conf" =>
                    /\ act'.sec = "own" /\ act'.ex # "other" /\ st[ses[act'.s]] \in {"C", "UBNC"}]_vars
(* A certificate changes only through its own session or the RA. *)
OnlyOwner == [][\A c \in Good : st'[c] # st[c] =>
                    \/ act'.op = "revoke" /\ act'.c = c
                    \/ act'.op \in {"use", "conf"} /\ ses[act'.s] = c]_vars

StateRec == [st |-> st, ses |-> ses, used |-> used, open |-> open]
EmitEdge == Emit => PrintT("@E" \o ToJson([f |-> StateRec, a |-> act', r |-> rep', t |-> StateRec']))
=============================================================================
