------------------------------ MODULE Controls -----------------------------
(***************************************************************************)
(* The controls of a certificate request (RFC 4211, 6): a registration     *)
(* token buys one certificate, an authenticator has to be the right one,   *)
(* an archived private key has to be the requested key's, a publication    *)
(* request has to make sense, and an update may name only the certificate  *)
(* it is signed with.  `used` is whether the token has bought a            *)
(* certificate, `open` whether the requests before this one left a         *)
(* certificate to be confirmed (its transaction is in use).                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Prots, Emit

Tokens   == {"none", "right", "wrong", "twice"}
Auths    == {"none", "right", "wrong", "twice"}
Archives == {"none", "flag", "right", "wrong"}
Pubs     == {"none", "please", "dont", "bad", "dontButWhere"}
Olds     == {"none", "right", "otherSerial", "otherIssuer"}
(* what else is wrong with the request *)
Faults   == {"-", "popo", "key", "tx", "prot", "id"}

VARIABLES used, open, bought, act, rep
vars == <<used, open, bought, act, rep>>
View == <<used, open>>

Plain(r) == r.arch = "none" /\ r.pub = "none" /\ r.auth \in {"none", "right"}

Requests ==
    {r \in [body : {"ir", "cr", "kur"}, prot : Prots, token : Tokens, auth : Auths, arch : Archives, pub : Pubs,
            old : Olds, fault : Faults, impl : BOOLEAN] :
       /\ r.body # "ir" => r.token = "none" /\ r.auth = "none"
       /\ r.body # "kur" => r.old = "none"
       /\ r.body = "kur" => r.prot = "sig-ec" /\ r.arch = "none" /\ r.pub = "none" /\ r.impl
       /\ r.fault # "-" => r.arch \in {"none", "right"} /\ r.pub \in {"none", "please"} /\ r.auth \in {"none", "right"}
                           /\ r.token \in {"none", "right"} /\ r.old \in {"none", "right"}
       /\ r.arch # "none" => r.pub \in {"none", "please", "bad"}
       /\ ~r.impl => Plain(r)}

(* why a request is refused; it may be told any of the reasons *)
Why(r) ==
    UNION {IF r.token \in {"wrong", "twice"} \/ (r.token = "right" /\ used) THEN {"badRequest"} ELSE {},
           IF r.auth \in {"wrong", "twice"} THEN {"badRequest"} ELSE {},
           IF r.arch = "wrong" THEN {"badCertTemplate"} ELSE {},
           IF r.pub \in {"bad", "dontButWhere"} THEN {"badDataFormat"} ELSE {},
           IF r.old \in {"otherSerial", "otherIssuer"} THEN {"badCertId"} ELSE {},
           CASE r.fault = "popo" -> {"badPOP"}
             [] r.fault = "key" -> {"badCertTemplate"}
             [] r.fault = "tx" -> IF open THEN {"transactionIdInUse"} ELSE {}
             [] r.fault = "prot" -> {"badMessageCheck"}
             [] r.fault = "id" -> {"badRequest", "badDataFormat", "badCertTemplate"}
             [] OTHER -> {}}

Init == used = FALSE /\ open = FALSE /\ bought = 0 /\ act = [op |-> "init"] /\ rep = [ok |-> TRUE, why |-> {}]

Request(r) ==
    /\ r.fault = "tx" => open
    /\ act' = [op |-> "request", r |-> r]
    /\ rep' = [ok |-> Why(r) = {}, why |-> Why(r)]
    /\ used' = (used \/ (Why(r) = {} /\ r.token = "right"))
    /\ bought' = IF Why(r) = {} /\ r.token = "right" THEN bought + 1 ELSE bought
    /\ open' = (open \/ (Why(r) = {} /\ ~r.impl))

Next == \E r \in Requests : Request(r)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The token buys at most one certificate, ... *)
Once == bought <= 1 /\ (used <=> bought = 1)
(* ... whoever has the right one gets it unless something else is wrong, ... *)
Honoured ==
    [][act'.r.token = "right" /\ ~used /\ ~rep'.ok => act'.r.fault # "-" \/ act'.r.auth \in {"wrong", "twice"}
        \/ act'.r.arch = "wrong" \/ act'.r.pub \in {"bad", "dontButWhere"}]_vars
(* ... and a refused request leaves everything as it was. *)
NoEffect == [][~rep'.ok => UNCHANGED <<used, open, bought>>]_vars

EmitEdge == Emit => PrintT("@E" \o ToJson([f |-> View, a |-> act', r |-> rep', t |-> View']))
=============================================================================
