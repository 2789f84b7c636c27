-------------------------------- MODULE Kga --------------------------------
(***************************************************************************)
(* Requests for a key the CA generates (RFC 9483, 4.1.6): who may ask for  *)
(* one, which requests are refused with which failInfo, what is delivered  *)
(* to whom, and what the delivered key can be used for.                    *)
(*                                                                         *)
(* One exchange in steps: request, receive (the requester or a stranger),  *)
(* confirm, use.  `known` are the parties that know the key.               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Bodies, Whos, Kinds, Deviations, Emit

Macs      == {"pbmac1", "password_based_mac", "hmac", "kmac"}
(* certificate holders: key, and what the certificate's keyUsage allows it besides signing *)
Transport == {"rsaEnc"}              \* RSA with keyEncipherment
Agreement == {"ecAgr"}               \* P-256 with keyAgreement
OtherCurve == {"p384"}               \* keyAgreement, but not on the curve of the CA's agreement key
NoReceipt == {"rsaNo", "ecNo", "rsaNone", "ecNone", "ed", "mldsa"}
MayReceive(w) == w \in Macs \cup Transport \cup Agreement

Unknown == {"dsa"}
Signing == {"none", "rsa", "ec", "p384", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65", "slh"}
Delivery(w) == CASE w \in Macs -> "pwri" [] w \in Transport -> "ktri" [] w \in Agreement -> "kari" [] OTHER -> "-"

(* The reasons to refuse a request; the CA gives (some of) those that apply. *)
Refusal(b, w, k, d) ==
    UNION {IF d = "badProt" THEN {"badMessageCheck"} ELSE {},
           IF b = "kur" /\ w \in Macs THEN {"wrongIntegrity"} ELSE {},
           IF d = "two" /\ b \in {"ir", "kur"} THEN {"badRequest"} ELSE {},
           IF d = "keySet" THEN {"badPOP"} ELSE {},
           IF d = "pvno2" THEN {"unsupportedVersion"} ELSE {},
           IF w \in NoReceipt THEN {"notAuthorized"} ELSE {},
           IF k \in Unknown THEN {"badAlg", "badCertTemplate"} ELSE {},
           IF w \in OtherCurve THEN {"any"} ELSE {}}

Possible(b, w, k, d) ==
    /\ d = "two" => b # "cr"            \* several entries are fine there
    /\ d = "keySet" => k = "ec"
    /\ d # "-" => k \in {"ec", "rsa"}

VARIABLES phase, c, known, cert, done
vars == <<phase, c, known, cert, done>>

Init ==
    /\ phase = "start"
    /\ c \in {[body |-> b, who |-> w, kind |-> k, dev |-> d, impl |-> i] :
              b \in Bodies, w \in Whos, k \in Kinds, d \in Deviations, i \in BOOLEAN}
    /\ Possible(c.body, c.who, c.kind, c.dev)
    /\ known = {} /\ cert = "none" /\ done = <<>>

R == Refusal(c.body, c.who, c.kind, c.dev)

Request ==
    /\ phase = "start"
    /\ IF R # {}
       THEN phase' = "refused" /\ UNCHANGED <<cert, known>>
       ELSE /\ phase' = "sent" /\ known' = {"ca"}
            /\ cert' = IF c.impl THEN "C" ELSE "NC"
    /\ done' = Append(done, "request")
    /\ UNCHANGED c

Receive(p) ==
    /\ phase = "sent" /\ p \notin known
    /\ ~\E i \in 1..Len(done) : done[i] = p
    /\ known' = IF p = "requester" THEN known \cup {p} ELSE known
    /\ done' = Append(done, p)
    /\ phase' = IF p = "requester" THEN "received" ELSE phase
    /\ UNCHANGED <<c, cert>>

Confirm ==
    /\ phase = "received" /\ cert = "NC"
    /\ cert' = "C" /\ done' = Append(done, "confirm")
    /\ UNCHANGED <<phase, c, known>>

Use ==
    /\ phase = "received" /\ cert = "C"
    /\ phase' = IF c.kind \in Signing THEN "used" ELSE "end"
    /\ done' = IF c.kind \in Signing THEN Append(done, "use") ELSE done
    /\ UNCHANGED <<c, known, cert>>

Next == Request \/ Receive("stranger") \/ (("stranger" \in {done[i] : i \in 1..Len(done)}) /\ Receive("requester"))
        \/ Confirm \/ Use
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Nobody but the CA and the requester ever knows the key ... *)
Secret == known \subseteq {"ca", "requester"}
(* ... it is certified only with its receipt arranged for, *)
Deliverable == cert # "none" => MayReceive(c.who) /\ c.dev = "-" /\ Delivery(c.who) # "-"
(* and a refused request has no effect. *)
NoEffect == phase = "refused" => cert = "none" /\ known = {}
(* Whatever is allowed is granted. *)
Granted == phase = "refused" => R # {}

Final == phase \in {"refused", "used", "end"}
EmitCase ==
    (Emit /\ Final) =>
        PrintT("@C" \o ToJson([c |-> c, refuse |-> R, by |-> Delivery(c.who), steps |-> done, cert |-> cert]))
=============================================================================
