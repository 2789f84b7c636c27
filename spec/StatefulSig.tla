---------------------------- MODULE StatefulSig ----------------------------
(***************************************************************************)
(* Stateful hash-based signatures: every signature of a key carries an     *)
(* index, and a key that signs twice with one index gives itself away.     *)
(* The CA therefore accepts an index at most once per key, whatever        *)
(* certificate of the key, whatever body, and whether the index was seen   *)
(* in the protection of a request (even of one whose signature was wrong)  *)
(* or in a proof of possession.                                            *)
(*                                                                         *)
(* The key K has a certificate A from the start (its proof of possession   *)
(* used index 1) and gets a certificate B for another subject.  X is a     *)
(* certificate of the CA for a stateful key this CA never looked after.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS N,        \* number of indices
          Bodies,   \* what is signed
          Track,    \* remember which body used an index up, and use it again only for some requests
          Emit

VARIABLES hist,     \* what the indices seen so far were used for: "ok", "bad" (wrong signature), "popo"
          a,        \* certificate A: "good", "gone" (revoked or updated)
          b,        \* certificate B: "none", "pending" (waiting for a confirmation), "good"
          open,     \* an enrolment requested by A waits for its confirmation

          act, rep

core == <<hist, a, b, open>>
vars == <<hist, a, b, open, act, rep>>
View == core

Init == /\ hist = <<"popo">>
        /\ a = "good" /\ b = "none" /\ open = FALSE
        /\ act = [op |-> "init"]
        /\ rep = [ok |-> TRUE, fail |-> {}]

TypeOK == /\ hist \in Seq({"ok", "bad", "popo"} \cup (IF Track THEN Bodies ELSE {})) /\ Len(hist) <= N
          /\ a \in {"good", "gone"} /\ b \in {"none", "pending", "good", "gone"} /\ open \in BOOLEAN

Used(i) == i <= Len(hist)
Indices == 1..(Len(hist) + 1)
Note(x) == hist' = Append(hist, x)
As(body, x) == IF Track THEN body ELSE x

Issued(c) == CASE c = "A" -> a = "good" [] c = "B" -> b = "good" [] OTHER -> TRUE

Refuse(f) == rep' = [ok |-> FALSE, fail |-> f]
Accept == rep' = [ok |-> TRUE, fail |-> {}]

(* A request signed with index i of the key of certificate c.              *)
Sign(c, body, i, sig) ==
    /\ Issued(c)
    /\ i <= N
    /\ body = "certConf" => open /\ c = "A"
    /\ c = "X" => i = Len(hist) + 1
    /\ act' = [op |-> "sign", c |-> c, body |-> body, i |-> i, sig |-> sig]
    /\ IF c = "X" \/ Used(i) \/ sig # "good"
       THEN /\ Refuse({"badMessageCheck"})
            /\ IF c # "X" /\ ~Used(i) /\ sig = "bad" THEN Note(As(body, "bad")) ELSE UNCHANGED hist
            /\ UNCHANGED <<a, b, open>>
       ELSE /\ Accept
            /\ Note(As(body, "ok"))
            /\ open' = (CASE body = "cr-open" -> TRUE [] body = "certConf" -> FALSE [] OTHER -> open)
            /\ a' = IF c = "A" /\ body \in {"kur", "rr"} THEN "gone" ELSE a
            /\ b' = IF c = "B" /\ body \in {"kur", "rr"} THEN "gone" ELSE b

(* Somebody enrols the key K for the second subject; possession is proven  *)
(* by a signature with index i.                                            *)
Enrol(body, i, impl) ==
    /\ b = "none"
    /\ i <= N
    /\ act' = [op |-> "enrol", body |-> body, i |-> i, impl |-> impl]
    /\ IF Used(i) THEN Refuse({"badPOP"}) /\ UNCHANGED core
       ELSE /\ Accept
            /\ Note("popo")
            /\ b' = IF impl THEN "good" ELSE "pending"
            /\ UNCHANGED <<a, open>>

ConfirmB ==
    /\ b = "pending"
    /\ act' = [op |-> "confirm"]
    /\ Accept
    /\ b' = "good"
    /\ UNCHANGED <<hist, a, open>>

Next == \/ \E c \in {"A", "B", "X"}, body \in Bodies, i \in Indices, sig \in {"good", "bad", "malformed"} :
               /\ body = "cr-open" => ~open
               /\ Track => c = "A" /\ sig = "good" /\ (Used(i) => body \in {"cr", "genm"})
               /\ Sign(c, body, i, sig)
        \/ \E body \in {"ir", "p10cr"}, i \in Indices, impl \in BOOLEAN : Enrol(body, i, impl)
        \/ ConfirmB

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* No index is accepted a second time. *)
NoReuse == [][rep'.ok /\ act'.op \in {"sign", "enrol"} => act'.i = Len(hist) + 1 /\ Len(hist') = act'.i]_vars
(* What was seen is never forgotten. *)
Remembers == [][SubSeq(hist', 1, Len(hist)) = hist]_vars
(* An index with a wrong signature is as good as used. *)
Burnt == [][act'.op = "sign" /\ act'.sig = "bad" /\ act'.c # "X" => act'.i <= Len(hist')]_vars
RefusedInert == [][~rep'.ok => UNCHANGED <<a, b, open>>]_vars
-----------------------------------------------------------------------------
EmitEdge == ~Emit \/ PrintT("@E" \o ToJson([f |-> [hist |-> hist, a |-> a, b |-> b, open |-> open],
                                              t |-> [hist |-> hist', a |-> a', b |-> b', open |-> open'],
                                              a |-> act', r |-> rep']))
=============================================================================
