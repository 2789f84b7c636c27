------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* The verdict of the suite on a server's answer.  The suite has several   *)
(* validators, which a test calls in any order on the same message; each   *)
(* looks at its part.  An answer is a conforming one with up to N defects. *)
(* The verdict may neither depend on the order, nor may looking change     *)
(* what the others see.                                                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, FiniteSetsExt, Sequences, TLC, Json

CONSTANTS N, Bodies, Firsts, Emit

Answers ==
    {a \in [body : Bodies, prot : {"sig-ec", "pbmac1"}] :
        /\ a.prot = "pbmac1" => a.body \notin {"kup", "rp", "rejRp"}
        /\ a.prot = "sig-ec" => a.body # "genp"}
(* an answer may as well conform and refuse: rejIp, rejRp, or grant something else: modsIp *)
Issuing == {"ip", "cp", "cpP10", "kup", "modsIp"}
Refusing == {"rejIp", "rejRp"}
Sig(a) == a.prot = "sig-ec"

Validators == <<"protection", "header", "algorithm", "signature", "certificates", "body", "content">>
Used(a) == {"protection", "header", "algorithm"}
           \cup (IF Sig(a) THEN {"signature"} \cup (IF a.body = "rejIp" THEN {} ELSE {"certificates"}) ELSE {})
           \cup (IF a.body \in Issuing \cup Refusing \cup {"rp", "pkiconf"} THEN {"body"} ELSE {})
           \cup (IF a.body \in Issuing THEN {"content", "certificates"} ELSE {})

Defects(v) ==
    CASE v = "protection"   -> {"flipped", "flippedLast", "otherKey", "changedAfter", "changedBody"}
      [] v = "header"       -> {"pvno1", "pvno4", "txMissing", "txShort", "txOther", "recipMissing", "recipOther", "recipShort",
                                "senderMissing", "senderShort", "timeLate", "timeEarly", "timeDay", "timeDayEarly", "fromOther", "kidMissing", "kidOther",
                                "recipLonger", "recipBit", "txLonger", "txBit", "fromPrefix", "kidLonger", "kidPrefix", "cwtPastLast", "icNotNullLast",
                                "icNotNull", "icWrongBody", "cwtPast", "cwtWithIc", "cwtGarbage", "cwtNoTime", "noProt",
                                "algOnly", "protOnly"}
      [] v = "algorithm"    -> {"algOther"}
      [] v = "signature"    -> {"certNotFirst", "noExtra"}
      [] v = "certificates" -> {"noChain"}
      [] v = "body"         -> {"reqId", "two", "rejectedWithCert", "grantedWithFail", "modsWithFail", "waiting", "noCert", "keyPresent", "caPubsOther",
                                "otherBody", "otherMac", "certInRefusal", "caPubsInRefusal"}
      [] v = "content"      -> {"certKey", "certSubject", "certSubjectPrefix", "certSubjectMore"}
All == UNION {Defects(Validators[i]) : i \in 1..Len(Validators)}

Fits(d, a) ==
    CASE d \in {"certNotFirst", "noExtra", "algOther"} -> Sig(a) /\ a.body # "pkiconf"
      [] d \in {"certInRefusal", "caPubsInRefusal"} -> a.body = "rejIp"
      [] d \in {"reqId", "two"} -> a.body \in Issuing \cup {"rejIp"}
      [] d \in {"noChain", "noCert", "keyPresent", "caPubsOther", "certKey", "certSubject", "certSubjectPrefix", "certSubjectMore",
             "rejectedWithCert"} ->
             a.body \in Issuing
      [] d \in {"icNotNull", "icNotNullLast", "cwtWithIc"} -> a.body \in Issuing
      [] d = "icWrongBody" -> a.body \notin Issuing \cup {"rejIp"}
      [] d = "grantedWithFail" -> a.body \in Issuing \cup {"rp", "rejRp"}
      [] d = "modsWithFail" -> a.body \in Issuing
      [] d = "waiting" -> a.body \in Issuing \cup Refusing \cup {"rp"}
      [] d = "changedBody" -> a.body \in Issuing /\ a.body # "cpP10"
      [] d = "otherBody" -> a.body = "pkiconf"
      [] d = "otherMac" -> a.body = "pkiconf" /\ ~Sig(a)
      [] OTHER -> TRUE

(* defects in the same place exclude each other *)
Groups == {{"txMissing", "txShort", "txOther", "txLonger", "txBit"},
           {"recipMissing", "recipOther", "recipShort", "recipLonger", "recipBit"}, {"senderMissing", "senderShort"},
           {"pvno1", "pvno4"}, {"timeLate", "timeEarly", "timeDay", "timeDayEarly", "cwtNoTime"}, {"fromOther", "fromPrefix"}, {"kidMissing", "kidOther", "kidLonger", "kidPrefix"},
           {"icNotNull", "icWrongBody", "cwtPast", "cwtPastLast", "icNotNullLast", "cwtWithIc", "cwtGarbage", "cwtNoTime"},
           {"flipped", "flippedLast", "otherKey", "changedBody", "changedAfter", "noProt", "algOnly", "protOnly", "algOther", "otherMac"},
           {"certNotFirst", "noExtra", "noChain", "certKey", "certSubject", "certSubjectPrefix", "certSubjectMore", "noCert", "keyPresent", "rejectedWithCert", "two", "certInRefusal"},
           {"rejectedWithCert", "grantedWithFail", "modsWithFail", "waiting", "noCert"}, {"otherBody", "icWrongBody"},
           {"changedBody", "noCert", "two", "rejectedWithCert", "grantedWithFail", "modsWithFail", "waiting", "reqId"}}
Compatible(ds) == \A g \in Groups : Cardinality(ds \cap g) <= 1

VARIABLES c, todo, verdict, state
vars == <<c, todo, verdict, state>>

Init ==
    /\ c \in {[a |-> a, defects |-> ds, first |-> f] : a \in Answers, ds \in UNION {kSubset(n, All) : n \in 0..N},
              f \in Firsts}
    /\ Compatible(c.defects) /\ \A d \in c.defects : Fits(d, c.a)
    /\ Validators[c.first] \in Used(c.a)
    /\ todo = [i \in 1..Len(Validators) |-> ((c.first + i - 2) % Len(Validators)) + 1]
    /\ verdict = "conforming" /\ state = "looking"

(* some defects keep the others from being seen: without protection there is nothing to verify *)
Look ==
    /\ state = "looking"
    /\ IF todo = <<>> THEN state' = "done" /\ UNCHANGED <<todo, verdict>>
       ELSE LET v == Validators[Head(todo)] IN
            /\ todo' = Tail(todo)
            /\ verdict' = IF v \in Used(c.a) /\ c.defects \cap Defects(v) # {} THEN "defective" ELSE verdict
            /\ UNCHANGED state
    /\ UNCHANGED c

Spec == Init /\ [][Look]_vars

----------------------------------------------------------------------------
(* every defect belongs to a validator the suite uses for the answer *)
Complete == state = "done" => (verdict = "defective" <=> c.defects # {})

EmitCase ==
    (Emit /\ state = "done") =>
        PrintT("@C" \o ToJson([a |-> c.a, d |-> c.defects, first |-> c.first,
                               order |-> [i \in 1..Len(Validators) |-> Validators[((c.first + i - 2) % Len(Validators)) + 1]],
                               conforming |-> (verdict = "conforming")]))
=============================================================================
