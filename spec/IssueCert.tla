----------------------------- MODULE IssueCert -----------------------------
(* The certificate the CA makes out of a request.  A request is a record of   *)
(* what its template asks for; the specification says whether the CA grants   *)
(* it and, when it does, every field of the certificate.  Times are days from *)
(* the time of issuing.                                                       *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Emit, Routes, MaxOdd

(* How the request reaches the CA, and which kind of key it certifies. *)
KeyKind(r) == CASE r \in {"ir", "cr", "kur", "p10cr", "ra"} -> "sign"
                [] r = "encrCert" -> "kem"
                [] r \in {"agreeMac", "agreeEncrCert"} -> "agree"
                [] r = "encKey" -> "kem"

Subjects == {"named", "null", "multi", "utf8"}
NoTime == 99999
T(b, a) == [nb |-> b, na |-> a]
Times == {T(NoTime, NoTime), T(-11, NoTime), T(-5, NoTime), T(0, NoTime), T(5, NoTime), T(11000, NoTime),
          T(NoTime, -1), T(NoTime, 4), T(NoTime, 8000), T(NoTime, 14000), T(-11, 30), T(-5, -1), T(-5, 30), T(5, 4), T(5, 5), T(5, 6),
          T(0, 30), T(0, 14000), T(11000, 14000), T(11000, 30)}

(* Extensions a template may ask for.  kuBad is a key usage the key cannot    *)
(* have, ekus an extended key usage, bcEE/bcCA basic constraints, bcBad a     *)
(* path length in an end entity's, ski/aki the right identifiers.             *)
ExtSets == {{}, {"ku"}, {"kuBad"}, {"eku"}, {"san"}, {"bcEE"}, {"bcCA"}, {"bcCAlen"}, {"bcBad"}, {"ski"}, {"skiBad"}, {"aki"}, {"akiBad"},
            {"unknown"}, {"ku", "eku"}, {"ku", "san", "bcEE"}, {"eku", "ski", "aki"}, {"ku", "eku", "san", "bcEE", "ski", "aki"},
            {"san", "unknown"}, {"kuCA", "bcEE"}, {"kuCA", "bcCA"}, {"kuCA"}, {"san", "skiBad"},
            {"ekuC"}, {"kuN"}, {"kuN", "ekuC", "bcEE"}, {"ku", "ekuC", "san", "bcEE"}}
(* These are asked for as critical; a name with C or N is the other choice.   *)
AskedCritical == {"ku", "kuCA", "ekuC", "bcEE", "bcCA", "bcCAlen"}
AlwaysCritical == {"kuN"}
IsSigning(r) == KeyKind(r) = "sign"


(* How many things are out of the ordinary, so that a run can choose by it. *)
Odd(r) == Cardinality({i \in 1..6 : CASE i = 1 -> r.subject # "named" [] i = 2 -> r.serial [] i = 3 -> r.version # "absent"
                                       [] i = 4 -> r.key # "ok" [] i = 5 -> r.time.nb # NoTime \/ r.time.na # NoTime
                                       [] i = 6 -> r.exts # {}})
VARIABLES req, done
vars == <<req, done>>

Requests == {r \in [route : Routes, subject : Subjects, serial : BOOLEAN, version : {"absent", "v3"}, key : {"ok", "weak"},
                    time : Times, exts : ExtSets] :
                /\ Odd(r) <= MaxOdd
                /\ (r.key = "weak") => IsSigning(r.route)
                /\ ("kuCA" \in r.exts) => IsSigning(r.route)
                (* an encrypted key is sent together with the name *)
                /\ (r.subject = "null") => r.route # "encKey"
                (* a CSR has no room for these *)
                /\ (r.route = "p10cr") => (~r.serial /\ r.version = "absent" /\ r.time.nb = NoTime /\ r.time.na = NoTime)}

------------------------------------------------------------------------------
NotBefore(t) == IF t.nb = NoTime THEN 0 ELSE t.nb
NotAfter(t) == IF t.na = NoTime THEN NotBefore(t) + 3650 ELSE t.na

BadTime(t) == \/ t.nb # NoTime /\ t.nb < -10
              \/ NotAfter(t) < NotBefore(t)
              \/ NotAfter(t) < 0
BadExts(r) == \/ r.exts \cap {"kuBad", "skiBad", "akiBad", "unknown", "bcBad"} # {}
              \/ {"kuCA", "bcEE"} \subseteq r.exts
BadSubject(r) == r.subject = "null" /\ "san" \notin r.exts

Refused(r) == r.serial \/ r.key = "weak" \/ BadTime(r.time) \/ BadExts(r) \/ BadSubject(r)

(* The extensions of the certificate: what was asked for, and the CA's own.   *)
Own == {"ski", "aki", "aia", "crldp", "idp"}
ExtsOf(r) == r.exts \cup Own
SanCritical(r) == r.subject = "null"
(* Whoever asks decides what is critical, except that a key usage always is,  *)
(* a name without a subject is, and that the CA's own extensions are not.     *)
Critical(r) == (r.exts \cap (AskedCritical \cup AlwaysCritical)) \cup (IF SanCritical(r) THEN {"san"} ELSE {})

Cert(r) == [subject |-> r.subject, key |-> "asked", issuer |-> "ca", signer |-> "ca", version |-> 3,
            nb |-> NotBefore(r.time), na |-> NotAfter(r.time), exts |-> ExtsOf(r), critical |-> Critical(r),
            (* a UTCTime has two digits for the year, so years from 2050 on need a GeneralizedTime *)
            nbLong |-> NotBefore(r.time) > 8700, naLong |-> NotAfter(r.time) > 8700]

Outcome(r) == IF Refused(r) THEN [granted |-> FALSE, fail |-> {"badCertTemplate"}] ELSE [granted |-> TRUE, cert |-> Cert(r)]

Init == req \in Requests /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED req
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Properties of the specification *)
NeverExpired == Outcome(req).granted => /\ Outcome(req).cert.na >= 0
                                        /\ Outcome(req).cert.na >= Outcome(req).cert.nb
                                        /\ Outcome(req).cert.nb >= -10
Named == Outcome(req).granted => (Outcome(req).cert.subject # "null" \/ "san" \in Outcome(req).cert.exts)
WithinRequest == Outcome(req).granted =>
    /\ req.time.nb # NoTime => Outcome(req).cert.nb = req.time.nb
    /\ req.time.na # NoTime => Outcome(req).cert.na = req.time.na
    /\ Outcome(req).cert.exts \ Own \subseteq req.exts
    /\ req.exts \subseteq Outcome(req).cert.exts
NoCertSignWithoutCA == Outcome(req).granted => ~({"kuCA", "bcEE"} \subseteq Outcome(req).cert.exts)

EmitCase == (Emit /\ done) => PrintT("@C" \o ToJson([r |-> req, o |-> Outcome(req), odd |-> Odd(req)]))
=============================================================================
