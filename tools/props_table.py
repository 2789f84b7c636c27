P("P01", "A certificate only makes legal life-cycle steps; refused requests change none",
  "Every certificate the Mock CA issues starts unconfirmed, or confirmed at once when implicit confirmation was requested; "
  "it becomes confirmed only through the confirmation of its own enrolment, and afterwards only steps between confirmed, "
  "revoked, revived, update-pending and updated that the accepted request asks for. A confirmed update retires exactly the "
  "certificate that authenticated it. A request the CA refuses leaves every certificate's state as it was.",
  ["histories"], "all sequences of enrolments (ir, cr, p10cr, kur), confirmations, rejections, revocations, revivals and time-outs "
  "over up to 3 (thorough: 4) certificates, any holder signing any request",
  "The tests run single exchanges on fresh handlers; the claim is about every order of requests over several certificates.",
  ["mock_ca/ca_handler.py", "mock_ca/mock_fun.py", "mock_ca/cert_req_handler.py", "mock_ca/rev_handler.py",
   "mock_ca/cert_conf_handler.py"],
  [("certificate states and lists of the CA", "mock_ca/mock_fun.py CertRevStateDB / mock_ca/db_config_vars"),
   ("request dispatch", "mock_ca/ca_handler.py CAHandler.process_normal_request")],
  TLC_REPLAY,
  "Exhaustive over the bounded transition graph of spec/Lifecycle.tla; in quick every state-changing transition and two of "
  "every class of the refused ones are replayed. Assumes sequential request handling.",
  state=[("state of every issued certificate", "unconfirmed, confirmed, revoked, revived, update pending, updated")])

P("P02", "Only the right certConf of an open transaction confirms, exactly once",
  "A certificate is confirmed only by a certConf of its still open transaction that is protected by the enrolment's "
  "protector, carries the expected nonces, names certReqId 0 with the right certificate hash and reports status accepted; "
  "a reported rejection closes the transaction without confirming. Every other certConf is refused with the fitting failInfo "
  "and changes nothing, and a transactionID in use cannot start another enrolment.",
  ["histories", "inputs"], "25 certConf variants x every protector x every state of 2 (thorough: 3) enrolments of all four kinds",
  "The tests send a few bad certConf messages; not every variant in every state of several interleaved transactions.",
  ["mock_ca/cert_conf_handler.py", "mock_ca/ca_handler.py", "resources/ca_ra_utils.py", "mock_ca/mock_fun.py"],
  [("certConf validation", "mock_ca/cert_conf_handler.py CertConfHandler.process_cert_conf"),
   ("entry validation", "resources/ca_ra_utils.py build_pki_conf_from_cert_conf")],
  TLC_REPLAY, "Exhaustive over the bounded graph; answers are compared in body, status and failInfo, states after every exchange.",
  state=[("transaction", "none, open (waiting for certConf), closed")])

P("P03", "Revoked, updated or unconfirmed credentials authenticate nothing",
  "A request signed with a certificate that is revoked, updated or unconfirmed is refused with a fitting failInfo and has no effect, "
  "whatever its body; an unconfirmed certificate may only confirm itself, and a revoked one may only ask for its own revival. "
  "A certificate whose update is pending may only confirm that update, and is usable again for enrolling once the update timed out.",
  ["histories"], "every body (ir, cr, p10cr, kur, certConf, rr, revival, genm) signed by every certificate of every reachable "
  "combination of states of 3 certificates, before and after the update time-out",
  "The tests cover a few state/body pairs with hand-made states.",
  ["mock_ca/ca_handler.py", "mock_ca/rev_handler.py", "mock_ca/cert_req_handler.py", "mock_ca/cert_conf_handler.py"],
  [("credential gate", "mock_ca/ca_handler.py CAHandler.process_normal_request"),
   ("revocation requests", "mock_ca/rev_handler.py RevocationHandler")],
  TLC_REPLAY, "Exhaustive over the bounded graph in thorough; in quick two transitions of every class of request x states.")

P("P04", "CRL, OCSP and the CA's lists agree with the history of accepted requests",
  "After every exchange the CRL (from the CRL endpoint and from a currentCRL general message) lists exactly the certificates "
  "that are revoked, updated or being updated, OCSP answers revoked for exactly these and good for every other confirmed certificate, "
  "and the CA's issued, revoked and updated lists match. The CRL number never decreases and increases whenever the published content "
  "changes, and CRL and OCSP answers are signed by the CA.",
  ["histories"], "after every transition of the life-cycle graph over 3 certificates",
  "The tests look at CRL or OCSP after one revocation; consistency across histories is not observed.",
  ["mock_ca/mock_fun.py", "mock_ca/ca_handler.py", "resources/certbuildutils.py", "mock_ca/general_msg_handler.py"],
  [("CRL", "mock_ca/mock_fun.py CertRevStateDB CRL generation; mock_ca/ca_handler.py get_current_crl"),
   ("OCSP", "mock_ca/ca_handler.py OCSP response")],
  TLC_REPLAY, "What is published is compared after every replayed transition with the specification's Published operator.")

P("P05", "No key is certified twice for a subject, and no compromised key at all",
  "The CA never issues a certificate whose public key, or any component of a composite key, is already certified for the same "
  "subject, in whatever state that certificate is, nor one that overlaps with a key of a certificate currently revoked as compromised, "
  "for any subject. It refuses with badCertTemplate, issues nothing, and refuses no other request for this reason.",
  ["histories", "inputs"], "all histories of enrolments, updates, revocations with compromise and harmless reasons and revivals over "
  "two subjects and traditional keys (3 certificates) or a family of overlapping composite keys (2 certificates)",
  "The tests reuse one key once.",
  ["mock_ca/mock_fun.py", "mock_ca/cert_req_handler.py", "mock_ca/ca_handler.py"],
  [("key lookup", "mock_ca/mock_fun.py contains_pub_key / is_key_compromised"),
   ("request processing", "mock_ca/cert_req_handler.py")],
  TLC_REPLAY, "Quick: one transition of every class of (requested key, subject, overlapping issued certificates); thorough: more of each.")

P("P11", "Every answer belongs to its request and is protected the way the request was",
  "Every answer of the Mock CA, regular or error, echoes the request's transactionID, carries the request's senderNonce as recipNonce, "
  "a fresh 16 byte senderNonce and a messageTime; regular answers echo the version and name the requester as recipient. "
  "The answer to a request with a MAC is protected with the shared secret, every other answer with the CA's signature, and verifies.",
  ["inputs"], "6 bodies x 12 protections (5 MACs, 7 signature algorithms) x every single header or protection defect",
  "Tests look at a few answers, mostly of accepted requests; error answers and odd headers are hardly looked at.",
  ["resources/ca_ra_utils.py", "mock_ca/ca_handler.py", "mock_ca/prot_handler.py", "resources/cmputils.py"],
  [("header of answers", "resources/ca_ra_utils.py set_ca_header_fields"),
   ("protection of answers", "mock_ca/prot_handler.py ProtectionHandler.protect_pkimessage")],
  TABLE, "Quick: all defects with one MAC and one signature algorithm, a seeded sample of the others; thorough: all. Answers are verified "
  "with the shared secret or with the CA's certificate directly.")

P("P16", "A request with a bad header or protection is refused and has no effect",
  "A request whose version, transactionID, nonces, time, sender, senderKID, implicit confirmation entry, protection, protection "
  "algorithm, key or certificates are missing or wrong is refused with a fitting failInfo and issues, revokes and updates nothing; "
  "a second defect never turns a refusal into an acceptance, and a request without a defect is accepted. "
  "Key updates and revocations protected with a MAC and everything unprotected but general messages are refused.",
  ["inputs"], "6 bodies x 12 protections x every set of at most two of 29 defects",
  "Tests send single defects in few bodies; combinations and the absence of side effects are not covered.",
  ["mock_ca/ca_handler.py", "mock_ca/prot_handler.py", "resources/checkutils.py", "resources/protectionutils.py", "resources/ca_ra_utils.py"],
  [("header checks", "mock_ca/cert_req_handler.py validate_header; resources/checkutils.py"),
   ("protection checks", "mock_ca/prot_handler.py ProtectionHandler.validate_protection")],
  TABLE, "Quick: every single defect with one MAC and one signature algorithm, a seeded sample of other algorithms and of pairs; thorough: all.")

P("P12", "No certificate without proof of possession of its key",
  "A certificate is issued for a key only after a signature by that key over exactly this request, a key-agreement MAC or the private key "
  "encrypted to the CA, or the assertion of a trusted RA; or it is delivered encrypted so that only the holder of the key can read it, "
  "and stays unconfirmed. Every other request is refused, with badPOP for a wrong signature or MAC, and issues nothing; "
  "every valid proof is accepted.",
  ["inputs"], "4 bodies x 3 protections x 12 kinds of key x 20 kinds of valid, invalid, mismatched and missing proof",
  "The tests try single proofs for few key types; which proof counts for which key in which body is not covered.",
  ["resources/ca_ra_utils.py", "resources/verifyingutils.py", "resources/extra_issuing_logic.py", "mock_ca/cert_req_handler.py"],
  [("proof of possession", "resources/ca_ra_utils.py verify_popo_for_cert_request"),
   ("encrypted certificates", "resources/ca_ra_utils.py / extra_issuing_logic.py")],
  TABLE, "Quick: a seeded sample of 400 cases; thorough: all about 1000. Encrypted certificates are decrypted with the right and with a wrong key.")

P("P06", "Whatever arrives is answered, and a refused request has no effect",
  "The CA answers every request, however malformed, with exactly one CMP message: a regular response, a rejection or an error, never a "
  "crash or an empty answer. A request that is not granted issues, confirms, revokes and updates nothing and leaves no trace: "
  "the same requester's correct request is granted afterwards. A granted request has exactly its own effect.",
  ["inputs", "histories"], "7 bodies x 2 protections x 13 parts of the message x 12 kinds of damage, each damaged message authentic "
  "(protected by its sender after the damage), followed by the intact request",
  "Tests send a few hand-made defects and do not look at what is left behind.",
  ["mock_ca/ca_handler.py", "mock_ca/cert_req_handler.py", "mock_ca/cert_conf_handler.py", "mock_ca/rev_handler.py", "resources/cmputils.py"],
  [("answering", "mock_ca/ca_handler.py handle_issuing / process_normal_request"),
   ("decoding", "resources/cmputils.py parse_pkimessage")],
  TABLE, "Quick: one place per sampled case; thorough: up to 12 places per case. Through the HTTP route of the CA (test client).")

P("P13", "A message changed on the way is refused, and the refusal helps nobody",
  "A protected request whose header, body or protection was changed in any way that changes its meaning after it was protected is refused "
  "and has no effect, and the original is granted afterwards; changes of what is not protected have no other effect than the original. "
  "No answer discloses the shared secret or the MAC the changed request should have had.",
  ["inputs"], "7 bodies x 12 protections (5 MACs, 7 signature algorithms) x 15 parts x 12 kinds of damage, including parts of other messages",
  "Tests flip the protection value itself.",
  ["resources/protectionutils.py", "mock_ca/prot_handler.py", "mock_ca/ca_handler.py", "resources/verifyingutils.py"],
  [("verification", "resources/protectionutils.py verify_pkimessage_protection; mock_ca/prot_handler.py validate_protection")],
  TABLE, "Quick: one place for a seeded half of the cases; thorough: up to 12 places per case and SLH-DSA.")

P("P15", "A message with several certificate requests is granted or refused as a whole",
  "Every request of a granted message gets one certificate, under its certReqId, for its key and its subject. "
  "If the identifiers are not exactly the numbers from 0, one proof of possession is wrong, a key is requested twice for a subject, or an "
  "initial request has several entries, the whole message is refused with a fitting failInfo and nothing is issued.",
  ["inputs"], "all messages with 1 or 2 entries over 4 ids x 2 keys x 2 subjects x right or wrong proof, and 3 entries with 10 orders of ids",
  "Tests send messages with one entry, and a few with two.",
  ["mock_ca/cert_req_handler.py", "resources/ca_ra_utils.py", "resources/cmputils.py"],
  [("identifiers", "resources/cmputils.py validate_cert_req_id_nums"), ("issuing", "resources/ca_ra_utils.py build_cp_cmp_message")],
  TABLE, "Quick: every granted message and a seeded sample of about 500 others; thorough: all.")

P("P07", "A KEM shared secret protects one request of one certificate's holder",
  "Only a confirmed, usable KEM certificate the CA issued obtains a shared secret, for one transaction. The secret authenticates at most one "
  "performed request of that transaction (and the confirmation of its certificate), only on behalf of that certificate and only while the certificate is "
  "neither revoked nor updated; forged messages of others do not use it up. Answers are protected with the same secret.",
  ["histories"], "all histories of 2 transactions, 2 certificates and 4 kinds of unacceptable KEM certificates over 6 bodies x own, other's and wrong secret x carried certificate x revocation and update in between",
  "Tests run one exchange, and one reuse.",
  ["mock_ca/ca_handler.py", "mock_ca/mock_fun.py", "mock_ca/prot_handler.py", "mock_ca/cert_conf_handler.py", "resources/general_msg_utils.py"],
  [("session list", "mock_ca/mock_fun.py KEMSharedSecretList"), ("establishing", "mock_ca/ca_handler.py process_genm")],
  TLC_REPLAY, "TLC explores the whole graph (312 states, 42000 transitions); quick replays every state change and one transition per class (2600), thorough 12 per class.")

P("P21", "Only signers with a valid chain to the CA's trust anchor are trusted",
  "A signature-protected request is accepted only if its first extra certificate holds the signing key, may sign, is in its validity period, and is linked by "
  "validly signed, valid CA certificates in the message to a trust anchor of the CA; otherwise it is refused and has no effect. "
  "A certificate is revoked or revived only for its holder or a registration authority the CA trusts.",
  ["inputs"], "chains of 2 to 4 certificates over defects of signer, issuers and anchor (key usage, validity, CA flag, path length, names, signatures, order, missing links) x bodies",
  "Tests use one valid chain and a missing certificate.",
  ["mock_ca/prot_handler.py", "resources/certutils.py", "mock_ca/ca_handler.py", "mock_ca/rev_handler.py"],
  [("trust", "mock_ca/prot_handler.py check_signer_is_trusted"), ("chain validation", "resources/certutils.py verify_cert_chain_openssl")],
  TABLE, "Quick: a seeded sample; thorough: all cases.")

P("P10", "A stateful one-time signature index counts once per key",
  "A message protected, or a possession proven, with a stateful hash-based signature (HSS/LMS) is accepted only if its one-time index was not used "
  "before by the same key, in whatever message, certificate or body. Every valid-looking signature that reached the check, good or bad, uses its index up; a malformed one does not, "
  "and is answered like any wrong protection. The certificates of such keys are enrolled, confirmed and updated like others.",
  ["histories"], "all histories of 3 (thorough: 5) messages over 4 bodies, 2 certificates of one key and a second key, fresh, repeated and malformed indices, proofs of possession included",
  "Tests repeat one index in one body with one certificate.",
  ["mock_ca/ca_handler.py", "mock_ca/prot_handler.py", "mock_ca/mock_fun.py", "pq_logic/hybrid_sig", "resources/protectionutils.py"],
  [("used indices", "mock_ca/prot_handler.py ProtectionHandler.validate_protection / stateful signature state")],
  TLC_REPLAY, "Quick replays every transition that changes state and one per class; thorough 8 per class and two-level HSS keys. XMSS is not available here (no liboqs).")

P("P09", "Nested messages count only with the RA's signature and admit nothing else",
  "A nested message is executed only if a trusted RA signed it and its identifiers are consistent; an inner message that would be refused alone for its "
  "protection, its signer, its key or its body is refused inside, too. A batch with such a message is refused as a whole and has no effect; otherwise every "
  "inner message has its own answer, in order, protected like it was, and confirmations inside confirm only the certificates of their own requester.",
  ["inputs"], "added protection and batches of 2 and 3 messages: 6 bodies x 5 protections x 6 kinds of signers x 6 kinds of requests x 5 outer signers x 16 defects of identifiers; "
  "confirmations: 2 enrolments x 6 protections x 7 contents in 1 to 3 entries",
  "Tests nest one or two good messages and break one of them.",
  ["mock_ca/nested_handler.py", "mock_ca/ca_handler.py", "mock_ca/prot_handler.py", "resources/checkutils.py", "resources/cmputils.py"],
  [("processing", "mock_ca/nested_handler.py NestedHandler"), ("protection", "mock_ca/prot_handler.py verify_nested_protection, verify_inner_batch_pkimessage")],
  TABLE, "14000 cases are specified; quick: all single messages and defects and a seeded 350 others, thorough: 5000. One level of nesting.")

P("P08", "A challenge is answered once, in its transaction, by the key's holder",
  "A certificate for a key whose possession is proven by a challenge is issued exactly for the first answer that carries the challenge's number, which only the key's holder can "
  "decrypt, in the transaction of the challenge; every other answer is refused with a fitting failInfo. Whatever happened since the request counts: the key certified or compromised, the requester "
  "revoked. Such certificates are registered, confirmed and revoked like all others.",
  ["histories", "inputs"], "all histories of 2 challenges over 2 transactions, 2 keys of one subject and 3 kinds of requests, with right, wrong, double, missing and badly protected answers, "
  "certifications, compromises, confirmations and revocations in between; and 7 kinds of keys x 2 versions x 2 protections x 2 kinds of challenges x waiting other challenges",
  "The tests run single exchanges on fresh handlers.",
  ["mock_ca/challenge_handler.py", "mock_ca/ca_handler.py", "resources/ca_ra_utils.py", "resources/extra_issuing_logic.py"],
  [("challenges", "mock_ca/challenge_handler.py ChallengeHandler"), ("client", "resources/extra_issuing_logic.py process_pkimessage_with_popdecc")],
  TLC_REPLAY, "Quick replays every class of transitions once and all granted kinds; thorough four of every finer class. An answer protected by someone else than the requester is not judged.")

P("P14", "An issued certificate is what was asked for, and one the CA may issue",
  "Every certificate the CA issues is a version 3 certificate under the CA's name and valid signature with a fresh positive serial number of at most 20 octets, for the requested "
  "subject and key, with the requested validity period and each requested extension once, unchanged, beside the CA's own ones. A template without a name, with a weak key, a serial number, a period that is "
  "over, ends before it starts or starts more than 10 days ago, or with unknown, wrong or contradicting extensions is refused with badCertTemplate and has no effect.",
  ["inputs"], "9 ways to prove possession x 4 kinds of subjects x 20 validity periods x 23 sets of extensions x serial number, version and key set or not, in all combinations of up to 2 (thorough: 3) "
  "deviations from the plain request",
  "Tests build a few certificates from one template each, mostly without the CA around.",
  ["resources/ca_ra_utils.py", "resources/certbuildutils.py", "mock_ca/cert_req_handler.py"],
  [("templates to certificates", "resources/certbuildutils.py build_cert_from_cert_template, build_cert_from_csr, check_extensions, default_validity"),
   ("bodies", "resources/ca_ra_utils.py build_ip_cmp_message, build_kup_from_kur, build_cp_from_p10cr, respond_to_cert_req_msg")],
  TABLE, "5381 cases specified; quick runs all with one deviation and a seeded 350 with two; thorough all with two and 6000 with three (25345 specified). Signatures are verified with the cryptography "
  "package, not with the code under test. Certificates for generated keys are P18's.")

P("P17", "Requests arriving together are served as if one after another",
  "Whatever the schedule of the threads in which the server handles requests that arrive at the same time, their answers and the CA's state afterwards are those of some order of the same requests one "
  "after another, and every request is answered. So a key, a transactionID, a shared secret, a challenge or a one-time index is not used twice, a certificate is not confirmed twice nor "
  "both updated and revoked, unrelated requests do not disturb each other, and no two certificates share a serial number.",
  ["schedules"], "all pairs (thorough: triples, too) out of 33 requests to one CA: enrolments with related and unrelated keys, confirmations, updates, revocations, one-time secrets, challenges, "
  "stateful signatures, CRL and OCSP queries; the first one interrupted at every (quick: a seeded 2 to 22 of 40 to 350) entry, exit or call of a Mock CA function, or both at two points",
  "No test sends two requests at the same time.",
  ["mock_ca/ca_handler.py", "mock_ca/mock_fun.py", "mock_ca/cert_conf_handler.py", "mock_ca/challenge_handler.py", "resources/certutils.py"],
  [("routes", "mock_ca/ca_handler.py handle_issuing, handle_ocsp_request, handle_crl_request, app.run"), ("shared state", "mock_ca/mock_fun.py MockCAState, CertRevStateDB"),
   ("shared directories", "resources/certutils.py verify_cert_chain_openssl")],
  "TLC on spec/Concurrent.tla (threads that decide and act, with and without the critical section; the answers and end states of every interleaving) and systematic schedules of the real server "
  "threads (Flask routes), whose outcomes must be among those of the specification",
  "The scheduler stops threads only in the Mock CA's own Python functions; switches inside the crypto libraries or between two bytecodes of one function are not explored. The hybrid routes are not covered.")

P("P18", "Centrally generated keys go only to the certificate's requester",
  "A version 3 ir, cr or kur without a key is answered with a certificate, made like any other, for a freshly generated key of the requested kind, and with that private key, signed by "
  "the CA's key generation authority and encrypted so that only the requester can read it; the certificate can be confirmed and the key used like any other. "
  "Such a request is refused with a fitting failInfo and without effect if its protection is wrong, its version is older, it proves possession, its algorithm is unknown, or if its "
  "requester's certificate does not allow receiving keys.",
  ["inputs", "histories"], "3 bodies x 12 requesters (4 MACs, RSA, EC, EdDSA and ML-DSA certificates with and without the key usages) x 10 kinds of keys x 5 deviations x implicit and explicit "
  "confirmation, and what follows: strangers trying to read the key, confirmation, use",
  "Tests build the structures, and ask a fresh handler for one RSA key.",
  ["mock_ca/cert_req_handler.py", "resources/ca_ra_utils.py", "resources/ca_kga_logic.py", "resources/envdatautils.py"],
  [("generation", "resources/ca_ra_utils.py prepare_cert_and_private_key_for_kga, build_kga_cmp_response"), ("delivery", "resources/ca_ra_utils.py _prepare_recip_info_for_kga_request"),
   ("reading", "resources/ca_kga_logic.py validate_not_local_key_gen")],
  TABLE, "Quick: a seeded sample of every class, thorough: all, and X-Wing, SLH-DSA and HSS keys. Composite keys cannot be read back by the suite's client and are left out.")

P("P19", "A registration token buys exactly one certificate; controls are honoured",
  "In an ir, the CA's registration token buys exactly one certificate, once, and is not used up by a request that is refused. A wrong or repeated token or authenticator, an archived private key that is not "
  "the requested one, an impossible publication request, or an update naming another certificate than the signer's is refused with a fitting failInfo and without effect.",
  ["histories"], "all histories of ir, cr and kur over 4 tokens x 4 authenticators x 4 archive options x 5 publication requests x 4 old certificate identifiers x 5 other faults x implicit and explicit "
  "confirmation, before and after the token was used",
  "Tests send each control once to a fresh handler.",
  ["mock_ca/cert_req_handler.py", "resources/ca_ra_utils.py"],
  [("controls", "resources/ca_ra_utils.py validate_cert_request_controls, validate_kur_controls"), ("tokens", "mock_ca/cert_req_handler.py CertReqHandler")],
  TLC_REPLAY, "Quick: one transition per class; thorough: 12. The CA looks at tokens and authenticators in ir only; for cr and kur nothing is claimed.")

P("P20", "A client takes a private key only from a trusted authority",
  "A client takes a private key delivered to it only if it can decrypt it, the delivery is well-formed, its content is signed, by a key generation authority "
  "with the right extended key usage and a valid chain to a trust anchor, and the key is the one of the delivered certificate. Every genuine delivery is taken, and the key returned is the one sent.",
  ["inputs"], "3 ways to encrypt (password, RSA, ECDH) x EC, pure and pre-hash ML-DSA authorities x 9 kinds of keys x all sets of up to 2 of 33 defects of message, recipient, content, signed data, signer and key",
  "Tests check single structures with a few defects, never a whole delivery.",
  ["resources/ca_kga_logic.py", "resources/envdatautils.py", "resources/certutils.py"],
  [("delivery", "resources/ca_kga_logic.py validate_not_local_key_gen, validate_enveloped_data, validate_signed_data_structure")],
  TABLE, "Quick: all single defects and a seeded 150 pairs; thorough: all pairs. The suite signs the encapsulated content instead of the signed attributes (both sides alike); this is modelled as it is.")

P("P22", "The suite calls a server's answer conforming exactly if it is",
  "An answer that conforms (a certificate, a confirmation, a revocation, a refusal) passes all of the suite's validators. An answer whose protection, header, confirmation "
  "data, request id, status, certificate, or protection algorithm does not fit is flagged by at least one of them. The verdict does not depend on the order in which the validators look, and looking does not change the message.",
  ["inputs"], "9 kinds of answers x signature or MAC x all sets of up to 2 of 55 defects x 7 orders of the validators",
  "Tests feed one hand-made message to one validator; nobody composes defects, validators and orders on real answers.",
  ["resources/checkutils.py", "resources/protectionutils.py", "resources/compareutils.py"],
  [("validators", "resources/checkutils.py validate_pkimessage_header, validate_ca_message_body, validate_extra_certs, check_pkimessage_signature_protection, validate_pki_confirmation_message"),
   ("protection", "resources/protectionutils.py verify_pkimessage_protection"), ("content", "resources/compareutils.py compare_cert_template_and_cert")],
  TABLE, "Quick: all single defects, one order each, and a seeded 60 pairs; thorough: all orders and 4000 pairs.")

P("P23", "A kept key is read as the key that was kept, or not at all",
  "A private or public key that was written (to a file, with or without a password, or as a DER structure, as a seed, an expanded key or both) and read again is the same key: equal, "
  "with the same public key, and usable with it. If what was kept is cut off, grown, of an unknown version, marked with another algorithm, combined with another public key or made of the "
  "halves of two keys, or the password is wrong, nothing is read.",
  ["inputs"], "18 kinds of keys (RSA to composite, X-Wing, Chempat and HSS) x 3 forms x 5 ways to keep them x up to 11 damages: 814 cases",
  "Tests read undamaged keys of a few kinds, and mostly compare them by type only.",
  ["resources/keyutils.py", "pq_logic/combined_factory.py", "pq_logic/keys/kem_keys.py", "pq_logic/keys/sig_keys.py", "pq_logic/keys/stateful_sig_keys.py", "pq_logic/keys/abstract_wrapper_keys.py"],
  [("files", "resources/keyutils.py save_key, load_private_key_from_file, load_public_key_from_spki"),
   ("structures", "pq_logic/combined_factory.py CombinedKeyFactory.load_private_key_from_one_asym_key, save_private_key_as_one_asym_key"),
   ("equality", "pq_logic/keys/abstract_wrapper_keys.py PQPrivateKey.__eq__")],
  TABLE, "Damages are of the structure; single flipped bits inside an expanded key, which nothing kept contradicts, are not. Composite keys are kept as seeds only (the other forms: DESIGN.md, findings).")

P("P24", "A hybrid credential needs both keys of its owner",
  "A composite signature, a catalyst, Sun-Hybrid, chameleon, related or paired credential and a message protected with both keys of one are accepted if and only if the owner's "
  "classical key and the owner's post-quantum key both made a proof over this very content, and the post-quantum key is the one the credential binds. Who has learnt one of the two keys cannot change, "
  "transplant, strip or redirect anything.",
  ["inputs"], "23 kinds of credentials x what the attacker knows (no key, one, both) x content kept or changed x each proof by the owner, copied, by the attacker, broken or missing x the reference to the "
  "other key right or substituted: 1035 cases (quick: the single steps and a seeded 200)",
  "Tests break one half of one kind; nobody checks that the halves and the reference hold together.",
  ["pq_logic/pq_verify_logic.py", "pq_logic/keys/composite_sig.py", "pq_logic/hybrid_sig", "pq_logic/hybrid_issuing.py"],
  [("messages", "pq_logic/pq_verify_logic.py verify_hybrid_pkimessage_protection, verify_composite_signature_with_hybrid_cert"),
   ("certificates", "pq_logic/hybrid_sig/catalyst_logic.py verify_catalyst_signature, sun_lamps_hybrid_scheme_00.py verify_sun_hybrid_cert, chameleon_logic.py verify_paired_csr_signature"),
   ("lists", "resources/certutils.py verify_crl_signature"), ("composite", "pq_logic/keys/composite_sig.py CompositeSigPublicKey.verify")],
  TABLE, "ML-DSA with RSA and EC as classical halves. The network fetches of discovery and Sun-Hybrid are answered by a stand-in that may answer with the attacker's key.")

P("P25", "Walking between the forms of a hybrid certificate loses nothing",
  "The certificate derived from a chameleon base certificate is, octet by octet, the delta certificate that was issued, and verifies under its issuer, whatever keys, subjects and extensions the two requests share or differ in. "
  "A Sun-Hybrid certificate walked through its four forms (key and signature by value or by hash) is in every form the one conversion yields, and verifies.",
  ["inputs", "histories"], "RSA, EC, EdDSA and ML-DSA issuers and keys x which of 3 extensions both requests have alike, differently or with other criticality x SKI x subject x hash; all walks of up to 3 conversions",
  "Tests derive one certificate and convert once.",
  ["pq_logic/hybrid_sig/chameleon_logic.py", "pq_logic/hybrid_sig/sun_lamps_hybrid_scheme_00.py"],
  [("descriptor", "pq_logic/hybrid_sig/chameleon_logic.py build_chameleon_cert_from_paired_csr, prepare_dcd_extension_from_delta, build_delta_cert"),
   ("forms", "pq_logic/hybrid_sig/sun_lamps_hybrid_scheme_00.py convert_sun_hybrid_cert_to_target_form")],
  TABLE, "Quick: a seeded 400; thorough: all. Deltas that lack an extension of the base cannot be described by the draft's syntax; the requests with them are given the base's.")
